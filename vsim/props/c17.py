"""C17: a limit on the index shift is kept."""
import numpy as np

from vsim import optlab, world
from vsim.kernel import Violation
from vsim.lab import attempt
from vsim.ref import kerr, kerr_solve

QUICK = 150
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = dict(optlab.FAULTS)
PROBES = ['limit kept', 'source lowered', 'source raised', 'lowered far', 'raised far', 'strong start', 'no limit',
          'no light in the nonlinear region', 'complex source', 'several nonlinearities', 'scaled nonlinearity',
          'linear objective', 'nonlinear objective', 'GD', 'ADAM', 'LBFGS', 'run failed', 'later run', 'design changed',
          'record', 'gradient at the new source', 'no source', 'index shift', 'index shift of another source']
MARGIN = 0.01


def gen(rng, k):
    while True:
        p = optlab.gen_problem(rng, filt=0.15, nl=1.0)
        if p['design']['nl']:
            break
    d = p['design']
    p['limit'] = None if rng.random() < 0.12 else rng.choice([1e-6, 1e-5, 1e-4, 1e-3])
    for n in d['nl']:
        n['shift'] = (p['limit'] or 1e-4)*rng.choice([1e-3, 0.3, 1.0, 3.0, 30.0])
        n['shift'] = min(n['shift'], 2e-2)
    if rng.random() < 0.4:
        d['obj'] = world.gen_objective(rng, p['prob'], False)
    if rng.random() < 0.06:
        p['prob']['src']['kind'] = 'zero'
    ops = [p]
    for i in range(rng.choice([1, 1, 2])):
        ops.append({'op': 'run', 'method': rng.choice(['GD', 'GD', 'ADAM', 'LBFGS']), 'n': rng.choice([1, 2, 3, 4]),
                    'rel': rng.choice([0.02, 0.2])})
        for _ in range(rng.choice([0, 1, 1, 2])):
            # the user looks at the shift, also for other sources
            op = {'op': 'shift', 'how': rng.choice(['asis', 'in place', 'replace', 'region', 'solved']), 'f': rng.choice([0.3, 0.9, 1.5])}
            ops.insert(rng.randrange(1, len(ops) + 1), op)
    return {'ops': ops}


def index_shift(s, rho, src):
    """(largest index shift by the converged nonlinear fields, by the linear ones) of a design, or None"""
    ref = world.make_ref(s.spec, eps=s.eps_of(rho))
    nls = world.nl_list(s.spec, s.d['nl'], s.d['eps_m'])
    lin = ref.fields(src)['Ez']
    e, ok = kerr_solve(ref, nls, src, lin)
    if not ok:
        return None

    def dn(f):
        return np.max(np.abs(np.sqrt(ref.eps + kerr(nls, f, ref.eps)) - np.sqrt(ref.eps)))
    a, b = dn(e), dn(lin)
    return (a, b) if np.isfinite(a) and np.isfinite(b) else None


def weak(x):
    return x is not None and abs(x[0] - x[1]) <= 0.01*x[1]


def near_limit(s, *xs):
    """The shift is at the limit less the margin, up to what the nonlinearity itself may add"""
    tol = 0.004 + 4*sum(abs(x[0] - x[1])/x[1] for x in xs if x[1] > 0)
    return abs(xs[-1][0]/s.limit - (1 - MARGIN)**2) <= min(tol, 0.04)


def factor(a, b, what):
    """The factor between two sources, which must have the same shape and phase"""
    m = np.abs(a) > 0
    if not np.all(np.isfinite(b)):
        raise Violation('source', '%s: the source is not finite' % what)
    if np.any(b[~m] != 0):
        raise Violation('source', '%s: the source appears where it was zero' % what)
    if not np.any(m):
        return 1.0
    r = b[m]/a[m]
    c = np.real(r[np.argmax(np.abs(a[m]))])
    if not c > 0 or np.max(np.abs(r - c)) > 1e-5*c:
        raise Violation('source', '%s: the source is not a positive multiple of the one before (%s ... %s)'
                        % (what, r[0], r[-1]))
    return c


def execute(sim, prog):
    s = None
    runs = 0
    for k, op in enumerate(prog['ops']):
        sim.begin(k, op['op'])
        if op['op'] == 'new':
            s = optlab.Session(sim, op, max_ind_shift=op['limit'])
            s.limit = op['limit']
            s.linear = not any(a[1] for a in s.d['obj']['args'])
            with sim.oracle():
                src = np.array(s.real.src)
                sim.probe('complex source', int(np.max(np.abs(np.imag(src)), initial=0) > 0))
                sim.probe('no source', int(not np.any(src)))
                x = index_shift(s, s.start(), np.array(src, dtype=complex))
                sim.probe('no light in the nonlinear region', int(x is not None and x[0] == 0))
                sim.probe('strong start', int(not weak(x)))
        elif s is not None and op['op'] == 'shift':
            shift(sim, s, op)
        elif s is not None:
            run(sim, s, op)
            sim.probe('later run', int(runs > 0))
            runs += 1


def shift(sim, s, op):
    """The index shift that is reported is that of the source and the structure as they are now"""
    real = s.real
    if op['how'] == 'in place':
        real.src *= op['f']
    elif op['how'] == 'replace':
        real.src = np.array(real.src)*op['f']
    elif op['how'] == 'region':
        # one wire of it
        src = np.array(real.src)
        src[np.unravel_index(np.argmax(np.abs(src)), src.shape)] *= op['f']
        real.src = src
    elif op['how'] == 'solved':
        attempt(sim, s.opt.compute_J, real)
    eps = np.array(real.eps_r)
    st, got = attempt(sim, real.compute_index_shift)
    if st != 'ok':
        return
    with sim.oracle():
        src = np.array(real.src, dtype=complex)
        ref = world.make_ref(s.spec, eps=eps)
        nls = world.nl_list(s.spec, s.d['nl'], s.d['eps_m'])
        t = s.twin_eps(eps, s.spec['omega'])
        conv = t.solve_fields_nl()[3]
        if not (np.isfinite(conv[-1]) and abs(conv[-1]) <= 1e-8):
            return
        e, ok = kerr_solve(ref, nls, src, ref.fields(src)['Ez'])
        want = t.compute_index_shift()
        got = np.asarray(got)
        tol = 1e-4*np.max(np.abs(want)) + 1e-12
        if got.shape != eps.shape or not np.all(np.abs(got - want) <= tol):
            raise Violation('shift', 'the index shift is reported as up to %.4e; for the source and structure as they are '
                            'now it is %.4e' % (np.max(np.abs(got)), np.max(np.abs(want))))
        if ok:
            w = np.abs(np.sqrt(ref.eps + kerr(nls, e, ref.eps)) - np.sqrt(ref.eps))
            if weak((np.max(w), np.max(np.abs(np.sqrt(ref.eps + kerr(nls, ref.fields(src)['Ez'], ref.eps)) - np.sqrt(ref.eps))))):
                if not np.all(np.abs(got - w) <= 1e-3*np.max(w) + 1e-12):
                    raise Violation('shift', 'the index shift is reported as up to %.4e, by the equations it is %.4e'
                                    % (np.max(np.abs(got)), np.max(w)))
        sim.probe('index shift')
        sim.probe('index shift of another source', int(op['how'] in ('in place', 'replace', 'region')))


def run(sim, s, op):
    real, opt = s.real, s.opt
    trace = []                      # (recorded, density, source) at every evaluation of the objective
    n0, a0 = len(opt.objfn_list), len(opt.src_amplitudes)

    def observe():
        trace.append((len(opt.objfn_list) - n0, np.array(real.rho), np.array(real.src, dtype=complex)))
    start = np.array(real.src, dtype=complex)
    kw = {'method': op['method'], 'Nsteps': op['n']}
    if op['method'] != 'LBFGS':
        with sim.oracle():
            kw['step_size'] = op['rel'] if op['method'] == 'ADAM' else step(s, op['rel'])
    st, _ = s.run(observer=observe, **kw)
    with sim.oracle():
        end = np.array(real.src, dtype=complex)
        sim.probe(op['method'])
        sim.probe('linear objective' if s.linear else 'nonlinear objective')
        sim.probe('several nonlinearities', int(len(s.d['nl']) > 1))
        sim.probe('scaled nonlinearity', int(any(n['scale'] for n in s.d['nl'])))
        sim.probe('run failed', int(st != 'ok'))
        records = opt.objfn_list[n0:]
        amps = [float(np.real(a)) for a in opt.src_amplitudes[a0:]]
        if st == 'ok' and len(amps) != len(records):
            raise Violation('record', '%d objectives and %d source amplitudes were recorded' % (len(records), len(amps)))
        if s.limit is None:
            for src in [t[2] for t in trace] + [end]:
                if not np.array_equal(src, start):
                    raise Violation('source', 'the source changed without a limit on the index shift')
            sim.probe('no limit')
            return
        # the evaluations between two changes of the source
        stages = [(start, [])]
        for (n, rho, src) in trace:
            if not np.array_equal(src, stages[-1][0]):
                stages.append((src, []))
            stages[-1][1].append((n, rho))
        if not np.array_equal(stages[-1][0], end):
            stages.append((end, []))
        for i in range(1, len(stages)):
            adjust(sim, s, stages[i - 1], stages[i][0], 'change %d' % i)
        changes = len(stages) - 1
        if changes > len(records):
            raise Violation('source', 'the source was changed %d times in %d iterations' % (changes, len(records)))
        for k, (J, a) in enumerate(zip(records, amps)):
            # the k-th amplitude is the one in force when the k-th objective was evaluated
            at = [(rho, src) for (n, rho, src) in trace if n == k]
            if not at:
                continue
            # (the gradient of the iteration before may have been evaluated since the last record too)
            rho, src = at[-1]
            check_record(sim, s, J, rho, src, k)
            if not abs(a - np.max(np.abs(src))) <= 1e-5*np.max(np.abs(src)):
                raise Violation('record', 'source amplitude %d is recorded as %.6e, it was %.6e'
                                % (k, a, np.max(np.abs(src))))
        if st == 'ok':
            settled(sim, s, op, trace, end, len(records))
            if op['method'] == 'GD':
                gradient_step(sim, s, trace, kw['step_size'], len(records))


def step(s, relative):
    """A step size by the gradient that the first step will see"""
    rho = s.start()
    x = index_shift(s, rho, np.array(s.real.src, dtype=complex))
    keep = np.array(s.real.src)
    if s.limit is not None and weak(x) and x[0] > 0:
        s.real.src = keep*np.sqrt(s.limit/x[0])*(1 - MARGIN)
    try:
        return s.step_size(relative)
    finally:
        s.real.src = keep


def adjust(sim, s, stage, new, what):
    """One change of the source"""
    old, evals = stage
    c = factor(old, new, what)
    if not evals:
        return
    rho = evals[-1][1]
    before, after = index_shift(s, rho, old), index_shift(s, rho, new)
    if weak(before) and weak(after) and after[0] > 0 and s.settles(rho):
        if not near_limit(s, before, after):
            raise Violation('limit', '%s: the index shift is %.4g of the limit after the source was scaled by %.4g'
                            % (what, after[0]/s.limit, c))
        sim.probe('limit kept')
        sim.probe('source lowered' if c < 1 else 'source raised')
        sim.probe('lowered far', int(c < 0.3))
        sim.probe('raised far', int(c > 3))


def settled(sim, s, op, trace, end, n):
    """After a run of some iterations the shift is at the limit for the last design that the limit was applied to"""
    if n == 0 or op['method'] == 'LBFGS':
        return
    last = [rho for (k, rho, src) in trace if k == n - 1]
    if not last:
        return
    x = index_shift(s, last[-1], end)
    before = index_shift(s, last[-1], [src for (k, rho, src) in trace if k == n - 1][-1])
    if weak(before) and weak(x) and x[0] > 0 and s.settles(last[-1]):
        if not near_limit(s, before, x):
            # from a strong start it takes more than one iteration
            first = index_shift(s, trace[0][1], trace[0][2])
            if weak(first) or n > 3:
                raise Violation('limit', 'after %d iterations the index shift is %.4g of the limit' % (n, x[0]/s.limit))
    if len(trace) > 1:
        sim.probe('design changed', int(np.max(np.abs(trace[0][1] - s.start())) > 1e-3))


def converges(s, rho, src):
    if s.linear:
        return True
    keep = s.real.src
    s.real.src = src
    try:
        return s.settles(rho)
    finally:
        s.real.src = keep


def check_record(sim, s, J, rho, src, k):
    if not converges(s, rho, src):
        return
    r = world.RefDesign(s.spec, s.d, s.scales, src=src)
    want = r.J(rho)
    if not r.converged or not np.isfinite(want):
        return
    if not abs(np.real(J) - want) <= 5e-5*max(abs(want), 1e-3):
        raise Violation('record', 'objective %d is recorded as %.8e, the design has %.8e with the source then in force'
                        % (k, np.real(J), want))
    sim.probe('record')


def gradient_step(sim, s, trace, size, records):
    """Each step of gradient ascent uses the gradient for the source as it has just been adjusted"""
    firsts = {n: (rho, src) for (n, rho, src) in trace if n < records}
    ks = sorted(firsts)
    keep = np.array(s.real.src)
    for a, b in list(zip(ks, ks[1:]))[:2]:
        if b != a + 1:
            continue
        rho = firsts[a][0]
        src = firsts[b][1]      # adjusted in iteration a, and not again before the objective of iteration b
        try:
            s.real.src = src
            if not s.settles(rho) or not converges(s, rho, src):
                continue
            g = s.gradient(rho)
        finally:
            s.real.src = keep
        rule = optlab.Rule('GD', size)
        want, slack = rule.next(rho, g, s.region)
        if optlab.off_by(firsts[b][0], want, slack) > 1e-4*max(1.0, size*np.max(np.abs(g))):
            raise Violation('gradient', 'the step of iteration %d is not that of the gradient for the source then in force'
                            ' (off by %.1e)' % (a, optlab.off_by(firsts[b][0], want, slack)))
        sim.probe('gradient at the new source')
