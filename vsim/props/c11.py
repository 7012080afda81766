"""C11: scans and analyses report what individual computations would, undisturbed."""
import copy

import numpy as np

from vsim import modes, optlab, world
from vsim.kernel import Violation
from vsim.lab import attempt
from vsim.ref import kerr, kerr_solve

QUICK = 170
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = dict(optlab.FAULTS, deepcopy=['mem', 'int'], eigs=['mem', 'noconv', 'int'], probe=['err', 'int'])
PROBES = ['frequency scan', 'width of a peak', 'width with other peaks', 'even number of points', 'scan failed',
          'power scan', 'points of a power scan', 'nonlinear power scan', 'several modes', 'several probes',
          'derivative check', 'pairs of derivatives', 'index shift', 'scaled nonlinearity', 'without progress bar',
          'scan after a run', 'scan after a scan', 'hybrid', 'born', 'newton',
          'synthetic objective']


def gen(rng, k):
    if k % 3 == 0:
        return gen_power(rng)
    ops = [optlab.gen_problem(rng, filt=0.15, nl=0.45)]
    for _ in range(rng.randrange(2, 6)):
        o = rng.choice(['freq', 'freq', 'peaks', 'peaks', 'deriv', 'deriv', 'shift', 'run', 'solve', 'src'])
        op = {'op': o, 'seed': rng.randrange(10**6)}
        if o in ('freq', 'peaks'):
            op['n'] = rng.choice([2, 3, 4]) if o == 'freq' else rng.choice([5, 8, 9, 14])
            op['df'] = rng.choice([1/20, 0.2, 0.5])
            op['bar'] = rng.random() < 0.6
        elif o == 'deriv':
            op['n'] = rng.choice([1, 2, 3])
            op['d'] = rng.choice([1e-3, 1e-2])
        elif o == 'run':
            op['method'] = rng.choice(['GD', 'LBFGS', 'ADAM'])
        elif o == 'src':
            op['f'] = rng.choice([0.5, 1.5])
        ops.append(op)
    return {'ops': ops}


def gen_power(rng):
    p = world.gen_problem(rng, pol='Ez')
    ms = modes.gen_modes(rng, p, n=rng.choice([1, 1, 2]), order=rng.random() < 0.3)
    ops = [{'op': 'power', 'prob': p, 'modes': ms, 'n': rng.choice([2, 3, 4]), 'solver': rng.choice(['newton', 'born',
            'hybrid']), 's': rng.choice([[0.1, 1.0], [1.0, 20.0], [0.5, 0.6]]), 'nl': world.gen_nl(rng, p),
            'shift': rng.choice([1e-4, 1e-3]), 'probes': rng.choice([1, 1, 2]), 'seed': rng.randrange(10**6),
            'solved': rng.random() < 0.5} for _ in range(1)]
    if rng.random() < 0.5:
        ops.append({'op': 'again', 's': [0.2, 0.4], 'n': 2, 'solver': rng.choice(['newton', 'born', 'hybrid'])})
    return {'ops': ops}


# ------------------------------------------------------------------------------------------

def freeze(real, opt=None, keep_results=True):
    """Everything that a scan has to leave alone"""
    out = {'eps': np.array(real.eps_r), 'src': np.array(real.src), 'omega': real.omega,
           'A': real.A.copy() if hasattr(real, 'A') else None,
           'rho': None if getattr(real, 'rho', None) is None else np.array(real.rho),
           'W_in': getattr(real, 'W_in', None), 'npml': list(real.NPML), 'pol': real.pol,
           'modes': [(m.neff, m.direction_normal, list(m.center), m.width, m.scale, m.order) for m in real.modes],
           'nls': [(n.chi, np.array(n.nl_region)) for n in real.nonlinearity]}
    if keep_results:
        for name in ('fields', 'fields_nl'):
            for c, f in getattr(real, name).items():
                out[name + c] = None if f is None else np.array(f)
    if opt is not None:
        out.update(objs=list(opt.objfn_list), amps=list(opt.src_amplitudes), same=opt.simulation is real,
                   region=np.array(opt.design_region), beta=opt.beta, eta=opt.eta)
    return out


def compare(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        if k == 'A':
            same = (x != y).nnz == 0
        elif k == 'nls':
            same = len(x) == len(y) and all(p[0] == q[0] and np.array_equal(p[1], q[1]) for p, q in zip(x, y))
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            same = x is not None and y is not None and np.array_equal(x, y)
        else:
            same = x == y
        if not same:
            raise Violation('disturbed', '%s changed the simulation\'s %s' % (what, {
                'eps': 'permittivity', 'src': 'source', 'omega': 'frequency', 'A': 'system matrix', 'rho': 'density',
                'W_in': 'input power', 'objs': 'record', 'amps': 'record'}.get(k, k)))


def width(freqs, objs):
    """Width of the contiguous points above half of the maximum around the center, or None if it depends on
       rounding errors or there is no such peak"""
    objs = np.asarray(objs, dtype=float)
    half = np.max(objs)/2
    if half <= 0 or np.min(np.abs(objs - half)) < 1e-4*half:
        return None
    n = len(objs)
    up, down = n//2, n//2 - 1
    if not (objs[up] > half and (down < 0 or objs[down] > half or n % 2 == 1)):
        return None
    while up < n and objs[up] > half:
        up += 1
    while down >= 0 and objs[down] > half:
        down -= 1
    return (up - 1 - down)*(freqs[1] - freqs[0]), bool(np.any(objs[:max(down, 0)] > half) or np.any(objs[up:] > half))


def scan_frequency(sim, s, op):
    real, opt = s.real, s.opt
    synthetic = op['op'] == 'peaks'
    before = freeze(real, opt)
    saved = None
    omegas = []
    if synthetic:
        # the user's objective is a function of the field at a point, made to have several peaks in frequency
        sim.probe('synthetic objective')
        r = np.random.RandomState(op['seed'])
        table = list(np.round(r.rand(op['n']), 3))
        peak = op['n']//2
        table[peak] = 1.0
        if r.rand() < 0.7:
            table[peak - 1] = 0.9
        calls = []

        def J(*fields):
            sim.call('objective', 'synthetic')
            calls.append(1)
            return table[len(calls) - 1]
        saved, opt.objective.J = opt.objective.J, J
    try:
        st, got = attempt(sim, opt.scan_frequency, Nf=op['n'], df=op['df'], pbar=op['bar'])
    finally:
        if synthetic:
            opt.objective.J = saved
    with sim.oracle():
        compare(before, freeze(real, opt), 'a frequency scan' if st == 'ok' else 'a failed frequency scan')
        if st != 'ok':
            sim.probe('scan failed')
            return
        freqs, objs, fwhm = got
        omega = real.omega
        want_f = np.linspace(omega*(1 - op['df']/2), omega*(1 + op['df']/2), op['n'])/(2*np.pi)
        if len(freqs) != op['n'] or np.max(np.abs(np.asarray(freqs) - want_f)) > 1e-9*omega or len(objs) != op['n']:
            raise Violation('frequency', 'a scan of %d frequencies over %g of the center returned %s' % (
                op['n'], op['df'], freqs))
        if synthetic:
            if len(calls) != op['n'] or list(objs) != table:
                raise Violation('frequency', 'the scan reports %s, the objective function gave %s' % (objs, table))
        else:
            for f, J in zip(want_f, objs):
                r = s.ref()
                r.omega = 2*np.pi*f
                want = r.objective(np.array(real.eps_r))
                if s.d['nl'] and not settles_at(s, 2*np.pi*f):
                    continue
                if r.converged and not abs(J - want) <= 5e-5*max(abs(want), 1.0):
                    raise Violation('frequency', 'the scan has %.8e at %.6g times the center, a separate computation '
                                    'gives %.8e' % (J, 2*np.pi*f/omega, want))
        sim.probe('frequency scan')
        sim.probe('even number of points', int(op['n'] % 2 == 0))
        sim.probe('without progress bar', int(not op['bar']))
        w = width(want_f, objs)
        if w is not None:
            if not abs(fwhm - w[0]) <= 1e-6*w[0]:
                raise Violation('width', 'the width of the peak of %s is %.6g steps' % (
                    [round(float(x), 4) for x in objs], fwhm/(want_f[1] - want_f[0])))
            sim.probe('width of a peak')
            sim.probe('width with other peaks', int(w[1]))


def settles_at(s, omega):
    t = s.twin_eps(np.array(s.real.eps_r), omega)
    conv = t.solve_fields_nl()[-1]
    return bool(np.isfinite(conv[-1])) and abs(conv[-1]) <= 1e-8


def check_deriv(sim, s, op):
    real, opt = s.real, s.opt
    if getattr(real, 'rho', None) is None:
        return
    rho = np.array(real.rho)
    before = freeze(real, opt, keep_results=False)
    with sim.oracle():
        real_eps = s.eps_of(rho)
    np.random.seed(op['seed'])
    st, got = attempt(sim, opt.check_deriv, Npts=op['n'], d_rho=op['d'])
    with sim.oracle():
        after = freeze(real, opt, keep_results=False)
        if not np.array_equal(before['eps'], after['eps']):
            # the check applies the filter and the projection to a density that was edited directly
            if np.max(np.abs(after['eps'] - real_eps)) > 1e-9*np.max(np.abs(real_eps)):
                raise Violation('disturbed', 'a derivative check changed the permittivity to another than the density\'s')
            for k in ('eps', 'A'):
                before.pop(k), after.pop(k)
        compare(before, after, 'a derivative check' if st == 'ok' else 'a failed derivative check')
        if st != 'ok':
            sim.probe('scan failed')
            return
        avm, num = got
        if len(avm) != op['n'] or len(num) != op['n']:
            raise Violation('derivative', 'a check of %d derivatives returned %d and %d' % (op['n'], len(avm), len(num)))
        sim.probe('derivative check')
        if not s.settles(rho):
            return
        g = s.gradient(rho)
        J0 = s.J(rho)
        if J0 is None:
            return
        for a, d in zip(avm, num):
            pts = [p for p in np.argwhere(s.region) if abs(g[tuple(p)] - a) <= 1e-6*max(np.max(np.abs(g)), 1e-12)]
            if not pts:
                raise Violation('derivative', 'the derivative check reports a gradient of %.8e, no design pixel has that'
                                % a)
            if len(pts) > 4:
                continue
            want = []
            for p in pts:
                new = rho.copy()
                new[tuple(p)] += op['d']
                J = s.J(new)
                if J is None:
                    break
                want.append((J - J0)/op['d'])
            else:
                scale = max(abs(J0), 1.0)*1e-5/op['d']
                if not any(abs(d - w) <= scale + 1e-3*abs(w) for w in want):
                    raise Violation('derivative', 'the derivative check reports a difference quotient of %.6e, a separate '
                                    'computation gives %s' % (d, want))
                sim.probe('pairs of derivatives')


def index_shift(sim, s, op):
    real = s.real
    if not real.nonlinearity:
        return
    before = freeze(real, s.opt, keep_results=False)
    st, dn = attempt(sim, real.compute_index_shift)
    with sim.oracle():
        compare(before, freeze(real, s.opt, keep_results=False), 'computing the index shift')
        if st != 'ok':
            return
        eps = np.array(real.eps_r)
        r = s.ref()
        ref = world.make_ref(s.spec, eps=eps)
        e, ok = kerr_solve(ref, r.nls, r.src, ref.fields(r.src)['Ez'])
        conv = s.twin_eps(eps, s.spec['omega']).solve_fields_nl()[-1]
        if not ok or not abs(conv[-1]) <= 1e-8:
            return
        want = np.abs(np.sqrt(eps + kerr(r.nls, e, eps)) - np.sqrt(eps))
        if np.shape(dn) != want.shape or np.max(np.abs(dn - want)) > 1e-4*max(np.max(want), 1e-9):
            raise Violation('shift', 'the index shift reported is at most %.6e, that of the converged nonlinear fields '
                            '%.6e' % (np.max(dn), np.max(want)))
        sim.probe('index shift')
        sim.probe('scaled nonlinearity', int(any(n['scale'] for n in s.d['nl'])))


# ------------------------------------------------------------------------------------------

class Wave:
    """A simulation with modes, for power scans"""


def setup_power(sim, op):
    from angler import Optimization
    w = Wave()
    w.spec, w.modes = op['prob'], [dict(m) for m in op['modes']]
    with sim.oracle():
        w.real = world.make_sim(w.spec, src=False)
        for m in w.modes:
            modes.add(w.real, m)
        w.eps = np.array(w.real.eps_r)
        w.real.setup_modes()
        # the strongest of the scanned sources gives the index shift asked for
        ref = world.make_ref(w.spec)
        big = source(w, op['s'][1], w.real)
        peak = max([np.max(np.abs(ref.fields(big)['Ez']*world.region(w.spec, n['rect']))**2) for n in op['nl']])
        w.nls = [(op['shift']/(3*peak) if peak > 0 else 0.0, world.region(w.spec, n['rect']),
                  w.spec['eps']['eps_m'] if n['scale'] else None) for n in op['nl']]
        world.add_nl(w.real, w.spec, w.nls)
        d = world.region(w.spec, op['nl'][0]['rect'])
        w.opt = Optimization(objective=None, simulation=w.real, design_region=d, eps_m=w.spec['eps']['eps_m'])
        if op['solved']:
            w.real.solve_fields()
            w.real.solve_fields_nl()
    n = w.spec['shape']
    r = np.random.RandomState(op['seed'])
    w.lines = [('xy'[r.randint(2)], [int(r.randint(n[0]//2, n[0] - 2)), int(r.randint(n[1]//2 - 1, n[1]//2 + 2))],
                int(r.randint(2, 7))) for _ in range(op['probes'])]
    return w


def source(w, scale, real):
    """The source with the first mode at another scale"""
    src = np.array(real.src, dtype=complex)
    m = w.modes[0]
    src[modes.line(m)] = first_profile(w, real)*scale
    return src.astype(np.complex64)


def first_profile(w, real):
    """The first mode at scale one (whether it is the right one is the subject of C14)"""
    if not hasattr(w, 'unit'):
        from angler import Simulation
        s = w.spec
        t = Simulation(s['omega'], np.array(real.eps_r), s['dl'], list(s['npml']), s['pol'], L0=s['L0'])
        modes.add(t, dict(w.modes[0], scale=1.0))
        t.setup_modes()
        w.unit, w.unit_W = np.array(t.src, dtype=complex)[modes.line(w.modes[0])], t.W_in
    return w.unit


def scan_power(sim, w, op):
    real = w.real
    before = freeze(real)

    def probe(line):
        def f(simulation):
            sim.call('probe', line[0])
            return simulation.flux_probe(line[0], list(line[1]), line[2], nl=True)
        return f
    st, got = attempt(sim, w.opt.scan_power, probes=[probe(l) for l in w.lines], Ns=op['n'], s_min=op['s'][0],
                      s_max=op['s'][1], solver=op['solver'])
    with sim.oracle():
        compare(before, freeze(real), 'a power scan' if st == 'ok' else 'a failed power scan')
        if st != 'ok':
            sim.probe('scan failed')
            return
        powers, trans = got
        if len(powers) != op['n'] or len(trans) != len(w.lines) or any(len(t) != op['n'] for t in trans):
            raise Violation('power', 'a scan of %d powers with %d probes returned %d powers and %s transmissions'
                            % (op['n'], len(w.lines), len(powers), [len(t) for t in trans]))
        sim.probe('power scan')
        sim.probe(op['solver'])
        sim.probe('several modes', int(len(w.modes) > 1))
        sim.probe('several probes', int(len(w.lines) > 1))
        first_profile(w, real)
        for i, a in enumerate(np.logspace(np.log10(op['s'][0]), np.log10(op['s'][1]), op['n'])):
            W = w.unit_W*a**2
            src = source(w, a, real)
            ref = world.make_ref(w.spec, eps=w.eps)
            lin = ref.fields(src)['Ez']
            f = ref.components(lin)
            strength = w.spec['dl']*np.sum(np.abs(lin)*(np.abs(f['Hx']) + np.abs(f['Hy'])))/np.sqrt(lin.size)
            if not abs(powers[i] - W) <= 1e-5*abs(W) + 1e-6*strength:
                raise Violation('power', 'point %d of the scan has an input power of %.6e, a separate computation '
                                'gives %.6e' % (i, powers[i], W))
            e, ok = kerr_solve(ref, w.nls, src, lin)
            if not ok or not settles_power(w, src, op['solver']):
                continue
            f = ref.components(e, eps_nl=kerr(w.nls, e, w.eps))
            strength = w.spec['dl']*np.sum(np.abs(f['Ez'])*(np.abs(f['Hx']) + np.abs(f['Hy'])))/np.sqrt(f['Ez'].size)
            for line, t in zip(w.lines, trans):
                P = ref.flux(f, line[0], line[1], line[2])
                if abs(powers[i]) < 1e-12*strength:
                    continue  # a source without power: the transmission is a ratio of rounding errors
                if not abs(t[i]*powers[i] - P) <= 1e-5*strength:
                    raise Violation('power', 'point %d of the scan has a transmission of %.6e, a separate computation '
                                    'gives %.6e' % (i, t[i], P/W))
            sim.probe('points of a power scan')
            shift = np.linalg.norm(e - lin)/np.linalg.norm(e)
            sim.probe('nonlinear power scan', int(shift > 1e-4))


def settles_power(w, src, solver):
    from angler import Simulation
    s = w.spec
    t = Simulation(s['omega'], w.eps.copy(), s['dl'], list(s['npml']), s['pol'], L0=s['L0'])
    t.src = src.copy()
    world.add_nl(t, s, w.nls)
    name = 'newton' if solver == 'hybrid' else solver
    conv = t.solve_fields_nl(solver_nl=name, conv_threshold=1e-10, max_num_iter=100)[-1]
    return bool(np.isfinite(conv[-1])) and abs(conv[-1]) <= 1e-8


def execute(sim, prog):
    s = w = None
    last = None
    for k, op in enumerate(prog['ops']):
        sim.begin(k, op['op'])
        o = op['op']
        if o == 'power':
            w = setup_power(sim, op)
            scan_power(sim, w, op)
            continue
        if o == 'again' and w is not None:
            scan_power(sim, w, op)
            sim.probe('scan after a scan')
            continue
        if o == 'new':
            s = optlab.Session(sim, op)
            continue
        if s is None:
            continue
        if o in ('freq', 'peaks'):
            if last == 'run':
                sim.probe('scan after a run')
            scan_frequency(sim, s, op)
        elif o == 'deriv':
            check_deriv(sim, s, op)
        elif o == 'shift':
            index_shift(sim, s, op)
        elif o == 'run':
            attempt(sim, s.opt.run, method=op['method'], Nsteps=1, step_size=1e-2)
        elif o == 'solve':
            attempt(sim, s.real.solve_fields)
            if s.d['nl']:
                attempt(sim, s.real.solve_fields_nl)
        elif o == 'src':
            s.real.src *= op['f']
        last = o
