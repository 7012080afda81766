"""C04: nonlinear solves report convergence truthfully."""
import numpy as np

from vsim import world
from vsim.kernel import Violation, BudgetExceeded, INJECTED
from vsim.lab import attempt, retry, new_item, set_source, check_fields
from vsim.props.c01 import other_eps
from vsim.props.c03 import same
from vsim.ref import kerr, kerr_solve

QUICK = 350
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.15
FAULTS = {'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent'],
          'spsolve': ['mem', 'err', 'int', 'silent'], 'assemble': ['mem', 'int']}
PROBES = ['converged', 'not converged', 'weak', 'strong', 'born', 'newton', 'hybrid', 'given start', 'zero start',
          'few iterations', 'loose threshold', 'after a fault', 'scaled', 'two nonlinearities', 'stored linear fields kept',
          'after an evaluation elsewhere', 'no source', 'start at the solution', 'newton steps compared']


def gen(rng, k):
    p = world.gen_problem(rng, pol='Ez', oned=0.1)
    strength = rng.choice([1e-6, 1e-4, 1e-3, 1e-2, 1e-2, 0.1, 1.0])
    ops = [{'op': 'new', 'prob': p, 'nl': world.gen_nl(rng, p, strength)}]
    if rng.random() < 0.3:
        # thick layers of weak absorption: near-resonant problems are for the other operations
        ops[0]['nl'] = ops[0]['nl'] + world.gen_nl(rng, p, strength/3)
    for _ in range(rng.randrange(3, 9)):
        o = rng.choice(['nl', 'nl', 'nl', 'nl', 'eps', 'src', 'omega', 'evaluate', 'solve', 'shift', 'add', 'near'])
        op = {'op': o, 'seed': rng.randrange(10**6)}
        if o == 'near':
            op['off'] = rng.choice([0, 0.01, 0.03, 0.1])
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
        if o == 'nl':
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
            op['thr'] = rng.choice([None, None, 1e-12, 1e-8, 1e-6, 1e-4, 1e-2])
            op['its'] = rng.choice([None, None, None, 3, 10, 30])
            op['start'] = rng.choice([None, None, None, 'near', 'zero', 'random', 'ones'])
        elif o == 'eps':
            op['kind'] = rng.choice(['fresh', 'local', 'same'])
            op['loss'] = False
        elif o == 'src':
            op['how'] = rng.choice(['inplace', 'replace', 'half', 'zero'])
            op['kind'] = rng.choice(['point', 'line', 'rand'])
        elif o == 'omega':
            op['f'] = rng.choice([0.95, 1.01, 1.2])
        elif o == 'add':
            op['nl'] = world.gen_nl(rng, p, strength/3)
        ops.append(op)
    return {'ops': ops}


def index_shift(item, f):
    """How large the nonlinear change of the permittivity is, for the linear fields"""
    return np.max(np.abs(kerr(item.nls, f, np.real(item.eps)))) if item.nls else 0.0


def start_field(item, op):
    shape = tuple(item.spec['shape'])
    if op['start'] is None:
        return None
    lin = item.ref().solve_z(np.array(item.real.src))
    r = np.random.RandomState(op['seed'])
    if op['start'] == 'near':
        return lin*(0.9 + 0.05j)
    if op['start'] == 'zero':
        return np.zeros(shape, dtype=complex)
    if op['start'] == 'ones':
        return np.ones(shape)*np.sqrt(np.mean(np.abs(lin)**2))
    return np.sqrt(np.mean(np.abs(lin)**2))*(r.randn(*shape) + 1j*r.randn(*shape))/2


def solve_nl(sim, item, op, final=False):
    real = item.real
    thr = op['thr'] if op['thr'] is not None else 1e-10
    its = op['its'] if op['its'] is not None else 50
    with sim.oracle():
        ref = item.ref()
        src = np.array(real.src, dtype=complex)
        lin = ref.solve_z(src)
        start = start_field(item, op)
        dn = index_shift(item, lin)
        if start is not None:
            dn = max(dn, index_shift(item, start))
        weak = dn < 2e-3
    given = None if start is None else start.copy()
    kw = {}
    if given is not None:
        kw['Estart'] = given
    if op['thr'] is not None:
        kw['conv_threshold'] = op['thr']
    if op['its'] is not None:
        kw['max_num_iter'] = op['its']
    before = {'eps_r': np.array(real.eps_r), 'src': np.array(real.src),
              'fields': {c: None if f is None else np.array(f) for c, f in real.fields.items()}}
    if weak:
        st, got = attempt(sim, real.solve_fields_nl, solver_nl=op['solver'], **kw)
    else:
        # a strongly nonlinear problem may also have no solution to find
        fired = sum(sim.fired.values())
        try:
            st, got = 'ok', real.solve_fields_nl(solver_nl=op['solver'], **kw)
        except (BudgetExceeded, Violation):
            raise
        except (ArithmeticError, RuntimeError, ValueError, np.linalg.LinAlgError) + INJECTED as e:
            st, got = ('fault' if sum(sim.fired.values()) > fired else 'refused'), e
    now = {'eps_r': np.array(real.eps_r), 'src': np.array(real.src)}
    for k in now:
        if not same(before[k], now[k]):
            raise Violation('input', 'a nonlinear solve changed %s' % k)
    if given is not None and not np.array_equal(given, start):
        raise Violation('input', 'a nonlinear solve modified the start field it was given')
    if before['fields']['Ez'] is not None:
        if not same(before['fields'], dict(real.fields)):
            raise Violation('linear', 'a nonlinear solve changed the stored linear fields')
        sim.probe('stored linear fields kept')
    if st != 'ok':
        return st
    with sim.oracle():
        (hx, hy, ez, conv) = got
        if real.fields['Ez'] is not None:
            want = ref.fields(src)
            check_fields(item, {c: real.fields[c] for c in want}, want, 3e-6, 'linear',
                         'linear fields after a nonlinear solve')
        conv = np.asarray(conv).ravel()
        if conv.size < 1:
            raise Violation('report', 'no convergence is reported')
        for c, f in zip(('Hx', 'Hy', 'Ez'), (hx, hy, ez)):
            if not same(np.array(real.fields_nl[c]), np.array(f)):
                raise Violation('stored', 'the stored nonlinear %s is not the one returned' % c)
        sim.probe(op['solver'])
        sim.probe('weak' if weak else 'strong')
        if op['start'] is not None:
            sim.probe('zero start' if op['start'] == 'zero' else 'given start')
        if op['its'] is not None and op['its'] <= 3:
            sim.probe('few iterations')
        if thr > 1e-8:
            sim.probe('loose threshold')
        if any(n[2] is not None for n in item.nls):
            sim.probe('scaled')
        if len(item.nls) > 1:
            sim.probe('two nonlinearities')
        if item.note:
            sim.probe(item.note)
        if not np.any(src):
            sim.probe('no source')
            if np.any(np.abs(ez) > 1e-12*max(np.max(np.abs(start)) if start is not None else 0, 1e-300)):
                raise Violation('residual', 'nonlinear fields without a source')
            return 'ok'
        converged = bool(conv[-1] <= thr)
        b = 1j*ref.omega*src.reshape(ref.shape)
        eps_nl = kerr(item.nls, ez, ref.eps)
        finite = bool(np.all(np.isfinite(ez)))
        if converged:
            sim.probe('converged')
            if not finite:
                raise Violation('residual', '%s reports convergence to fields that are not finite' % op['solver'])
            res = np.linalg.norm(ref.apply(ez, eps_nl) - b)
            w = ref.omega**2*ref.e0
            # the last step was below the threshold: so is the error of the nonlinear term it leaves
            allowed = (2e-6*np.linalg.norm(b) + 10*thr*w*max(np.max(np.abs(eps_nl)), 1e-3)*np.linalg.norm(ez)
                       + 1e-8*w*np.linalg.norm(ez))
            if not res <= allowed:
                raise Violation('residual', '%s reports convergence to %.1e, but its field leaves a residual of %.1e '
                                '(relative to the source)' % (op['solver'], thr, res/np.linalg.norm(b)))
        else:
            sim.probe('not converged')
        if finite:
            # they go together whether or not the solver is content with them
            check_fields(item, {'Hx': hx, 'Hy': hy, 'Ez': ez}, ref.components(ez), 3e-6, 'components',
                         'nonlinear fields')
        if weak:
            limited = op['its'] is not None and op['its'] < 25
            if not converged and not limited:
                raise Violation('converge', '%s does not converge on a problem with an index shift of %.0e '
                                '(last change %.1e)' % (op['solver'], dn, conv[-1]))
            if converged:
                want, ok = kerr_solve(ref, item.nls, src, lin)
                # how far a residual of the allowed size can move the field of this problem
                d = world.rel(ez, want)
                if ok and d > 1e-5 + 100*thr:
                    raise Violation('solution', '%s converged to fields that differ by %.1e from the nonlinear '
                                    'solution' % (op['solver'], d))
    return 'ok'


def near(sim, item, op):
    """Starts at, or close to, a solution: a solution stays, and Newton's method closes in on it as Newton's does"""
    real = item.real
    with sim.oracle():
        ref = item.ref()
        src = np.array(real.src, dtype=complex)
        if not np.any(src) or not item.nls:
            return 'ok'
        sol, ok = kerr_solve(ref, item.nls, src, ref.solve_z(src))
        if not ok or not np.any(sol):
            return 'ok'
        r = np.random.RandomState(op['seed'])
        start = sol*(1 + op['off']*(0.7 + 0.7j)) if r.rand() < 0.5 else \
            sol + op['off']*np.sqrt(np.mean(np.abs(sol)**2))*(r.randn(*sol.shape) + 1j*r.randn(*sol.shape))/np.sqrt(2)
        # only where small errors stay small: a start that is off by rounding is no better or worse
        wild = kerr_solve(ref, item.nls, src, sol*(1 + 1e-7), tol=0, iters=1)[0]
        if world.rel(wild, sol) > 1e-9:
            return 'ok'
        linear_step = ref.resolve(sol, kerr(item.nls, sol, ref.eps), src)
        if world.rel(linear_step, sol) > 1e-7:
            return 'ok'
    if op['off'] == 0:
        st, got = attempt(sim, real.solve_fields_nl, solver_nl=op['solver'], Estart=sol.copy())
        if st != 'ok':
            return st
        conv = np.asarray(got[3]).ravel()
        if not conv[0] < 1e-5:
            raise Violation('start', '%s was started at the solution, and its first step is %.1e' %
                            (op['solver'], conv[0]))
        sim.probe('start at the solution')
        return 'ok'
    for k in (1, 2, 3):
        st, got = attempt(sim, real.solve_fields_nl, solver_nl='newton', Estart=start.copy(), max_num_iter=k,
                          conv_threshold=1e-15)
        if st != 'ok':
            return st
        with sim.oracle():
            e = kerr_solve(ref, item.nls, src, start, tol=0, iters=k)[0]
            e = ref.resolve(e, kerr(item.nls, e, ref.eps), src)
            if world.rel(e, sol) > 0.3:
                return 'ok'
            allowed = 10*world.rel(e, sol) + 1e-6
            if not world.rel(got[2], sol) <= allowed:
                raise Violation('newton', 'after %d steps from a start %.0e off, newton is %.1e from the solution; '
                                "Newton's method is %.1e from it" % (k, op['off'], world.rel(got[2], sol),
                                                                     world.rel(e, sol)))
            if allowed > 1e-5:
                sim.probe('newton steps compared')
    return 'ok'


def execute(sim, prog):
    item = None
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        o = op['op']
        if o == 'new':
            item = new_item(sim, op['prob'], op['nl'])
            item.note = None
            continue
        if item is None:
            continue
        real = item.real
        if o == 'nl':
            st = solve_nl(sim, item, op)
            item.note = 'after a fault' if st == 'fault' else None
            continue
        if o == 'near':
            st = near(sim, item, op)
            item.note = 'after a fault' if st == 'fault' else None
            continue
        if o == 'eps':
            eps = other_eps(item, op)

            def assign():
                real.eps_r = eps
            retry(sim, assign)
            item.eps = np.array(eps)
        elif o == 'omega':
            real.omega = item.omega*op['f']
            item.omega = real.omega
            eps = item.eps.copy()

            def assign():
                real.eps_r = eps
            retry(sim, assign)
        elif o == 'src':
            if op['how'] == 'half':
                real.src = real.src*0.5
            else:
                set_source(item, dict(item.spec['src'], kind=op['kind'], seed=op['seed']), op['how'])
            item.src = np.array(real.src, dtype=complex)
            # the stored linear fields are for another source: a start that the user asks to replace
            retry(sim, real.solve_fields)
        elif o == 'evaluate':
            r = np.random.RandomState(op['seed'])
            shape = tuple(item.spec['shape'])
            attempt(sim, real.compute_nl, r.randn(*shape) + 1j*r.randn(*shape))
            item.note = 'after an evaluation elsewhere'
        elif o == 'solve':
            retry(sim, real.solve_fields)
        elif o == 'shift':
            fired = sum(sim.fired.values())
            try:
                real.compute_index_shift()
            except (BudgetExceeded, Violation):
                raise
            except (ArithmeticError, RuntimeError, ValueError, np.linalg.LinAlgError) + INJECTED:
                pass
        elif o == 'add':
            with sim.oracle():
                f = item.ref().solve_z(item.src)
                new = []
                for nl in op['nl']:
                    m = world.region(item.spec, nl['rect'])
                    peak = np.max(np.abs(f*m)**2)
                    new.append((nl['shift']/(3*peak) if peak > 0 else 0.0, m,
                                item.spec['eps']['eps_m'] if nl['scale'] else None))
            world.add_nl(real, item.spec, new)
            item.nls = item.nls + new
