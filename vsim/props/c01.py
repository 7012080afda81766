"""C01: linear solves answer the problem now in force."""
import numpy as np

from vsim import world
from vsim.kernel import Violation
from vsim.lab import attempt, retry, new_item, set_source, check_fields, stored
from vsim.seams import REAL

QUICK = 480
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.3
FAULTS = {'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent'],
          'spsolve': ['mem', 'err', 'int', 'silent'], 'assemble': ['mem', 'int'], 'deepcopy': ['mem', 'int']}
PROBES = ['solve after eps', 'solve after src', 'solve after omega', 'solve on a copy', 'solve after nl',
          'solve after a fault', '1D', 'Hz', 'periodic', 'flux', 'averaging', 'lossy', 'nonlinear flux', 'same values elsewhere',
          'many small changes', 'one pixel', 'other array layouts', 'same source elsewhere', 'other phase',
          'very weak or strong source']
TOL = 3e-6


def gen(rng, k):
    ops = []
    ops.append({'op': 'new', 'prob': world.gen_problem(rng, oned=0.15, lossy=0.15), 'nl': None})
    if rng.random() < 0.5:
        p = world.gen_problem(rng, oned=0.0)
        ops.append({'op': 'new', 'prob': p, 'nl': world.gen_nl(rng, p, 1e-3) if p['pol'] == 'Ez' else None})
    for _ in range(rng.randrange(5, 14)):
        o = rng.choice(['eps', 'eps', 'src', 'src', 'omega', 'solve', 'solve', 'solve', 'copy', 'flux',
                        'nl', 'init', 'shift', 'bad'])
        op = {'op': o, 'sim': rng.randrange(4), 'seed': rng.randrange(10**6)}
        if o == 'eps':
            op['kind'] = rng.choice(['fresh', 'local', 'same', 'flat', 'mirror', 'roll', 'pixel', 'creep', 'layout'])
            op['loss'] = rng.random() < 0.1
        elif o == 'src':
            op['how'] = rng.choice(['inplace', 'replace', 'scale', 'zero', 'phase', 'roll', 'mirror', 'tiny', 'huge'])
            op['kind'] = rng.choice(['point', 'line', 'two', 'rand'])
        elif o == 'omega':
            op['f'] = rng.choice([0.95, 1.01, 1.2, 1.0003])
        elif o == 'solve':
            op['averaging'] = rng.random() < 0.25
        elif o == 'nl':
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
        elif o == 'init':
            op['style'] = rng.choice(['full', 'halfway', 'empty', 'random', 'random_sym', ''])
        ops.append(op)
    return {'ops': ops}


def other_eps(item, op):
    r = np.random.RandomState(op['seed'])
    shape = tuple(item.spec['shape'])
    if op['kind'] == 'same':
        return item.eps.copy()
    if op['kind'] == 'mirror':
        return item.eps[::-1, ::-1].copy()
    if op['kind'] == 'roll':
        return np.roll(item.eps, 1 + r.randint(4), axis=r.randint(2))
    if op['kind'] == 'pixel':
        out = item.eps.copy()
        out[r.randint(shape[0]), r.randint(shape[1])] += 0.3
        return out
    if op['kind'] == 'creep':
        # a small change, everywhere
        return item.eps + 10.0**-(1 + op['seed'] % 4)*r.rand(*shape)
    if op['kind'] == 'layout':
        return np.round(1 + 5*r.rand(*shape))
    if op['kind'] == 'local':
        out = item.eps.copy()
        i, j = r.randint(shape[0]), r.randint(shape[1])
        out[i:i + 3, j:j + 3] = 1 + 5*r.rand()
        return out
    out = 1 + 5*r.rand(*shape)
    if op['loss']:
        out = out - 0.1j*r.rand(*shape)
    return out


def laid_out(eps, seed):
    """The same numbers in another array"""
    k = seed % 5
    if k == 0:
        return np.asfortranarray(eps)
    if k == 1:
        big = np.zeros((2*eps.shape[0], 3*eps.shape[1]))
        big[::2, 1::3] = eps
        return big[::2, 1::3]
    if k == 2:
        out = eps.copy()
        out.setflags(write=False)
        return out
    return eps.astype([int, np.float32][k - 3])


def move_source(item, how):
    """Changes that keep the sum, or the moduli, of the source"""
    src = np.array(item.real.src)
    if how == 'phase':
        src = src*np.exp(0.7j)
    elif how == 'roll':
        src = np.roll(src, 1, axis=0 if src.shape[0] > 1 else 1)
    elif how == 'mirror':
        src = src[::-1, ::-1].copy()
    item.real.src[...] = src
    item.src = np.array(item.real.src, dtype=complex)


def gauge(op, item):
    """A probe line inside the simulation"""
    r = np.random.RandomState(op['seed'])
    nx, ny = item.spec['shape']
    d = 'x' if r.rand() < 0.5 else 'y'
    w = int(r.choice([3, 4, 6]))
    i, j = r.randint(w//2 + 1, nx - w//2 - 2), r.randint(w//2 + 1, ny - w//2 - 2)
    if r.rand() < 0.25:
        if d == 'x':
            i -= nx
        else:
            j -= ny
    return d, [int(i), int(j)], int(w)


def verify(sim, item, got, averaging, note):
    with sim.oracle():
        want = item.ref().fields(item.src, averaging)
        names = item.ref().names()
        if not isinstance(got, tuple) or len(got) != 3:
            raise Violation('fields', 'solving returned %r' % type(got))
        check_fields(item, dict(zip(names, got)), want, TOL, 'fields', 'returned fields' + note)
        check_fields(item, {n: item.real.fields[n] for n in names}, want, TOL, 'stored', 'stored fields' + note)
        if world.rel(np.array(item.real.src, dtype=complex), item.src) > 0:
            raise Violation('input', 'the source was changed by solving')
        if world.rel(np.array(item.real.eps_r), item.eps) > 0:
            raise Violation('input', 'the permittivity was changed by solving')
    item.solved = (averaging, item.src.copy())


def solve(sim, item, averaging, note=''):
    st, got = attempt(sim, item.real.solve_fields, averaging=averaging)
    if st == 'ok':
        verify(sim, item, got, averaging, note)
        return True
    return False


def check_flux(item, fields, d, c, w, got):
    ref = item.ref()
    names = ref.names()
    want = ref.flux(fields, d, c, w)
    scale = item.spec['dl']*w*max(np.abs(fields[names[2]]).max()
                                 * max(np.abs(fields[names[0]]).max(), np.abs(fields[names[1]]).max()), 1e-300)
    if not abs(got - want) <= 1e-6*scale:
        raise Violation('flux', 'power through %s %s %s is %.8e, expected %.8e' % (d, c, w, got, want))


def execute(sim, prog):
    items = []
    last = {}
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        if op['op'] == 'new':
            items.append(new_item(sim, op['prob'], op['nl'], eps1d=True))
            last[id(items[-1])] = 'new'
            sim.probe(op['prob']['pol'])
            if 1 in op['prob']['shape']:
                sim.probe('1D')
            if 0 in op['prob']['npml']:
                sim.probe('periodic')
            if op['prob']['eps'].get('loss'):
                sim.probe('lossy')
            continue
        if not items:
            continue
        item = items[op['sim'] % len(items)]
        real = item.real
        o = op['op']
        if o == 'eps':
            eps = other_eps(item, op)
            given = eps.copy()
            if op['kind'] == 'flat' and eps.shape[1] == 1:
                given = given.ravel()
            if op['kind'] in ('mirror', 'roll'):
                sim.probe('same values elsewhere')
            elif op['kind'] == 'pixel':
                sim.probe('one pixel')
            elif op['kind'] == 'layout':
                given = laid_out(eps, op['seed'])
                sim.probe('other array layouts')
            elif op['kind'] == 'creep':
                r = np.random.RandomState(op['seed'])
                eps = item.eps.copy()
                for _ in range(40):
                    eps = eps*(1 + 8e-6*r.rand(*eps.shape))
                    given = eps.copy()
                    assign(sim, item, eps, given)
                sim.probe('many small changes')
            assign(sim, item, eps, given)
            last[id(item)] = 'eps'
        elif o == 'omega':
            real.omega = item.omega*op['f']
            item.omega = real.omega
            # "the hacky way": a new frequency takes effect when the permittivity is assigned
            eps = item.eps.copy()
            assign(sim, item, eps, eps.copy())
            last[id(item)] = 'omega'
        elif o == 'src':
            if op['how'] in ('phase', 'roll', 'mirror'):
                move_source(item, op['how'])
                sim.probe('other phase' if op['how'] == 'phase' else 'same source elsewhere')
            elif op['how'] in ('tiny', 'huge'):
                with np.errstate(all='ignore'):
                    item.real.src *= {'tiny': 1e-7, 'huge': 1e5}[op['how']]
                    if not 1e-20 < np.max(np.abs(item.real.src)) < 1e20:
                        set_source(item, dict(item.spec['src'], kind='two'), 'inplace')
                        item.real.src[0, 0] += 1
                item.src = np.array(item.real.src, dtype=complex)
                sim.probe('very weak or strong source')
            elif op['how'] != 'scale' or np.max(np.abs(item.src)) < 1e3:
                set_source(item, dict(item.spec['src'], kind=op['kind'], seed=op['seed']), op['how'])
            last[id(item)] = 'src'
        elif o == 'solve':
            ok = solve(sim, item, op['averaging'])
            if op['averaging']:
                sim.probe('averaging')
            if ok:
                sim.probe('solve after ' + last[id(item)])
            else:
                last[id(item)] = 'a fault'
        elif o == 'copy':
            if len(items) < 5:
                st, c = attempt(sim, REAL_copy(), real)
                if st == 'ok':
                    items.append(item.clone(c))
                    last[id(items[-1])] = 'copying'
                    ok = solve(sim, items[-1], False, ' of a copy')
                    sim.probe('solve on a copy', int(ok))
        elif o == 'flux':
            if 1 in item.spec['shape']:
                continue
            if not solve(sim, item, False):
                continue
            d, c, w = gauge(op, item)
            st, got = attempt(sim, real.flux_probe, d, c, w)
            with sim.oracle():
                ref = item.ref()
                fields = ref.fields(item.src)
                check_flux(item, fields, d, c, w, got)
            sim.probe('flux')
        elif o == 'nl' and item.nls:
            st, got = attempt(sim, real.solve_fields_nl, solver_nl=op['solver'])
            if st == 'ok' and np.all(np.isfinite(got[2])):
                d, c, w = gauge(op, item)
                st, got = attempt(sim, real.flux_probe, d, c, w, nl=True)
                with sim.oracle():
                    fields = {n: real.fields_nl[n] for n in item.ref().names()}
                    check_flux(item, fields, d, c, w, got)
                sim.probe('nonlinear flux')
            last[id(item)] = 'nl'
        elif o == 'shift' and item.nls:
            attempt(sim, real.compute_index_shift)
            last[id(item)] = 'nl'
        elif o == 'init':
            m = np.zeros(item.spec['shape'])
            nx, ny = item.spec['shape']
            m[nx//3:nx//3 + 4, ny//3:ny//3 + 4] = 1
            attempt(sim, real.init_design_region, m, 5.0, style=op['style'])
            item.eps = np.array(real.eps_r)
            last[id(item)] = 'eps'
        elif o == 'bad':
            # a permittivity that cannot be used: the assignment has to fail, and to change nothing
            try:
                real.eps_r = 'not an array'
            except Exception:
                pass
            last[id(item)] = 'a failed assignment'
    # once faults stop, every simulation can be solved, and is solved correctly
    for item in items:
        sim.begin(len(prog['ops']), 'final')
        sim.faults = []
        solve(sim, item, False, ' at the end')


def REAL_copy():
    import copy
    return copy.deepcopy


def assign(sim, item, eps, given):
    def set_eps():
        item.real.eps_r = given
    failures, _ = retry(sim, set_eps)
    sim.probe('assignment failed', failures)
    item.eps = eps
