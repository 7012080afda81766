"""C03: a failed operation leaves the simulation as it was."""
import numpy as np

from vsim import world
from vsim.kernel import Violation
from vsim.lab import attempt, new_item, set_source
from vsim.props.c01 import other_eps
from vsim.seams import REAL

QUICK = 320
THOROUGH = 200000
VARIANTS = 3
SCIPY = 0.2
FAULTS = {'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent', 'partial'],
          'spsolve': ['mem', 'err', 'int', 'silent', 'partial'], 'assemble': ['mem', 'int'], 'deepcopy': ['mem', 'int'],
          'eigs': ['mem', 'noconv', 'int']}
PROBES = ['failed assign', 'failed init', 'failed solve', 'failed nl', 'failed setup', 'failed shift',
          'failed copy', 'rejected', 'repeated', 'results kept', 'density kept']
TOL = 1e-7


def gen(rng, k):
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        p = world.gen_problem(rng, oned=0.05)
        nl = world.gen_nl(rng, p, rng.choice([1e-3, 1e-2])) if p['pol'] == 'Ez' and rng.random() < 0.7 else None
        mode = None
        if 1 not in p['shape'] and rng.random() < 0.6:
            mode = gen_mode(rng, p)
        ops.append({'op': 'new', 'prob': p, 'nl': nl, 'mode': mode})
    for _ in range(rng.randrange(5, 13)):
        o = rng.choice(['assign', 'assign', 'assign', 'init', 'init', 'solve', 'solve', 'nl', 'nl', 'setup', 'setup',
                        'shift', 'copy', 'bad', 'src'])
        op = {'op': o, 'sim': rng.randrange(3), 'seed': rng.randrange(10**6)}
        if o == 'assign':
            op['kind'] = rng.choice(['fresh', 'local', 'same'])
            op['loss'] = False
        elif o == 'init':
            op['style'] = rng.choice(['full', 'halfway', 'empty', 'random', 'random_sym', ''])
            op['eps_m'] = rng.choice([3.0, 6.0])
        elif o == 'src':
            op['how'] = rng.choice(['inplace', 'replace', 'scale'])
            op['kind'] = rng.choice(['point', 'line', 'rand'])
        elif o == 'solve':
            op['averaging'] = rng.random() < 0.2
        elif o == 'nl':
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
            op['start'] = rng.random() < 0.3
        elif o == 'bad':
            op['what'] = rng.choice(['str', '3d', 'none', 'region', 'solver', 'direction', 'newton'])
        ops.append(op)
    return {'ops': ops}


def gen_mode(rng, p):
    """A guided mode of the horizontal waveguide that the structure is made to contain"""
    p['eps'] = dict(p['eps'], kind='wg', eps_m=rng.choice([4.0, 6.0, 12.0]))
    p['eps'].pop('loss', None)
    nx, ny = p['shape']
    width = ny - 2*max(p['npml'][1], 1) - 2
    return {'neff': rng.choice([1.5, 2.5]), 'center': [p['npml'][0] + 2, ny//2], 'width': width,
            'scale': rng.choice([1, 0.5, 40.0])}


def freeze(real):
    """What a user can see of a simulation"""
    out = {'eps_r': np.array(real.eps_r), 'src': np.array(real.src), 'Nx': real.Nx, 'Ny': real.Ny,
           'omega': real.omega, 'W_in': getattr(real, 'W_in', None), 'modes': len(real.modes),
           'nonlinearities': len(real.nonlinearity), 'NPML': list(real.NPML), 'dl': real.dl}
    rho = getattr(real, 'rho', None)
    out['rho'] = None if rho is None else np.array(rho)
    out['fields'] = {c: None if f is None else np.array(f) for c, f in real.fields.items()}
    out['fields_nl'] = {c: None if f is None else np.array(f) for c, f in real.fields_nl.items()}
    return out


def same(a, b, tol=0.0):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return all(same(a[k], b[k], tol) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol == 0.0:
        return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        return bool(np.all(np.isfinite(a)) == np.all(np.isfinite(b)))
    return world.rel(a, b) <= tol


def unchanged(before, now, label, lenient=()):
    for k in before:
        if k not in lenient and not same(before[k], now[k]):
            raise Violation('changed', '%s failed, but it changed %s' % (label, k))


class User:
    """The arrays that the user owns"""

    def __init__(self):
        self.arrays = []

    def own(self, a):
        self.arrays.append((a, a.copy()))
        return a

    def check(self, label):
        for a, c in self.arrays:
            if not np.array_equal(a, c):
                raise Violation('input', "%s modified an array of the user's" % label)


def operation(op, item, user):
    """A function that performs the operation on a simulation"""
    o = op['op']
    if o == 'assign':
        eps = other_eps(item, op)
        given = user.own(eps)

        def do(real):
            real.eps_r = given
    elif o == 'init':
        r = np.random.RandomState(op['seed'])
        m = np.zeros(item.spec['shape'])
        i, j = [r.randint(max(n - 4, 1)) for n in m.shape]
        m[i:i + 4, j:j + 4] = 1
        user.own(m)

        def do(real):
            np.random.seed(op['seed'])
            real.init_design_region(m, op['eps_m'], style=op['style'])
    elif o == 'solve':
        def do(real):
            return real.solve_fields(averaging=op['averaging'])
    elif o == 'nl':
        kw = {}
        if op['start'] and item.nls:
            f = item.real.fields['Ez']
            kw['Estart'] = user.own(np.array(f)*0.9 if f is not None
                                    else np.ones(item.spec['shape'], dtype=complex))

        def do(real):
            return real.solve_fields_nl(solver_nl=op['solver'], **kw)
    elif o == 'setup':
        def do(real):
            real.setup_modes()
    elif o == 'shift':
        def do(real):
            return real.compute_index_shift()
    else:
        def do(real):
            import copy
            return copy.deepcopy(real)
    return do


def bad(what, item):
    """Something that has to be refused"""
    real = item.real
    shape = tuple(item.spec['shape'])

    def assign(v):
        real.eps_r = v
    if what == 'str':
        return lambda: assign('not an array')
    if what == '3d':
        return lambda: assign(np.ones(shape + (2,)))
    if what == 'none':
        return lambda: assign(None)
    if what == 'region':
        return lambda: real.init_design_region(np.ones((shape[0] + 1, shape[1] + 2)), 4.0, style='full')
    if what == 'solver':
        return lambda: real.solve_fields_nl(solver_nl='nothing')
    if what == 'newton' and real.pol == 'Hz':
        return lambda: real.solve_fields_nl(solver_nl='newton')
    if what == 'direction':
        def mode():
            real.add_mode(1.5, 'z', [3, 3], 4)
            try:
                real.setup_modes()
            finally:
                real.modes.pop()
        return mode if not real.modes else None
    return None


def execute(sim, prog):
    items = []
    user = User()
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        o = op['op']
        if o == 'new':
            item = new_item(sim, op['prob'], op['nl'])
            if op['mode']:
                m = op['mode']
                item.real.add_mode(m['neff'], 'x', list(m['center']), m['width'], scale=m['scale'])
            items.append(item)
            continue
        if not items:
            continue
        item = items[op['sim'] % len(items)]
        real = item.real
        if o == 'src':
            if op['how'] != 'scale' or np.max(np.abs(item.src)) < 100:
                set_source(item, dict(item.spec['src'], kind=op['kind'], seed=op['seed']), op['how'])
                if op['how'] == 'replace':
                    user.own(real.src)
                    real.src = real.src.copy()
            continue
        if o == 'bad':
            fn = bad(op['what'], item)
            if fn is None:
                continue
            before = freeze(real)
            sim.suspended += 1          # the refusal itself, not a fault, is what happens here
            try:
                fn()
            except Exception:
                sim.probe('rejected')
            else:
                raise Violation('accepted', 'an invalid request (%s) was accepted' % op['what'])
            finally:
                sim.suspended -= 1
            unchanged(before, freeze(real), 'a request (%s)' % op['what'])
            continue
        if o in ('nl', 'shift') and not item.nls or o == 'setup' and not real.modes:
            continue
        do = operation(op, item, user)
        failures = 0
        twin = None
        while True:
            before = freeze(real)
            if twin is None:
                with sim.oracle():
                    twin = REAL.deepcopy(real)
            st, got = attempt(sim, do, real)
            if st == 'ok':
                break
            failures += 1
            sim.probe('failed ' + o)
            now = freeze(real)
            lenient = ()
            if o in ('nl', 'shift'):
                # these solve the linear problem on their way, and store that result once it is complete
                lenient = ('fields',)
                check_linear(sim, before, now, twin, o)
            unchanged(before, now, 'the operation (%s)' % o, lenient)
            if 'fields' not in lenient and any(f is not None for f in before['fields'].values()):
                sim.probe('results kept')
            if before['rho'] is not None:
                sim.probe('density kept')
            user.check('a failed operation (%s)' % o)
        user.check('the operation (%s)' % o)
        with sim.oracle():
            want = do(twin)
            user.check('the operation (%s)' % o)
            if failures:
                sim.probe('repeated', failures)
            a, b = freeze(real), freeze(twin)
            for k in a:
                if not same(a[k], b[k], TOL):
                    raise Violation('repeat', '%s, repeated after %d failures, gives another %s than without them'
                                    % (o, failures, k))
            if o in ('solve', 'shift') or o == 'nl':
                g, w = (got, want) if o == 'shift' else (got[2], want[2])
                # an index shift is a small difference: compare it to the index
                if o == 'shift':
                    g, w = g + 1, w + 1
                if not same(g, w, TOL):
                    raise Violation('repeat', '%s, repeated after %d failures, returns something else than without '
                                    'them' % (o, failures))
        item.eps = np.array(real.eps_r)
        if o == 'copy':
            if len(items) < 4:
                items.append(item.clone(got))
        item.src = np.array(real.src, dtype=complex)


def check_linear(sim, before, now, twin, label):
    """Linear results after a failed nonlinear solve: those from before, or complete and correct ones"""
    if same(before['fields'], now['fields']):
        return
    with sim.oracle():
        t = REAL.deepcopy(twin)
        t.solve_fields()
        want = freeze(t)['fields']
    if not same(now['fields'], want, TOL):
        raise Violation('changed', '%s failed, but it changed the stored linear fields' % label)
