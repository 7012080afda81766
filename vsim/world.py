"""Problems as JSON values, and how to build them: with angler and with the reference model."""
import copy

import numpy as np

from vsim import kernel
from vsim.ref import Ref, kerr, kerr_solve, density_to_eps, ETA0

OMEGA = 2*np.pi*150e12


# ------------------------------------------------------------------------------------------
# generation
# ------------------------------------------------------------------------------------------

def gen_problem(rng, pol=None, oned=0.0, periodic=0.25, lossy=0.0, small=True):
    """A linear problem"""
    pol = pol or rng.choice(['Ez', 'Ez', 'Hz'])
    npml = [rng.choice([3, 4, 5]), rng.choice([3, 4, 5])]
    if rng.random() < periodic:
        npml[rng.randrange(2)] = 0
    nx = 2*npml[0] + rng.randrange(10, 17)
    ny = 2*npml[1] + rng.randrange(10, 17)
    spec = {'pol': pol, 'shape': [nx, ny], 'npml': npml,
            'dl': rng.choice([0.05, 0.08, 0.1]),
            'omega': OMEGA*rng.choice([0.8, 1.0, 1.0, 1.3]), 'L0': 1e-6}
    if rng.random() < 0.1:
        spec['L0'] = 1e-9
        spec['dl'] *= 1e3
    if rng.random() < oned:
        axis = rng.randrange(2)
        spec['shape'][axis] = 1
        spec['npml'] = [4, 4]
        spec['npml'][axis] = 0
    spec['eps'] = gen_eps(rng, spec, lossy=lossy)
    spec['src'] = gen_src(rng, spec)
    return spec


def gen_eps(rng, spec, lossy=0.0):
    e = {'kind': rng.choice(['wg', 'rand', 'blocks', 'uniform']),
         'eps_m': rng.choice([2.0, 4.0, 6.0, 12.0]), 'seed': rng.randrange(10**6)}
    if rng.random() < lossy:
        e['loss'] = rng.choice([0.01, 0.3])
    return e


def gen_src(rng, spec):
    nx, ny = spec['shape']
    a, b = spec['npml']
    s = {'kind': rng.choice(['point', 'line', 'two', 'rand']),
         'i': rng.randrange(a + 1, max(nx - a - 1, a + 2)) if nx > 1 else 0,
         'j': rng.randrange(b + 1, max(ny - b - 1, b + 2)) if ny > 1 else 0,
         'amp': rng.choice([1.0, 1.0, 0.5, 0.5, 30.0, 30.0, 1e-10]), 'phase': rng.choice([0.0, 0.0, 1.0]),
         'seed': rng.randrange(10**6)}
    return s


def rect_inside(rng, spec, margin=1, big=None):
    """A rectangle clear of the PML: [i0, i1, j0, j1]"""
    nx, ny = spec['shape']
    a, b = spec['npml']
    i0, i1, j0, j1 = a + margin, nx - a - margin, b + margin, ny - b - margin

    def span(lo, hi):
        if hi - lo <= 2:
            return lo, max(hi, lo + 1)
        p = rng.randrange(lo, hi - 1)
        q = rng.randrange(p + 1, hi + 1)
        return p, q
    p, q = span(i0, i1)
    r, s = span(j0, j1)
    return [p, q, r, s]


# ------------------------------------------------------------------------------------------
# building
# ------------------------------------------------------------------------------------------

def build_eps(spec, e=None):
    e = e or spec['eps']
    nx, ny = spec['shape']
    r = np.random.RandomState(e['seed'])
    m = e['eps_m']
    if e['kind'] == 'uniform':
        out = np.ones((nx, ny))*(1 + (m - 1)*r.rand())
    elif e['kind'] == 'rand':
        out = 1 + (m - 1)*r.rand(nx, ny)
    elif e['kind'] == 'wg':
        out = np.ones((nx, ny))
        w = max(1, ny//5)
        out[:, ny//2 - w//2:ny//2 - w//2 + w] = m
    elif e['kind'] in ('wgv', 'cross'):
        # a vertical waveguide, or one of each direction, and something else next to it
        out = np.ones((nx, ny))
        w = max(2, nx//5)
        out[nx//2 - w//2:nx//2 - w//2 + w, :] = m
        if e['kind'] == 'cross':
            w = max(2, ny//5)
            out[:, ny//2 - w//2:ny//2 - w//2 + w] = m
            i, j = r.randint(nx), r.randint(ny)
            out[i:i + 3, j:j + 3] = (1 + m)/2
    elif e['kind'] == 'high':
        # materials of a lower and of a higher permittivity than those that are designed with
        out = np.ones((nx, ny))
        for _ in range(4):
            i, j = r.randint(nx), r.randint(ny)
            out[i:i + 5, j:j + 5] = [m, 1.7*m, 0.6][r.randint(3)]
    else:
        out = np.ones((nx, ny))
        for _ in range(3):
            i, j = r.randint(nx), r.randint(ny)
            out[i:i + 5, j:j + 5] = m
    if e.get('loss'):
        out = out - 1j*e['loss']*(out > 1)
    return out


def build_src(spec, s=None):
    """The source as complex128; angler's own array is complex64 unless it is replaced"""
    s = s or spec['src']
    nx, ny = spec['shape']
    out = np.zeros((nx, ny), dtype=complex)
    amp = s['amp']*np.exp(1j*s['phase'])
    i, j = min(s['i'], nx - 1), min(s['j'], ny - 1)
    if s['kind'] == 'point':
        out[i, j] = amp
    elif s['kind'] == 'line':
        a, b = spec['npml']
        out[i, b:ny - b if b else ny] = amp
    elif s['kind'] == 'two':
        out[i, j] = amp
        out[nx - 1 - i, ny - 1 - j] = 1j*amp
    elif s['kind'] == 'zero':
        pass
    else:
        r = np.random.RandomState(s['seed'])
        out = amp*(r.rand(nx, ny) + 1j*r.rand(nx, ny))
    return out


def make_sim(spec, src=True):
    """The angler simulation of a problem (a user's script)"""
    from angler import Simulation
    sim = Simulation(spec['omega'], build_eps(spec), spec['dl'], list(spec['npml']), spec['pol'],
                     L0=spec['L0'])
    if src:
        put_src(sim, build_src(spec), spec['src'].get('how', 'inplace'))
    return sim


def put_src(sim, arr, how):
    if how == 'inplace':
        sim.src[...] = arr
    else:
        sim.src = arr


def make_ref(spec, eps=None, omega=None):
    return Ref(spec['pol'], build_eps(spec) if eps is None else eps,
               spec['omega'] if omega is None else omega, spec['dl'], spec['npml'], spec['L0'])


def ref_of(spec, sim):
    """The reference model of whatever problem an angler simulation now states"""
    return Ref(spec['pol'], np.array(sim.eps_r), sim.omega, spec['dl'], spec['npml'], spec['L0'])


def rel(a, b):
    """Relative difference of two arrays"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    d = np.linalg.norm((a - b).ravel())
    n = max(np.linalg.norm(b.ravel()), np.linalg.norm(a.ravel()))
    if not np.isfinite(d):
        return np.inf
    return 0.0 if n == 0 else d/n


def close_fields(got, want, tol):
    """Largest relative difference over components.  A component that is zero in theory comes out as
       rounding noise, so each is compared at the scale that the out-of-plane field gives it."""
    worst, where = 0.0, None
    for c in want:
        d = rel(got[c], want[c])
        if d > worst:
            if c not in ('Ez', 'Hz'):
                main = 'Ez' if 'Ez' in want else 'Hz'
                scale = max([np.linalg.norm(np.asarray(w).ravel()) for k, w in want.items() if k != main]
                            + [np.linalg.norm(want[main])*(ETA0 if main == 'Hz' else 1/ETA0)])
                dd = np.linalg.norm((np.asarray(got[c]) - want[c]).ravel())
                d = dd/scale if scale > 0 else d
            if d > worst:
                worst, where = d, c
    return worst, where


# ------------------------------------------------------------------------------------------
# nonlinearity, design problem, objective
# ------------------------------------------------------------------------------------------

def gen_nl(rng, spec, strength=None):
    """Kerr nonlinearities; 'shift' is the index change it should give in the linear field"""
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        out.append({'rect': rect_inside(rng, spec, margin=0),
                    'shift': strength if strength is not None else rng.choice([1e-4, 1e-2, 5e-2]),
                    'scale': rng.random() < 0.4})
    return out


def region(spec, rect):
    m = np.zeros(spec['shape'])
    m[rect[0]:rect[1], rect[2]:rect[3]] = 1
    return m


def nl_list(spec, nls, eps_m):
    """[(chi/L0^2, region, eps_max or None)], chi chosen against the linear field of the problem"""
    if not nls:
        return []
    ref = make_ref(spec)
    f = ref.solve_z(build_src(spec).astype(np.complex64))
    out = []
    for n in nls:
        m = region(spec, n['rect'])
        peak = np.max(np.abs(f*m)**2)
        chi = n['shift']/(3*peak) if peak > 0 else 0.0
        out.append((chi, m, eps_m if n['scale'] else None))
    return out


def add_nl(sim, spec, nls):
    for (chi, m, eps_max) in nls:
        sim.add_nl(chi*sim.L0**2, m, nl_type='kerr', eps_scale=eps_max is not None, eps_max=eps_max)


def gen_design(rng, spec, filt=0.3, nl=0.0):
    """An optimisation problem on top of a linear problem whose background is vacuum and eps_m"""
    d = {'eps_m': spec['eps']['eps_m'], 'R': None, 'eta': 0.5, 'beta': 1e-9}
    margin = 1
    if rng.random() < filt:
        d['R'] = rng.choice([2, 3])
        margin = d['R'] + rng.choice([1, 1, 2])
        # the filter is defined up to its radius from the absorbing layers
        for k in range(2):
            need = 2*spec['npml'][k] + 2*margin + 3
            if spec['npml'][k] and spec['shape'][k] < need:
                spec['shape'][k] = need
    if rng.random() < filt:
        d['beta'] = rng.choice([1.0, 5.0, 10.0])
        d['eta'] = rng.choice([0.5, 0.4])
    nx, ny = spec['shape']
    if d['R'] is None and rng.random() < 0.15:
        margin = rng.choice([0, -2])        # next to the absorbing layers, or into them
    a = [spec['npml'][k] + margin if spec['npml'][k] else 0 for k in range(2)]
    hi = [nx - a[0], ny - a[1]]
    w = [min(hi[0] - a[0], rng.randrange(3, 8)), min(hi[1] - a[1], rng.randrange(3, 8))]
    i0 = rng.randrange(a[0], hi[0] - w[0] + 1)
    j0 = rng.randrange(a[1], hi[1] - w[1] + 1)
    if not spec['npml'][0] and rng.random() < 0.5:
        i0 = rng.choice([0, nx - w[0]])
    if not spec['npml'][1] and rng.random() < 0.5:
        j0 = rng.choice([0, ny - w[1]])
    d['rect'] = [i0, i0 + w[0], j0, j0 + w[1]]
    d['init'] = rng.choice(['rand', 'rand', 'half', 'half', 'asis', 'full', 'empty'])
    d['seed'] = rng.randrange(10**6)
    if rng.random() < 0.25:
        d['holes'] = 1 + rng.randrange(10**6)
    d['ints'] = rng.random() < 0.2
    spec['eps']['kind'] = rng.choice(['wg', 'wg', 'blocks', 'blocks', 'rand', 'high'])
    # a source that does not sit in the middle of the design
    spec['src'] = gen_src(rng, spec)
    d['nl'] = gen_nl(rng, spec) if (spec['pol'] == 'Ez' and rng.random() < nl) else []
    same = rng.random() < 0.4
    for n in d['nl']:
        if rng.random() < 0.4:
            n['rect'] = list(d['rect'])     # the design itself is nonlinear
        if same:
            n['scale'] = d['nl'][0]['scale']
    d['obj'] = gen_objective(rng, spec, bool(d['nl']))
    return d


def sibling(rng, prob, d):
    """A design problem that differs from this one in a detail or two, so that whatever is kept from one to
       the other by mistake fits"""
    prob, d = copy.deepcopy(prob), copy.deepcopy(d)
    for what in rng.sample(['shift', 'shift', 'shift', 'shift', 'holes', 'src', 'phase', 'design', 'eps', 'omega', 'dl', 'L0', 'npml', 'beta', 'eta',
                            'R', 'eps_m', 'weights', 'objective', 'nl', 'nlrect', 'nlkind', 'pol'], rng.choice([1, 1, 2, 3])):
        if what == 'shift':
            # the same number of pixels elsewhere
            r = d['rect']
            lo = [prob['npml'][k] + ((d['R'] + 1) if d['R'] else 1) if prob['npml'][k] else 0 for k in range(2)]
            w = [r[1] - r[0], r[3] - r[2]]
            hi = [prob['shape'][k] - lo[k] - w[k] for k in range(2)]
            if all(h >= l for h, l in zip(hi, lo)):
                i, j = rng.randrange(lo[0], hi[0] + 1), rng.randrange(lo[1], hi[1] + 1)
                d['rect'] = [i, i + w[0], j, j + w[1]]
        elif what == 'holes':
            if d.get('holes'):
                d['holes'] = 1 + rng.randrange(10**6)
        elif what == 'src':
            prob['src'] = gen_src(rng, prob)
        elif what == 'phase':
            prob['src'] = dict(prob['src'], phase=prob['src']['phase'] + rng.choice([np.pi, 0.5, 1e-3]))
        elif what == 'design':
            d['seed'] = rng.randrange(10**6)
            d['init'] = rng.choice(['rand', d['init']])
        elif what == 'eps':
            prob['eps']['seed'] = rng.randrange(10**6)
        elif what == 'omega':
            prob['omega'] *= rng.choice([1.1, 1 + 1e-3, 0.8])
        elif what == 'dl':
            prob['dl'] *= rng.choice([1.2, 1.001, 0.8])
        elif what == 'L0':
            # the same lengths in other units, or other lengths
            f = rng.choice([1.0, 1.25])
            prob['L0'], prob['dl'] = prob['L0']*10, prob['dl']*f/10
        elif what == 'npml':
            k = rng.randrange(2)
            if prob['npml'][k] > 1:
                prob['npml'][k] -= 1
        elif what == 'beta':
            d['beta'] = rng.choice([1e-9, 2.0, 5.0])
        elif what == 'eta':
            d['eta'] = rng.choice([0.3, 0.45, 0.6])
        elif what == 'R':
            if d['R']:
                d['R'] = rng.choice([1, max(d['R'] - 1, 1), None])
            elif all(not n or d['rect'][2*k] >= n + 2 and d['rect'][2*k + 1] <= prob['shape'][k] - n - 2
                     for k, n in enumerate(prob['npml'])):
                d['R'] = 1
        elif what == 'eps_m':
            # what is around the design keeps its permittivity
            d['eps_m'] *= rng.choice([1.1, 0.9])
        elif what == 'weights':
            d['obj']['seed'] = rng.randrange(10**6)
        elif what == 'objective':
            d['obj'] = gen_objective(rng, prob, bool(d['nl']))
        elif what == 'nl':
            for m in d['nl']:
                m['shift'] *= rng.choice([0.5, 1.01, 2.0])
        elif what == 'nlrect':
            if d['nl']:
                d['nl'] = gen_nl(rng, prob, d['nl'][0]['shift'])
        elif what == 'nlkind':
            for m in d['nl']:
                m['scale'] = not m['scale']
        elif what == 'pol' and not d['nl']:
            prob['pol'] = 'Hz' if prob['pol'] == 'Ez' else 'Ez'
            d['obj'] = gen_objective(rng, prob, False)
    return prob, d


OBJECTIVES = ['power', 'contrast', 'product', 'overlap', 'amplitude']


def gen_objective(rng, spec, nl):
    comps = ['Ez', 'Hx', 'Hy'] if spec['pol'] == 'Ez' else ['Hz', 'Ex', 'Ey']
    n = rng.choice([1, 1, 2, 3])
    args = []
    for k in range(n):
        comp = comps[0] if rng.random() < 0.5 else rng.choice(comps)
        args.append([comp, bool(nl and rng.random() < 0.6)])
    if nl and not any(a[1] for a in args) and rng.random() < 0.8:
        args[0][1] = True
    return {'kind': rng.choice(OBJECTIVES), 'args': args, 'seed': rng.randrange(10**6)}


def objective_weights(spec, o):
    r = np.random.RandomState(o['seed'])
    nx, ny = spec['shape']
    a, b = spec['npml']
    mask = np.zeros((nx, ny))
    mask[a:nx - a if a else nx, b:ny - b if b else ny] = 1
    return [(mask*r.rand(nx, ny), mask*(r.rand(nx, ny) - 0.5 + 1j*(r.rand(nx, ny) - 0.5)))
            for _ in o['args']]


def objective_value(o, weights, scales, fields, np=np):
    """The objective, in terms of any numpy (numpy for the reference, autograd's for angler)"""
    k = o['kind']
    terms = []
    for (w, c), s, f in zip(weights, scales, fields):
        f = f*s
        if k == 'overlap':
            terms.append(np.square(np.abs(np.sum(c*f))) + np.real(np.sum(c*f)))
        elif k == 'amplitude':
            terms.append(np.sum(w*np.sqrt(np.square(np.abs(f)) + 1e-2)))
        else:
            terms.append(np.sum(w*np.square(np.abs(f))))
    if k == 'product':
        out = 1.0
        for t in terms:
            out = out*(1 + 0.1*t)
        return out*o.get('unit', 1.0)
    if k == 'contrast':
        out = terms[0]
        for t in terms[1:]:
            out = out - 0.5*t
        return out/(1.0 + 0.1*terms[0])*o.get('unit', 1.0)
    out = 0.0
    for i, t in enumerate(terms):
        out = out + (1.0 if i % 2 == 0 else -0.7)*t
    return out*o.get('unit', 1.0)


def objective_scales(spec, d, rho0=None):
    """One over the typical size of each component, so that objectives are of order one"""
    rho = rho0 if rho0 is not None else initial_rho(spec, d)
    ref = make_ref(spec, eps=design_eps(spec, d, rho))
    f = ref.fields(build_src(spec))
    out = []
    for (comp, nl) in d['obj']['args']:
        n = np.sqrt(np.mean(np.abs(f[comp])**2))
        out.append(float(1/n) if n > 0 else 1.0)
    return out


def make_objective(spec, d, scales, ticks=True):
    """angler's Objective: a user's function of the fields (a seam: it may fail or be interrupted)"""
    import autograd.numpy as npa
    from angler.objective import Objective, obj_arg
    o = d['obj']
    weights = objective_weights(spec, o)

    def value(fields):
        s = kernel.CURRENT
        if s is not None and ticks:
            if s.observer is not None and not s.suspended:
                s.observer()
            s.call('objective', o['kind'])
        return objective_value(o, weights, scales, fields, np=npa)
    n = len(o['args'])
    if n == 1:
        J = lambda a: value([a])
    elif n == 2:
        J = lambda a, b: value([a, b])
    else:
        J = lambda a, b, c: value([a, b, c])
    args = [obj_arg('f%d' % i, component=c, nl=nl) for i, (c, nl) in enumerate(o['args'])]
    if n == 1 and d['obj'].get('seed', 0) % 2:
        args = args[0]          # a single argument need not be in a list
    return Objective(J, arg_list=args)


def design_region(spec, d):
    m = region(spec, d['rect'])
    if d.get('holes'):
        m = m*(np.random.RandomState(d['holes']).rand(*m.shape) < 0.75)
        m[d['rect'][0], d['rect'][2]] = 1
    return m.astype(int) if d.get('ints') else m


def design_eps(spec, d, rho):
    return density_to_eps(rho, design_region(spec, d), spec['npml'], d['R'], d['eta'], d['beta'], d['eps_m'])


def initial_rho(spec, d):
    """The density that the run starts from"""
    eps = np.real(build_eps(spec))
    rho = (eps - 1)/(d['eps_m'] - 1)
    m = design_region(spec, d) == 1
    if d['init'] == 'rand':
        rho[m] = 0.1 + 0.8*np.random.RandomState(d['seed']).rand(*rho.shape)[m]
    elif d['init'] in ('half', 'full', 'empty'):
        rho[m] = {'half': 0.5, 'full': 1.0, 'empty': 0.0}[d['init']]
    rho[m] = np.clip(rho[m], 0, 1)
    return rho


def initial_eps(spec, d):
    """The permittivity that a user would assign to get initial_rho"""
    return 1 + (d['eps_m'] - 1)*initial_rho(spec, d)


def make_optimization(spec, d, sim=None, scales=None, objective=None, **kw):
    """Simulation and Optimization of a design problem (a user's script)"""
    from angler import Simulation, Optimization
    if sim is None:
        sim = Simulation(spec['omega'], initial_eps(spec, d), spec['dl'], list(spec['npml']), spec['pol'],
                         L0=spec['L0'])
        put_src(sim, build_src(spec), spec['src'].get('how', 'inplace'))
        add_nl(sim, spec, nl_list(spec, d['nl'], d['eps_m']))
    if scales is None:
        scales = objective_scales(spec, d)
    if objective is None:
        objective = make_objective(spec, d, scales)
    opt = Optimization(objective=objective, simulation=sim, design_region=design_region(spec, d),
                       eps_m=d['eps_m'], R=d['R'], eta=d['eta'], beta=d['beta'], **kw)
    return sim, opt, scales


class RefDesign:
    """The reference model of a design problem: density -> objective"""

    def __init__(self, spec, d, scales, src=None, omega=None):
        self.spec, self.d, self.scales = spec, d, scales
        self.src = build_src(spec).astype(np.complex64) if src is None else np.array(src)
        self.omega = omega
        self.nls = nl_list(spec, d['nl'], d['eps_m'])
        self.weights = objective_weights(spec, d['obj'])
        self.start = None
        self.converged = True

    def eps(self, rho):
        return design_eps(self.spec, self.d, rho)

    def fields(self, eps, want_nl=None):
        ref = make_ref(self.spec, eps=eps, omega=self.omega)
        lin = ref.fields(self.src)
        nl = None
        if want_nl is None:
            want_nl = any(a[1] for a in self.d['obj']['args'])
        if want_nl:
            z = 'Ez'
            start = self.start if self.start is not None else lin[z]
            f, ok = kerr_solve(ref, self.nls, self.src, start)
            self.converged = self.converged and ok
            nl = ref.components(f, eps_nl=kerr(self.nls, f, ref.eps))
        return lin, nl

    def objective(self, eps):
        lin, nl = self.fields(eps)
        args = [(nl if n else lin)[c] for (c, n) in self.d['obj']['args']]
        return float(objective_value(self.d['obj'], self.weights, self.scales, args))

    def J(self, rho):
        return self.objective(self.eps(rho))

    def slope(self, rho, v, h=None):
        """dJ/drho along v, by central differences at two step sizes; returns (slope, error estimate)"""
        h = h or 1e-4/max(1.0, self.d['beta'])

        def central(h):
            return (self.J(rho + h*v) - self.J(rho - h*v))/(2*h)
        a, b = central(h), central(2*h)
        return (4*a - b)/3, abs(a - b)
