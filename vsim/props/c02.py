"""C02: stored fields never outlive the permittivity they were computed for."""
import copy

import numpy as np

from vsim import world
from vsim.kernel import Violation
from vsim.lab import attempt, retry, new_item, set_source
from vsim.props.c01 import other_eps, gauge
from vsim.ref import kerr, kerr_residual

QUICK = 500
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.15
FAULTS = {'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent'],
          'spsolve': ['mem', 'err', 'int', 'silent'], 'assemble': ['mem', 'int'], 'deepcopy': ['mem', 'int'],
          'objective': ['err', 'int'], 'bar': ['io', 'int']}
PROBES = ['linear results stored', 'nonlinear results stored', 'cleared by eps', 'cleared by run',
          'refused to plot', 'refused to probe', 'refused to plot nonlinear', 'refused to probe nonlinear',
          'kept by a failed assignment', 'nl converged']


def gen(rng, k):
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        p = world.gen_problem(rng, pol=rng.choice(['Ez', 'Ez', 'Hz']), oned=0.05)
        nl = world.gen_nl(rng, p, rng.choice([1e-3, 1e-2])) if p['pol'] == 'Ez' and rng.random() < 0.8 else None
        ops.append({'op': 'new', 'prob': p, 'nl': nl})
    for _ in range(rng.randrange(6, 16)):
        o = rng.choice(['eps', 'eps', 'eps', 'src', 'omega', 'solve', 'solve', 'nl', 'nl', 'copy', 'init', 'shift',
                        'bad', 'look', 'look', 'run', 'check'])
        op = {'op': o, 'sim': rng.randrange(4), 'seed': rng.randrange(10**6)}
        if o == 'eps':
            op['kind'] = rng.choice(['fresh', 'local', 'same', 'flat', 'creep', 'creep', 'pixel'])
            op['loss'] = False
            op['times'] = rng.choice([1, 1, 1, 12]) if op['kind'] == 'creep' else 1
        elif o == 'src':
            op['how'] = rng.choice(['inplace', 'replace', 'scale', 'zero'])
            op['kind'] = rng.choice(['point', 'line', 'two', 'rand'])
        elif o == 'omega':
            op['f'] = rng.choice([0.95, 1.01, 1.2])
        elif o == 'solve':
            op['averaging'] = rng.random() < 0.2
        elif o == 'nl':
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
        elif o == 'init':
            op['style'] = rng.choice(['full', 'halfway', 'empty', 'random', 'random_sym', ''])
        elif o == 'run':
            op['method'] = rng.choice(['GD', 'ADAM', 'LBFGS'])
        ops.append(op)
    return {'ops': ops}


def inspect(sim, item):
    """Whatever is stored belongs to the permittivity, frequency and a source of this simulation"""
    real = item.real
    with sim.oracle():
        ref = item.ref(np.array(real.eps_r))
        main = item.spec['pol']
        names = ref.names()
        for nl in (False, True):
            store = real.fields_nl if nl else real.fields
            label = 'nonlinear' if nl else 'linear'
            if store[main] is None:
                for c in names[:2]:
                    if store[c] is not None:
                        raise Violation('stale', 'stored %s %s without %s' % (label, c, main))
                continue
            sim.probe(label + ' results stored')
            f = np.array(store[main])
            if f.shape != ref.shape:
                raise Violation('stale', 'stored %s %s has shape %s' % (label, main, f.shape))
            if not np.all(np.isfinite(f)):
                if nl:
                    continue        # a diverged nonlinear solve
                raise Violation('stale', 'stored %s is not finite' % main)
            ok = nl and not item.nl_ok
            if not ok:
                nls = item.nls if nl else []
                eps_nl = kerr(nls, f, ref.eps) if nl else 0
                lhs = ref.apply(f, eps_nl)
                for src in item.sources:
                    b = 1j*ref.omega*src.reshape(ref.shape)
                    n = np.linalg.norm(b)
                    scale = n + 1e-2*ref.omega**2*ref.e0*np.linalg.norm(f)*(1 if ref.pol == 'Ez' else ref.m0/ref.e0)
                    if np.linalg.norm(lhs - b) <= (1e-5 if nl else 2e-6)*max(scale, 1e-300):
                        ok = True
                        break
            if not ok:
                raise Violation('stale', 'the stored %s %s does not solve the problem for the permittivity that the '
                                'simulation reports' % (label, main))
            variants = [ref.components(f), ref.components(f, averaging=True)]
            if nl:
                variants += [ref.components(f, eps_nl=kerr(item.nls, f, ref.eps))]
            best = min(world.close_fields({c: store[c] if store[c] is not None else 0*f for c in names}, w, 0)[0]
                       for w in variants)
            if best > 3e-6:
                raise Violation('stale', 'the stored in-plane %s fields do not belong to the stored %s (%.1e)'
                                % (label, main, best))


def look(sim, item, op):
    """With no results for this permittivity, looking at results has to fail"""
    import matplotlib.pyplot as plt
    real = item.real
    pol = item.spec['pol']
    looks = []
    if real.fields[pol] is None:
        looks += [('plot', lambda: real.plt_abs(cbar=False, outline=False)),
                  ('plot', lambda: real.plt_re(cbar=False, outline=False)),
                  ('probe', lambda: real.flux_probe(*gauge(op, item)))]
    if real.fields_nl[pol] is None:
        looks += [('plot nonlinear', lambda: real.plt_abs(nl=True, cbar=False, outline=False)),
                  ('plot nonlinear', lambda: real.plt_re(nl=True, cbar=False, outline=False)),
                  ('plot nonlinear', lambda: real.plt_diff(cbar=False, outline=False)),
                  ('probe nonlinear', lambda: real.flux_probe(*gauge(op, item), nl=True))]
    with sim.oracle():
        for name, fn in looks:
            if name.startswith('probe') and 1 in item.spec['shape']:
                continue
            try:
                fn()
            except Exception:
                sim.probe('refused to ' + name)
            else:
                raise Violation('shown', 'results were shown (%s) although none have been computed for this '
                                'permittivity' % name)
            finally:
                plt.close('all')


def optimizer(item):
    """A small optimisation on an item's simulation"""
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    from vsim import kernel
    nx, ny = item.spec['shape']
    m = np.zeros((nx, ny))
    i, j = nx//2, ny//2
    m[i:i + 3, j:j + 3] = 1
    f0 = item.ref(np.real(item.eps)).solve_z(item.src)
    s = 1/max(np.mean(np.abs(f0)**2), 1e-300)
    w = np.random.RandomState(1).rand(nx, ny)

    def J(f):
        if kernel.CURRENT is not None:
            kernel.CURRENT.call('objective', '')
        return npa.sum(w*npa.square(npa.abs(f)))*s
    return Optimization(objective=Objective(J, obj_arg('f', component=item.spec['pol'])), simulation=item.real,
                        design_region=m, eps_m=6.0)


def execute(sim, prog):
    items = []

    def note(item):
        """remember every source that a stored result may have been computed for"""
        s = np.array(item.real.src, dtype=complex)
        if not any(np.array_equal(s, t) for t in item.sources):
            item.sources.append(s)

    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        if op['op'] == 'new':
            item = new_item(sim, op['prob'], op['nl'])
            item.sources, item.nl_ok = [], False
            note(item)
            items.append(item)
        if not items:
            continue
        item = items[op.get('sim', 0) % len(items)]
        real = item.real
        o = op['op']
        had = real.fields[item.spec['pol']] is not None
        if o in ('eps', 'omega'):
            if o == 'omega':
                if had:
                    continue        # a new frequency is followed by an assignment at once; see 'eps'
                real.omega = item.omega*op['f']
                item.omega = real.omega
                eps = np.array(real.eps_r)
            else:
                eps = other_eps(item, op)

            def set_eps():
                real.eps_r = eps.copy()
            st, _ = attempt(sim, set_eps)
            for _ in range(op.get('times', 1) - 1):
                # many small steps
                eps = eps + (eps - item.eps)/op['times']
                retry(sim, set_eps)
            if st == 'fault' and o == 'omega':
                retry(sim, set_eps)
            elif st == 'fault' and had:
                sim.probe('kept by a failed assignment', int(real.fields[item.spec['pol']] is not None))
            elif had:
                sim.probe('cleared by eps')
            item.eps = np.array(real.eps_r)
        elif o == 'src':
            if op['how'] != 'scale' or np.max(np.abs(item.src)) < 100:
                set_source(item, dict(item.spec['src'], kind=op['kind'], seed=op['seed']), op['how'])
            note(item)
        elif o == 'solve':
            attempt(sim, real.solve_fields, averaging=op['averaging'])
        elif o in ('nl', 'shift') and item.nls:
            old = real.fields_nl['Ez']
            if o == 'nl':
                st, got = attempt(sim, real.solve_fields_nl, solver_nl=op['solver'])
                if st == 'ok':
                    item.nl_ok = bool(got[3][-1] <= 1e-10) and np.all(np.isfinite(got[2]))
                    sim.probe('nl converged', int(item.nl_ok))
            else:
                attempt(sim, real.compute_index_shift)
                if real.fields_nl['Ez'] is not old:
                    item.nl_ok = False
        elif o == 'init':
            m = np.zeros(item.spec['shape'])
            nx, ny = item.spec['shape']
            m[nx//3:nx//3 + 4, ny//3:ny//3 + 4] = 1
            attempt(sim, real.init_design_region, m, 5.0, style=op['style'])
            item.eps = np.array(real.eps_r)
        elif o == 'copy' and len(items) < 5:
            st, c = attempt(sim, copy.deepcopy, real)
            if st == 'ok':
                new = item.clone(c)
                new.sources, new.nl_ok = list(item.sources), item.nl_ok
                items.append(new)
        elif o == 'bad':
            try:
                real.eps_r = 'not an array'
            except Exception:
                pass
        elif o == 'look':
            look(sim, item, op)
        elif o in ('run', 'check') and np.any(item.src) and not np.iscomplexobj(item.eps):
            st, opt = attempt(sim, optimizer, item)
            if st == 'ok':
                if getattr(real, 'rho', None) is None or o == 'check':
                    real.rho = (np.real(np.array(real.eps_r)) - 1)/5.0
                if o == 'run':
                    # the run starts from the permittivity that the density stands for
                    attempt(sim, opt.run, method=op['method'], Nsteps=2, step_size=0.01)
                    sim.probe('cleared by run')
                else:
                    attempt(sim, opt.check_deriv, Npts=1)
            item.eps = np.array(real.eps_r)
        for it in items:
            if np.iscomplexobj(it.eps) and not np.any(np.imag(it.eps)):
                it.eps = np.real(it.eps)
            inspect(sim, it)
