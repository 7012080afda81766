"""C06: the gradient is the derivative of the objective at every design visited."""
import numpy as np

from vsim import world
from vsim.kernel import Violation
from vsim.lab import attempt, retry

QUICK = 170
THOROUGH = 200000
VARIANTS = 1
SCIPY = 0.12
FAULTS = {'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent'],
          'spsolve': ['mem', 'err', 'int', 'silent'], 'assemble': ['mem', 'int'], 'objective': ['err', 'int'], 'bar': ['io', 'int']}
PROBES = ['Ez', 'Hz', 'Hx', 'Hy', 'Ex', 'Ey', 'nl Ez', 'nl Hx', 'nl Hy', 'filter', 'projection', 'filter and projection',
          'permittivity-dependent nonlinearity', 'nonlinear and linear arguments', 'periodic', 'at the start',
          'after a run', 'after a fault', 'after another projection', 'region with holes', 'several arguments', 'at the bounds',
          'small objective', 'large objective', 'several permittivity-dependent nonlinearities'] \
    + ['objective ' + o for o in world.OBJECTIVES]


def gen(rng, k):
    p = world.gen_problem(rng)
    d = world.gen_design(rng, p, filt=0.35, nl=0.6)
    for n in d['nl']:
        n['shift'] = rng.choice([1e-3, 1e-2, 3e-2])
    # objectives are not all of order one
    unit = rng.choice([1.0, 1.0, 1.0, 1e-15, 1e12])
    d['obj']['unit'] = unit
    ops = [{'op': 'new', 'prob': p, 'design': d}, {'op': 'grad', 'seed': rng.randrange(10**6)}]
    for _ in range(rng.randrange(1, 4)):
        o = rng.choice(['run', 'run', 'jump', 'src', 'objective', 'projection'])
        op = {'op': o, 'seed': rng.randrange(10**6)}
        if o == 'run':
            op['method'] = rng.choice(['GD', 'ADAM', 'LBFGS'])
            op['n'] = rng.choice([1, 2, 3])
            op['step'] = rng.choice([1e-3, 0.05, 0.5])
        elif o == 'objective':
            op['obj'] = dict(world.gen_objective(rng, p, bool(d['nl'])), unit=unit)
        elif o == 'projection':
            op['beta'] = rng.choice([1e-9, 2.0, 8.0, 20.0])
            op['eta'] = rng.choice([d['eta'], 0.4, 0.5])
        ops.append(op)
        ops.append({'op': 'grad', 'seed': rng.randrange(10**6)})
    return {'ops': ops}


def check(sim, st, g, seed, note):
    spec, d, opt, real = st['spec'], st['d'], st['opt'], st['real']
    with sim.oracle():
        g = np.asarray(g)
        m = world.design_region(spec, d)
        if g.shape != m.shape or np.iscomplexobj(g):
            raise Violation('gradient', 'the gradient has shape %s, type %s' % (g.shape, g.dtype))
        # pixels outside of the design region are not free (with a filter they influence those inside,
        # but no method moves them)
        r = world.RefDesign(spec, d, st['scales'], src=np.array(real.src, dtype=complex))
        rho = np.array(real.rho)
        if world.rel(np.array(real.eps_r), r.eps(rho)) > 1e-9:
            raise Violation('map', 'the permittivity is not that of the density')
        inside = np.argwhere(m == 1)
        rng = np.random.RandomState(seed)
        n = len(inside)
        unit = d['obj'].get('unit', 1.0)
        size = np.linalg.norm((g*m).ravel())
        dirs = [('a random direction', m*rng.randn(*m.shape))]
        top = np.unravel_index(np.argmax(np.abs(g*m)), m.shape)
        for (i, j) in [top, tuple(inside[rng.randint(n)])]:
            v = np.zeros(m.shape)
            v[i, j] = 1
            dirs.append(('pixel (%d, %d)' % (i, j), v))
        for label, v in dirs:
            s, err = r.slope(rho, v)
            if not r.converged or not np.isfinite(s):
                return
            got = float(np.sum(g*v))
            allowed = 2e-4*(size/np.sqrt(n))*np.linalg.norm(v) + 3*err + 1e-8*unit
            if not abs(got - s) <= allowed:
                raise Violation('gradient', 'along %s (%s) the gradient is %.8e, the objective changes by %.8e '
                                '(allowed difference %.1e)' % (label, note, got, s, allowed))
        if d['R'] is None and np.any(g[m == 0] != 0):
            raise Violation('outside', 'the gradient is not zero outside of the design region')
        for (c, nl) in d['obj']['args']:
            sim.probe(('nl ' if nl else '') + c)
        sim.probe('objective ' + d['obj']['kind'])
        if len(d['obj']['args']) > 1:
            sim.probe('several arguments')
        if len(set(nl for _, nl in d['obj']['args'])) == 2:
            sim.probe('nonlinear and linear arguments')
        if d['R']:
            sim.probe('filter')
        if d['beta'] > 1e-6:
            sim.probe('projection')
        if d['R'] and d['beta'] > 1e-6:
            sim.probe('filter and projection')
        if any(x['scale'] for x in d['nl']):
            sim.probe('permittivity-dependent nonlinearity')
        if 0 in spec['npml']:
            sim.probe('periodic')
        sim.probe('small objective', int(unit < 1))
        sim.probe('large objective', int(unit > 1))
        sim.probe('several permittivity-dependent nonlinearities', int(sum(x['scale'] for x in d['nl']) > 1))
        if d.get('holes'):
            sim.probe('region with holes')
        if np.any(rho[m == 1] <= 0) or np.any(rho[m == 1] >= 1):
            sim.probe('at the bounds')
        sim.probe(note)


def execute(sim, prog):
    st = None
    note = 'at the start'
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        o = op['op']
        if o == 'new':
            with sim.oracle():
                st = {'spec': op['prob'], 'd': dict(op['design'])}
                st['real'], st['opt'], st['scales'] = world.make_optimization(st['spec'], st['d'])
                st['real'].rho = world.initial_rho(st['spec'], st['d'])
                st['real'].eps_r = world.design_eps(st['spec'], st['d'], st['real'].rho)
            continue
        if st is None:
            continue
        real, opt, spec, d = st['real'], st['opt'], st['spec'], st['d']
        m = world.design_region(spec, d)
        if o == 'grad':
            s, g = attempt(sim, opt.compute_dJ, real, opt.design_region)
            if s != 'ok':
                note = 'after a fault'
                s, g = attempt(sim, opt.compute_dJ, real, opt.design_region)
            if s == 'ok':
                check(sim, st, g, op['seed'], note)
        elif o == 'run':
            with sim.oracle():
                # a step of a sensible size whatever the size of the gradient
                g = opt.compute_dJ(real, opt.design_region)
                size = max(np.max(np.abs(g*m)), 1e-12*d['obj'].get('unit', 1.0))
            step = op['step'] if op['method'] == 'ADAM' else op['step']/size
            s, _ = attempt(sim, opt.run, method=op['method'], Nsteps=op['n'], step_size=step)
            note = 'after a run' if s == 'ok' else 'after a fault'
        elif o == 'jump':
            rng = np.random.RandomState(op['seed'])
            rho = np.array(real.rho)
            rho[m == 1] = np.clip(rng.rand(int(np.sum(m == 1)))*1.2 - 0.1, 0, 1)

            def assign():
                real.eps_r = world.design_eps(spec, d, rho)
            retry(sim, assign)
            real.rho = rho
            note = 'after a jump'
        elif o == 'projection':
            # densities that stay, projected differently
            d['beta'], d['eta'] = op['beta'], op['eta']
            opt.beta, opt.eta = op['beta'], op['eta']
            rho = np.array(real.rho)

            def assign():
                real.eps_r = world.design_eps(spec, d, rho)
            retry(sim, assign)
            note = 'after another projection'
        elif o == 'src':
            real.src = real.src*0.8
            real.src[tuple(s//2 for s in spec['shape'])] += 0.2*np.max(np.abs(real.src))
            note = 'after a source edit'
        elif o == 'objective':
            d['obj'] = op['obj']
            with sim.oracle():
                st['scales'] = world.objective_scales(spec, d)
                opt.objective = world.make_objective(spec, d, st['scales'])
            note = 'after a new objective'
