"""C05: objective and gradient always belong to the problem now in force."""
import copy

import numpy as np

from vsim import world
from vsim.kernel import Violation
from vsim.lab import attempt, retry

QUICK = 200
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = {'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent'],
          'spsolve': ['mem', 'err', 'int', 'silent'], 'assemble': ['mem', 'int'], 'deepcopy': ['mem', 'int'],
          'objective': ['err', 'int'], 'bar': ['io', 'int']}
CHANGES = ['design', 'permittivity', 'source in place', 'source replaced', 'frequency', 'nonlinearity added', 'run',
           'check_deriv', 'scan_frequency', 'another simulation', 'objective replaced', 'function replaced',
           'simulation replaced', 'projection', 'solve', 'nonlinear solve', 'evaluation', 'index shift', 'a fault',
           'source moved', 'many small changes', 'pixels exchanged', 'nonlinearity replaced']
PROBES = (['J', 'dJ', 'dJ of another simulation', 'dJ against slope', 'filtered'] + ['J after ' + c for c in CHANGES]
          + ['dJ after ' + c for c in CHANGES if c != 'permittivity'])


def gen(rng, k):
    p = world.gen_problem(rng, small=True)
    d = world.gen_design(rng, p, filt=0.12, nl=0.6)
    for n in d['nl']:
        n['shift'] = rng.choice([1e-3, 1e-2])
    ops = [{'op': 'new', 'prob': p, 'design': d}]
    now = d['obj']
    for _ in range(rng.randrange(6, 14)):
        o = rng.choice(['J', 'J', 'J', 'J', 'dJ', 'dJ', 'dJ', 'dJ', 'design', 'design', 'eps', 'src', 'src', 'src', 'omega', 'nl',
                        'run', 'check', 'scan', 'fork', 'fork', 'eps', 'objective', 'function', 'swap', 'solve', 'solve_nl',
                        'evaluate', 'shift', 'beta'])
        op = {'op': o, 'sim': rng.choice([0, 0, 0, 1, 2]), 'seed': rng.randrange(10**6)}
        if o == 'src':
            op['how'] = rng.choice(['point in place', 'scale in place', 'replace', 'scale', 'phase', 'roll', 'conj', 'mirror'])
        elif o == 'design':
            op['kind'] = rng.choice(['any', 'any', 'any', 'exchange', 'creep'])
        elif o == 'run':
            op['method'] = rng.choice(['GD', 'ADAM', 'LBFGS'])
            op['n'] = rng.choice([1, 2])
        elif o == 'objective':
            op['obj'] = now = change_objective(rng, p, now, bool(d['nl']))
            if rng.random() < 0.6:
                # evaluated right before and right after
                around = {'op': rng.choice(['J', 'dJ']), 'sim': 0, 'seed': rng.randrange(10**6)}
                ops += [dict(around), op, dict(around, op=rng.choice(['J', 'dJ']))]
                continue
        elif o == 'omega':
            op['f'] = rng.choice([0.97, 1.02])
        elif o == 'beta':
            op['beta'] = rng.choice([1e-9, 2.0, 8.0])
        elif o == 'nl':
            op['nl'] = world.gen_nl(rng, p, 1e-3)[:1]
            op['replace'] = rng.random() < 0.4
        ops.append(op)
    return {'ops': ops}


def change_objective(rng, p, now, nl):
    """Another objective, or one of almost the same arguments"""
    how = rng.choice(['any', 'any', 'kind', 'kind', 'order', 'one'])
    new = world.gen_objective(rng, p, nl)
    if how == 'any':
        return new
    args = [list(a) for a in now['args']]
    if how == 'kind' and nl:
        for a in args:
            a[1] = not a[1]
    elif how == 'order':
        args = args[::-1]
    elif how == 'one':
        args[-1] = new['args'][0]
    return dict(new, args=args)


class Case:
    """One simulation and what is now in force on it"""

    def __init__(self, real, rho, eps, omega, nls):
        self.real, self.rho, self.eps, self.omega, self.nls = real, rho, eps, omega, list(nls)
        self.change = 'construction'


class State:
    pass


def ref_of(w, case):
    r = world.RefDesign(w.spec, w.d, w.scales, src=np.array(case.real.src, dtype=complex), omega=case.omega)
    r.nls = case.nls
    return r


def twin_gradient(w, case):
    """The gradient that a fresh script would compute for what is now in force"""
    from angler import Simulation, Optimization
    s = w.spec
    real = Simulation(case.omega, case.eps.copy(), s['dl'], list(s['npml']), s['pol'], L0=s['L0'])
    real.src = np.array(case.real.src)
    world.add_nl(real, s, case.nls)
    real.rho = case.rho.copy()
    opt = Optimization(objective=w.objective(), simulation=real, design_region=world.design_region(s, w.d),
                       eps_m=w.d['eps_m'], eta=w.d['eta'], beta=w.d['beta'],
                       R=None if hasattr(w.opt, 'W') else w.d['R'])
    if hasattr(w.opt, 'W'):
        opt.R, opt.W = w.opt.R, w.opt.W                 # (it takes long to compute)
    return opt.compute_dJ(real, opt.design_region)


def check_J(sim, w, case, J):
    with sim.oracle():
        r = ref_of(w, case)
        want = r.objective(case.eps)
        if not r.converged:
            return
        got = float(np.real(J))
        if not abs(got - want) <= 5e-5*max(abs(want), 1.0):
            raise Violation('J', 'the objective is %.8e, but for the problem now in force (after: %s) it is %.8e'
                            % (got, case.change, want))
    sim.probe('J')
    sim.probe('J after ' + case.change)


def check_dJ(sim, w, case, g, seed):
    with sim.oracle():
        g = np.asarray(g)
        r = ref_of(w, case)
        r.objective(case.eps)
        if not r.converged:
            return
        want = twin_gradient(w, case)
        if not world.rel(g, want) <= 1e-4:
            raise Violation('dJ', 'the gradient is not that of the problem now in force (after: %s): it differs by %.1e'
                            % (case.change, world.rel(g, want)))
        if seed % 4 == 0:
            rng = np.random.RandomState(seed)
            m = world.design_region(w.spec, w.d)
            v = m*rng.randn(*m.shape)
            s, err = r.slope(case.rho, v)
            got = float(np.sum(g*v))
            scale = np.linalg.norm(g)*np.linalg.norm(v)
            if r.converged and not abs(got - s) <= 2e-3*scale + 5*err + 1e-7:
                raise Violation('slope', 'the gradient predicts a slope of %.6e, the objective has %.6e' % (got, s))
            sim.probe('dJ against slope')
    sim.probe('dJ')
    sim.probe('dJ after ' + case.change)


def assign_eps(sim, real, eps):
    def assign():
        real.eps_r = eps.copy()
    retry(sim, assign)


def execute(sim, prog):
    w = None
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        o = op['op']
        if o == 'new':
            w = State()
            w.spec, w.d = op['prob'], dict(op['design'])
            with sim.oracle():
                real, w.opt, w.scales = world.make_optimization(w.spec, w.d)
                rho = world.initial_rho(w.spec, w.d)
                eps = world.design_eps(w.spec, w.d, rho)
                real.rho, real.eps_r = rho.copy(), eps.copy()
            w.objective = lambda: world.make_objective(w.spec, w.d, w.scales, ticks=False)
            w.cases = [Case(real, rho, eps, w.spec['omega'], world.nl_list(w.spec, w.d['nl'], w.d['eps_m']))]
            w.active = 0
            if w.d['R']:
                sim.probe('filtered')
            continue
        if w is None:
            continue
        case = w.cases[op['sim'] % len(w.cases)]
        real = case.real
        active = w.cases[w.active]
        if o == 'J':
            st, J = attempt(sim, w.opt.compute_J, real)
            if st == 'ok':
                check_J(sim, w, case, J)
                for c in w.cases:
                    if c is not case:
                        c.change = 'another simulation'
            else:
                changed(w, 'a fault')
        elif o == 'dJ':
            target = active if getattr(case, 'off', False) else case
            own = w.opt.simulation
            st, g = attempt(sim, w.opt.compute_dJ, target.real, w.opt.design_region)
            if w.opt.simulation is not own:
                raise Violation('dJ', 'asking for a gradient replaced the simulation of the optimization')
            if st == 'ok':
                check_dJ(sim, w, target, g, op['seed'])
                if target is not active:
                    sim.probe('dJ of another simulation')
            else:
                changed(w, 'a fault')
        elif o == 'design':
            rng = np.random.RandomState(op['seed'])
            m = world.design_region(w.spec, w.d) == 1
            rho = case.rho.copy()
            change = 'design'
            if op.get('kind') == 'exchange':
                # the same densities elsewhere
                rho[m] = rng.permutation(rho[m])
                change = 'pixels exchanged'
            elif op.get('kind') == 'creep':
                # many steps that are each too small to matter
                change = 'many small changes'
                with sim.oracle():
                    up = np.sign(twin_gradient(w, case)) if not getattr(case, 'off', False) else rng.randn(*m.shape)
                for _ in range(40):
                    rho[m] = np.clip(rho[m]*(1 + 5e-6*up[m]), 0, 1)
                    assign_eps(sim, real, world.design_eps(w.spec, w.d, rho))
                    attempt(sim, w.opt.compute_J, real)
            else:
                rho[m] = np.clip(rho[m] + 0.3*rng.randn(np.sum(m)), 0, 1)
            eps = world.design_eps(w.spec, w.d, rho)
            assign_eps(sim, real, eps)
            real.rho = rho.copy()
            case.rho, case.eps, case.change, case.off = rho, eps, change, False
        elif o == 'eps':
            # only the objective is asked for with a permittivity that no density stands for
            if case is active:
                continue
            rng = np.random.RandomState(op['seed'])
            eps = case.eps*(1 + 0.2*rng.rand(*case.eps.shape))

            def assign():
                real.eps_r = eps.copy()
            retry(sim, assign)
            case.eps, case.change = eps, 'permittivity'
            case.off = True
        elif o == 'beta':
            w.d['beta'] = w.opt.beta = op['beta']
            for c in w.cases:
                c.off = True
            active.eps = world.design_eps(w.spec, w.d, active.rho)

            def assign():
                active.real.eps_r = active.eps.copy()
            retry(sim, assign)
            active.off = False
            active.change = 'projection'
        elif o == 'src':
            rng = np.random.RandomState(op['seed'])
            i, j = [rng.randint(3, s - 3) for s in w.spec['shape']]
            case.change = 'source in place'
            if op['how'] == 'point in place':
                real.src[i, j] += (0.5*np.max(np.abs(real.src)) or 0.1)
            elif op['how'] == 'scale in place':
                real.src *= 0.8
            elif op['how'] in ('phase', 'roll', 'conj', 'mirror'):
                # keeps the moduli, or the sum
                case.change = 'source moved'
                real.src[...] = {'phase': real.src*1j, 'roll': np.roll(real.src, 1, axis=1), 'conj': np.conj(real.src),
                                 'mirror': real.src[::-1, ::-1].copy()}[op['how']]
            else:
                case.change = 'source replaced'
                new = real.src*0.7
                if op['how'] == 'replace':
                    new[i, j] += (0.3*np.max(np.abs(new)) or 0.1)
                real.src = new
        elif o == 'omega':
            real.omega = case.omega*op['f']
            case.omega = real.omega

            def assign():
                real.eps_r = case.eps.copy()
            retry(sim, assign)
            case.change = 'frequency'
        elif o == 'nl':
            if w.spec['pol'] != 'Ez' or len(case.nls) > 2:
                continue
            new = world.nl_list(w.spec, op['nl'], w.d['eps_m'])
            case.change = 'nonlinearity added'
            if op['replace'] and case.nls:
                real.nonlinearity = real.nonlinearity[:-1]
                case.nls = case.nls[:-1]
                case.change = 'nonlinearity replaced'
            world.add_nl(real, w.spec, new)
            case.nls = case.nls + new
        elif o == 'run':
            if len(w.cases) > 1 and getattr(active, 'off', False):
                continue
            st, _ = attempt(sim, w.opt.run, method=op['method'], Nsteps=op['n'], step_size=1e-2)
            active.rho = np.array(active.real.rho)
            active.eps = np.array(active.real.eps_r)
            changed(w, 'run' if st == 'ok' else 'a fault')
        elif o == 'check':
            np.random.seed(op['seed'])
            st, _ = attempt(sim, w.opt.check_deriv, Npts=1)
            active.eps = np.array(active.real.eps_r)
            active.off = False
            changed(w, 'check_deriv' if st == 'ok' else 'a fault')
        elif o == 'scan':
            st, _ = attempt(sim, w.opt.scan_frequency, Nf=2, df=0.05, pbar=bool(op['seed'] % 2))
            changed(w, 'scan_frequency' if st == 'ok' else 'a fault')
        elif o == 'fork':
            if len(w.cases) < 3:
                st, c = attempt(sim, copy.deepcopy, real)
                if st == 'ok':
                    new = Case(c, case.rho.copy(), case.eps.copy(), case.omega, case.nls)
                    new.off = getattr(case, 'off', False)
                    new.change = 'another simulation'
                    w.cases.append(new)
        elif o == 'objective':
            w.d['obj'] = op['obj']
            with sim.oracle():
                w.scales = world.objective_scales(w.spec, w.d)
                w.opt.objective = world.make_objective(w.spec, w.d, w.scales)
            changed(w, 'objective replaced')
        elif o == 'function':
            # the same arguments, another function of them
            w.d['obj'] = dict(w.d['obj'], seed=op['seed'])
            with sim.oracle():
                w.opt.objective.J = world.make_objective(w.spec, w.d, w.scales).J
            changed(w, 'function replaced')
        elif o == 'swap':
            k = op['seed'] % len(w.cases)
            if not getattr(w.cases[k], 'off', False):
                w.active = k
                w.opt.simulation = w.cases[k].real
                changed(w, 'simulation replaced')
        elif o == 'solve':
            st, _ = attempt(sim, real.solve_fields, averaging=bool(op['seed'] % 2))
            case.change = 'solve' if st == 'ok' else 'a fault'
        elif o == 'solve_nl':
            if case.nls:
                st, _ = attempt(sim, real.solve_fields_nl, solver_nl='born', max_num_iter=1)
                case.change = 'nonlinear solve' if st == 'ok' else 'a fault'
        elif o == 'evaluate':
            rng = np.random.RandomState(op['seed'])
            shape = tuple(w.spec['shape'])
            f = real.fields[w.spec['pol']]
            size = 1.0 if f is None else 5*np.max(np.abs(f))
            attempt(sim, real.compute_nl, size*(rng.randn(*shape) + 1j*rng.randn(*shape)))
            case.change = 'evaluation'
        elif o == 'shift':
            if case.nls:
                st, _ = attempt(sim, real.compute_index_shift)
                case.change = 'index shift' if st == 'ok' else 'a fault'
    if w is None:
        return
    # at the end, without faults: everything is current
    sim.begin(len(prog['ops']), 'final')
    sim.faults = []
    for case in w.cases:
        st, J = attempt(sim, w.opt.compute_J, case.real)
        check_J(sim, w, case, J)
    active = w.cases[w.active]
    st, g = attempt(sim, w.opt.compute_dJ, active.real, w.opt.design_region)
    check_dJ(sim, w, active, g, 4)


def changed(w, what):
    for c in w.cases:
        c.change = what
