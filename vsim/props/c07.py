"""C07: designs stay feasible and the permittivity is that of the density."""
import numpy as np

from vsim import optlab, world
from vsim.kernel import Violation
from vsim.lab import attempt, retry

QUICK = 240
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = dict(optlab.FAULTS)
PROBES = ['GD', 'ADAM', 'LBFGS', 'large step', 'filter', 'projection', 'filter across a periodic boundary',
          'material outside of the range', 'run failed', 'resumed after a failure', 'start without density',
          'observed evaluations', 'on the bounds', 'continuation', 'initialised', 'checked derivatives',
          'region with holes', 'failed direct update']


def gen(rng, k):
    ops = [optlab.gen_problem(rng, filt=0.35, nl=0.2)]
    ops[0]['density'] = rng.random() < 0.5
    for _ in range(rng.randrange(2, 6)):
        o = rng.choice(['run', 'run', 'run', 'run', 'beta', 'init', 'check', 'edit'])
        op = {'op': o, 'seed': rng.randrange(10**6)}
        if o == 'run':
            op['method'] = rng.choice(['GD', 'GD', 'ADAM', 'LBFGS', 'lbfgs', 'adam'])
            op['n'] = rng.choice([1, 2, 3, 4])
            op['step'] = rng.choice([0.01, 0.2, 2.0, 1e4])
        elif o == 'beta':
            op['beta'] = rng.choice([2.0, 10.0, 50.0])
        elif o == 'init':
            op['style'] = rng.choice(['full', 'halfway', 'empty', 'random', 'random_sym', ''])
        ops.append(op)
    return {'ops': ops}


def check(sim, s, rho_out, eps_out, note):
    rho, eps = np.asarray(s.real.rho), np.asarray(s.real.eps_r)
    if rho.shape != s.region.shape or eps.shape != s.region.shape:
        raise Violation('shape', '%s the density has shape %s, the permittivity %s' % (note, rho.shape, eps.shape))
    inside = rho[s.region]
    if not np.all(np.isfinite(inside)) or inside.min() < -1e-12 or inside.max() > 1 + 1e-12:
        raise Violation('bounds', '%s densities are in [%.6g, %.6g]' % (note, inside.min(), inside.max()))
    if np.any(rho[~s.region] != rho_out):
        raise Violation('outside', '%s the density outside of the design region changed by up to %.1e'
                        % (note, np.max(np.abs(rho[~s.region] - rho_out))))
    want = s.eps_of(rho)
    if np.max(np.abs(eps - want)) > 1e-9*np.max(np.abs(want)):
        raise Violation('map', '%s the permittivity is not that of the density (off by up to %.1e)'
                        % (note, np.max(np.abs(eps - want))))
    if np.max(np.abs(eps[~s.region] - eps_out), initial=0) > 1e-9*np.max(np.abs(want)):
        raise Violation('outside', '%s the permittivity outside of the design region changed' % note)
    if inside.min() <= 0 or inside.max() >= 1:
        sim.probe('on the bounds')


def execute(sim, prog):
    s = None
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        o = op['op']
        if o == 'new':
            s = optlab.Session(sim, op)
            if s.d['R']:
                sim.probe('filter')
                r = s.d['rect']
                for k in range(2):
                    if s.spec['npml'][k] == 0 and (r[2*k] < s.d['R'] or r[2*k + 1] > s.spec['shape'][k] - s.d['R']):
                        sim.probe('filter across a periodic boundary')
            if s.d['beta'] > 1e-6:
                sim.probe('projection')
            if s.d.get('holes'):
                sim.probe('region with holes')
            if s.spec['eps']['kind'] == 'high':
                sim.probe('material outside of the range')
            failed = False
            continue
        if s is None:
            continue
        real = s.real
        if o == 'run':
            first = getattr(real, 'rho', None) is None
            rho0 = s.start()
            rho_out = rho0[~s.region]
            eps_out = s.eps_of(rho0)[~s.region]
            before = np.array(real.eps_r)
            step = op['step'] if op['method'].lower() == 'adam' else s.step_size(op['step'])
            label = op['method'].upper()

            def observer():
                sim.probe('observed evaluations')
                check(sim, s, rho_out, eps_out, 'in a run of %s' % label)
            st, _ = s.run(observer, method=op['method'], Nsteps=op['n'], step_size=step)
            with sim.oracle():
                if getattr(real, 'rho', None) is None:
                    continue            # it failed before it started
                unchanged = (np.array_equal(np.array(real.eps_r), before)
                             and optlab.close_design(np.array(real.rho), rho0, 1e-12))
                if not unchanged or st == 'ok':
                    check(sim, s, rho_out, eps_out, 'after a run of %s (%s)' % (label, st))
                sim.probe(label)
                if op['step'] >= 2:
                    sim.probe('large step')
                if first:
                    sim.probe('start without density')
                if st != 'ok':
                    sim.probe('run failed')
                elif failed:
                    sim.probe('resumed after a failure')
                failed = st != 'ok'
        elif o == 'beta':
            # continuation: a stronger projection from here on
            s.d['beta'] = s.opt.beta = op['beta']
            sim.probe('continuation')
        elif o == 'init':
            np.random.seed(op['seed'])
            m = world.design_region(s.spec, s.d)
            before = np.array(real.eps_r)
            had = getattr(real, 'rho', None)
            st, _ = attempt(sim, real.init_design_region, m, s.d['eps_m'], style=op['style'])
            with sim.oracle():
                eps = np.array(real.eps_r)
                if np.any(eps[~s.region] != before[~s.region]):
                    raise Violation('outside', 'initialising the design region changed the permittivity outside of it')
                if st == 'ok':
                    e = eps[s.region]
                    lo, hi = {'full': (s.d['eps_m'],)*2, 'empty': (1, 1), 'halfway': ((1 + s.d['eps_m'])/2,)*2,
                              '': (-np.inf, np.inf)}.get(op['style'], (1, s.d['eps_m']))
                    if e.min() < lo - 1e-9 or e.max() > hi + 1e-9:
                        raise Violation('init', 'style %r gives permittivities in [%g, %g]'
                                        % (op['style'], e.min(), e.max()))
                    if np.max(np.abs(1 + (s.d['eps_m'] - 1)*np.array(real.rho) - eps)) > 1e-9:
                        raise Violation('map', 'initialising the design region gives another density')
                    sim.probe('initialised')
                elif not np.array_equal(eps, before) or getattr(real, 'rho', None) is not had:
                    raise Violation('map', 'a failed initialisation changed the design')
            if st == 'ok' and np.any((np.array(real.rho)[s.region] < 0) | (np.array(real.rho)[s.region] > 1)):
                real.rho = np.where(s.region, np.clip(real.rho, 0, 1), real.rho)
        elif o == 'check' and getattr(real, 'rho', None) is not None:
            rho = np.array(real.rho)
            np.random.seed(op['seed'])
            attempt(sim, s.opt.check_deriv, Npts=1)
            with sim.oracle():
                if not np.array_equal(np.array(real.rho), rho):
                    raise Violation('outside', 'checking derivatives changed the density')
            sim.probe('checked derivatives')
        elif o == 'edit' and getattr(real, 'rho', None) is not None:
            # the user moves the design by hand
            rng = np.random.RandomState(op['seed'])
            rho = np.array(real.rho)
            rho[s.region] = np.clip(rho[s.region] + 0.2*rng.randn(int(s.region.sum())), 0, 1)

            def assign():
                real.eps_r = s.eps_of(rho)
            failures, _ = retry(sim, assign)
            sim.probe('failed direct update', failures)
            real.rho = rho
