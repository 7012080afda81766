"""C10: L-BFGS never leaves a design worse than the one it started with."""
import numpy as np

from vsim import optlab
from vsim.kernel import Violation
from vsim.lab import attempt

QUICK = 110
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = dict(optlab.FAULTS)
PROBES = ['run', 'improved', 'stationary start', 'filter', 'projection', 'nonlinear', 'run failed', 'started on the bounds',
          'ended on the bounds', 'new run after a failure', 'second run', 'iterations used up', 'converged early',
          'no iterations asked for', 'interrupted in the objective', 'continuation', 'edited by hand',
          'objective with a limit', 'ended at the limit', 'ended after a rejected trial']
TOL = 3e-5


def gen(rng, k):
    ops = [optlab.gen_problem(rng, filt=0.3, nl=0.2)]
    for _ in range(rng.randrange(1, 4)):
        ops.append({'op': 'run', 'n': rng.choice([0, 1, 2, 3, 5, 8]), 'name': rng.choice(['LBFGS', 'lbfgs', None])})
        if rng.random() < 0.15:
            ops[-1].update(n=rng.choice([4, 8]), limit=rng.choice([0.01, 0.1, 0.3, 0.6]), drop=rng.choice([0.1, 1, 10]))
        o = rng.choice(['beta', 'edit', 'src', None, None])
        if o is not None:
            ops.append({'op': o, 'seed': rng.randrange(10**6), 'beta': rng.choice([2.0, 20.0])})
    ops.append({'op': 'run', 'n': rng.choice([1, 3]), 'name': 'LBFGS'})
    if ops[0]['design']['nl']:
        for o in ops:
            if o['op'] == 'run':
                o['n'] = min(o['n'], 3)     # line searches of nonlinear problems take long
    return {'ops': ops}


def execute(sim, prog):
    s = None
    for k, o in enumerate(prog['ops']):
        sim.begin(k, o['op'])
        if o['op'] == 'new':
            s = optlab.Session(sim, o)
            sim.probe('filter', int(bool(s.d['R'])))
            sim.probe('projection', int(s.d['beta'] > 1e-6))
            sim.probe('nonlinear', int(bool(s.d['nl'])))
            s.runs = 0
        elif s is None:
            continue
        elif o['op'] == 'run':
            while run(sim, s, o) != 'ok':
                # the user starts again from whatever was left
                sim.probe('new run after a failure')
        elif o['op'] == 'beta':
            s.d['beta'] = s.opt.beta = o['beta']
            sim.probe('continuation')
        elif o['op'] == 'src':
            s.real.src *= 0.9
        elif o['op'] == 'edit' and getattr(s.real, 'rho', None) is not None:
            rng = np.random.RandomState(o['seed'])
            rho = np.array(s.real.rho)
            rho[s.region] = np.clip(rho[s.region] + 0.2*rng.randn(int(s.region.sum())), 0, 1)
            with sim.oracle():
                s.real.eps_r = s.eps_of(rho)
            s.real.rho = rho
            sim.probe('edited by hand')


class Limit:
    """An objective that drops beyond a limit: the better the design, the sooner trials of the line search
       are rejected, and the last one of a run may be"""

    def __init__(self, s, rho0, o):
        self.s, self.rho0, self.objective = s, rho0, s.opt.objective
        with s.sim.oracle():
            g = s.gradient(rho0)
            room = np.where(g > 0, 1 - rho0, rho0)
            gain = np.sum((np.abs(g)*np.minimum(room, 0.1))[s.region])
            start = self.raw(rho0)
            self.limit = start + o['limit']*gain
            self.scale = max(abs(start), gain)
            self.drop = o['drop']*self.scale
        self.J = self.objective.J
        self.objective.J = lambda *a: self.apply(self.J(*a))
        s.sim.probe('objective with a limit')

    def remove(self):
        self.objective.J = self.J

    def apply(self, J):
        return J - self.drop*(J > self.limit)

    def raw(self, rho):
        from angler import Optimization
        from vsim import world
        s, d = self.s, self.s.d
        real = s.twin(rho)
        return Optimization(objective=world.make_objective(s.spec, d, s.scales, ticks=False), simulation=real,
                            design_region=world.design_region(s.spec, d), eps_m=d['eps_m']).compute_J(real)

    def forgive(self, J):
        return J + self.drop if abs(J + self.drop - self.limit) <= 1e-9*self.scale else J

    def check(self, sim, final, record):
        J0, J1 = self.raw(self.rho0), self.raw(final)
        if J1 > self.limit - 1e-3*self.drop:
            sim.probe('ended at the limit')
        if self.s.visited and not optlab.close_design(self.s.visited[-1], final, 0):
            sim.probe('ended after a rejected trial')
        # the same design may come out on the other side of the limit by rounding only
        if abs(J1 - self.limit) > 1e-9*self.scale and self.apply(J1) < self.apply(J0) - TOL*max(abs(J0), 1.0):
            raise Violation('worse', 'L-BFGS left a design beyond the limit of its objective: %.12e, limit %.12e, start %.12e'
                            % (J1, self.limit, J0))


def run(sim, s, o):
    rho0 = s.start()
    n0 = len(s.opt.objfn_list)
    kw = {} if o['name'] is None else {'method': o['name']}
    before = dict(sim.fired)
    limit = Limit(s, rho0, o) if o.get('limit') and not s.d['nl'] else None
    try:
        st, _ = s.run(Nsteps=o['n'], **kw)
    finally:
        if limit is not None:
            limit.remove()
    with sim.oracle():
        s.runs += 1
        final, record = s.design(), list(s.opt.objfn_list[n0:])
        inside = final[s.region]
        if not np.all(np.isfinite(inside)) or inside.min() < 0 or inside.max() > 1:
            raise Violation('feasible', 'L-BFGS left densities in [%g, %g]' % (inside.min(), inside.max()))
        if not np.array_equal(final[~s.region], rho0[~s.region]):
            raise Violation('feasible', 'L-BFGS changed the density outside of the design region')
        if len(record) > o['n']:
            raise Violation('count', 'L-BFGS was asked for %d iterations and made %d' % (o['n'], len(record)))
        if st != 'ok':
            sim.probe('run failed')
            now = {k: v - before.get(k, 0) for k, v in sim.fired.items()}
            if getattr(s.real, 'rho', None) is None:
                return st
            eps, want = np.array(s.real.eps_r), s.eps_of(final)
            moved = not optlab.close_design(final, rho0, 1e-12)
            if moved and np.max(np.abs(eps - want)) > 1e-9*np.max(np.abs(want)):
                raise Violation('left', 'an interrupted L-BFGS run left a permittivity that is not that of its density')
            if any(k.startswith('objective') and v for k, v in now.items()):
                sim.probe('interrupted in the objective')
                if not any(optlab.close_design(final, v, 1e-9) for v in s.visited + [rho0]):
                    raise Violation('left', 'an interrupted L-BFGS run left a design that it never evaluated')
            return st
        if limit is not None:
            limit.check(sim, final, record)
        check_objectives(sim, s, o, rho0, final, record, limit)
        return st


def check_objectives(sim, s, o, rho0, final, record, limit=None):
    sim.probe('run')
    if s.runs > 1:
        sim.probe('second run')
    for rho, name in ((rho0, 'started on the bounds'), (final, 'ended on the bounds')):
        sim.probe(name, int(np.any((rho[s.region] <= 0) | (rho[s.region] >= 1))))
    if o['n'] == 0:
        sim.probe('no iterations asked for')
    elif len(record) == o['n']:
        sim.probe('iterations used up')
    else:
        sim.probe('converged early')
    # all the designs it tried have to have a unique objective
    if not all(s.settles(v) for v in s.visited + [final]):
        return
    J0, J1 = s.J(rho0), s.J(final)
    if J0 is None or J1 is None:
        return
    scale = max(abs(J0), 1.0)
    if not J1 >= J0 - TOL*scale:
        raise Violation('worse', 'L-BFGS went from an objective of %.8e to %.8e' % (J0, J1))
    last = J0
    for k, J in enumerate(record):
        if limit is not None:
            J = limit.forgive(J)
        if not J >= last - TOL*scale:
            raise Violation('monotone', 'iteration %d of L-BFGS recorded %.8e after %.8e' % (k, J, last))
        last = J
    # progress: from a design that is not stationary, one iteration makes it better
    g = s.gradient(rho0)
    room = np.where(g > 0, 1 - rho0, rho0)
    gain = np.sum((np.abs(g)*np.minimum(room, 1e-2))[s.region])
    if limit is not None:
        return
    if o['n'] > 0 and gain > 2e-3*scale:
        if not J1 > J0 + TOL*scale:
            raise Violation('progress', 'L-BFGS stayed at an objective of %.8e, a step along the gradient gains %.1e'
                            % (J0, gain))
        sim.probe('improved')
    elif o['n'] > 0:
        sim.probe('stationary start', int(gain < 1e-5*scale))
