"""Optimisation runs: the problem, what was observed, and the reference trajectories."""
import numpy as np

from vsim import world
from vsim.kernel import Violation
from vsim.lab import attempt
from vsim.seams import REAL

FAULTS = {'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent'],
          'spsolve': ['mem', 'err', 'int', 'silent'], 'assemble': ['mem', 'int'], 'objective': ['err', 'int', 'mem'],
          'bar': ['io', 'int']}


def gen_problem(rng, filt=0.2, nl=0.35):
    p = world.gen_problem(rng)
    d = world.gen_design(rng, p, filt=filt, nl=nl)
    for n in d['nl']:
        n['shift'] = rng.choice([1e-3, 1e-2])
    return {'op': 'new', 'prob': p, 'design': d, 'density': rng.random() < 0.6}


class Session:
    """One optimisation problem and its model"""

    def __init__(self, sim, op, **kw):
        self.sim = sim
        self.spec, self.d = op['prob'], dict(op['design'])
        with sim.oracle():
            self.real, self.opt, self.scales = world.make_optimization(self.spec, self.d, **kw)
            if op.get('density', True):
                # otherwise the run takes the density from the permittivity
                self.real.rho = world.initial_rho(self.spec, self.d)
                self.real.eps_r = self.eps_of(self.real.rho)
        self.region = world.design_region(self.spec, self.d) == 1
        self.visited, self.seen = [], {}

    def eps_of(self, rho):
        return world.design_eps(self.spec, self.d, rho)

    def start(self):
        """The density that the next run starts from"""
        rho = getattr(self.real, 'rho', None)
        if rho is None:
            return (np.array(self.real.eps_r) - 1)/(self.d['eps_m'] - 1)
        return np.array(rho)

    def design(self):
        return self.start()

    def ref(self):
        return world.RefDesign(self.spec, self.d, self.scales, src=np.array(self.real.src, dtype=complex))

    def J(self, rho):
        """Objective of a density by the reference model, or None if it has no unique value"""
        if not self.settles(rho):
            return None
        r = self.ref()
        J = r.J(rho)
        return J if r.converged and np.isfinite(J) else None

    def settles(self, rho):
        """Does the nonlinear solver, by its own account, converge for this density?  (Whether that account
           is true is the subject of C04; fields that did not converge have no value to compare with.)"""
        if not self.d['nl'] or not any(a[1] for a in self.d['obj']['args']):
            return True
        conv = self.twin(rho).solve_fields_nl()[-1]
        ok = bool(np.isfinite(conv[-1])) and abs(conv[-1]) <= 1e-8
        if not ok:
            self.sim.probe('nonlinear solve that did not converge')
        return ok

    def twin(self, rho):
        """The simulation that a fresh script would make for a density"""
        real = self.twin_eps(self.eps_of(rho), self.spec['omega'])
        real.rho = rho.copy()
        return real

    def twin_eps(self, eps, omega):
        from angler import Simulation
        s, d = self.spec, self.d
        real = Simulation(omega, np.array(eps), s['dl'], list(s['npml']), s['pol'], L0=s['L0'])
        real.src = np.array(self.real.src)
        world.add_nl(real, s, world.nl_list(s, d['nl'], d['eps_m']))
        return real

    def gradient(self, rho):
        """The gradient that a fresh script would compute for a density"""
        from angler import Optimization
        s, d = self.spec, self.d
        real = self.twin(rho)
        opt = Optimization(objective=world.make_objective(s, d, self.scales, ticks=False), simulation=real,
                           design_region=world.design_region(s, d), eps_m=d['eps_m'], eta=d['eta'],
                           beta=d['beta'], R=None if hasattr(self.opt, 'W') else d['R'])
        if hasattr(self.opt, 'W'):
            opt.R, opt.W = self.opt.R, self.opt.W       # (it takes long to compute)
        return opt.compute_dJ(real, opt.design_region)

    def step_size(self, relative):
        """A step size that moves the most sensitive pixel by `relative`"""
        with self.sim.oracle():
            g = self.gradient(self.start())
            return relative/max(np.max(np.abs(g[self.region])), 1e-12)

    # -- runs ------------------------------------------------------------------------------

    def run(self, observer=None, **kw):
        def observe():
            with self.sim.oracle():
                if not self.visited or not np.array_equal(self.visited[-1], self.real.rho):
                    self.visited.append(np.array(self.real.rho))
                self.seen[len(self.opt.objfn_list) - n0] = self.visited[-1]
                if observer is not None:
                    observer()
        self.visited = []
        self.seen = {}          # number of objectives recorded -> the design then evaluated last
        n0 = len(self.opt.objfn_list)
        self.sim.observer = observe
        try:
            return attempt(self.sim, self.opt.run, **kw)
        finally:
            self.sim.observer = None

    def designs(self, start, recorded):
        """The designs of which gradient ascent or Adam recorded the objectives, as far as they were seen"""
        out = [np.array(start)]
        for k in range(1, recorded):
            if k not in self.seen:
                break
            out.append(self.seen[k])
        return out

    def trajectory(self, method, rho, n, step, actual=(), slack=None, **kw):
        """Densities 0..n of gradient ascent or Adam from rho.  Where the designs actually visited are given,
           each step starts from the actual one, so that rounding errors do not build up.
           slack, if given, receives for every density how far errors of the gradient can move it."""
        rule = Rule(method, step, **kw)
        out = [np.array(rho)]
        if slack is not None:
            slack.append(np.zeros(out[0].shape))
        for k in range(n):
            here = np.array(actual[k]) if k < len(actual) else out[-1]
            new, width = rule.next(here, self.gradient(here), self.region)
            out.append(new)
            if slack is not None:
                slack.append(width)
        return out

    def check_J(self, got, rho, oracle, what):
        want = self.J(rho)
        if want is None:
            return
        got = np.asarray(got)
        if got.shape != () or not abs(got - want) <= 5e-5*max(abs(want), 1.0):
            raise Violation(oracle, '%s is %s, that design has %.8e' % (what, got, want))


def close_design(a, b, tol=1e-5):
    return np.asarray(a).shape == np.asarray(b).shape and np.max(np.abs(np.asarray(a) - b)) <= tol


class Rule:
    """The update rules: gradient ascent, and Adam from fresh moments"""

    NOISE = 3e-6        # relative to the largest gradient

    def __init__(self, method, step, beta1=0.9, beta2=0.999, epsilon=1e-8):
        self.adam, self.step = method.lower() == 'adam', step
        self.beta1, self.beta2, self.epsilon = beta1, beta2, epsilon
        self.k = 0
        self.m, self.v = [0.0]*3, [0.0]*3

    def next(self, rho, g, region):
        """The next design, and by how much noise of the gradient could move it"""
        noise = self.NOISE*np.max(np.abs(g))
        news = []
        for i, h in enumerate((g, g - noise, g + noise)):
            if self.adam:
                self.m[i] = self.beta1*self.m[i] + (1 - self.beta1)*h
                self.v[i] = self.beta2*self.v[i] + (1 - self.beta2)*h**2
                h = (self.m[i]/(1 - self.beta1**(self.k + 1))
                     / (np.sqrt(self.v[i]/(1 - self.beta2**(self.k + 1))) + self.epsilon))
            new = np.array(rho)
            new[region] = np.clip((rho + self.step*h)[region], 0, 1)
            news.append(new)
        self.k += 1
        return news[0], np.maximum(np.abs(news[1] - news[0]), np.abs(news[2] - news[0]))


def off_by(got, want, slack=0.0):
    """The largest difference between two designs beyond what is excused"""
    if np.shape(got) != np.shape(want):
        return np.inf
    return float(np.max(np.abs(np.asarray(got) - want) - slack))
