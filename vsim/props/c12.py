"""C12: concurrent sessions in threads do not disturb each other."""
import copy
import importlib
import os
import pickle
import pkgutil

import numpy as np

from vsim import kernel, modes, optlab, world
from vsim.kernel import BudgetExceeded, Scheduler, Violation

QUICK = 120
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.15
FAULTS = {'factor': ['mem', 'err', 'silent'], 'solve': ['mem', 'err', 'silent'], 'spsolve': ['mem', 'err'],
          'assemble': ['mem'], 'objective': ['err', 'mem'], 'bar': ['io'], 'deepcopy': ['mem'],
          'eigs': ['mem', 'noconv']}
PROBES = ['two sessions', 'three sessions', 'same shape', 'same problem', 'switches', 'switches inside the code',
          'a session failed', 'run', 'nonlinear', 'scan', 'mode', 'gradient', 'copy']
ASSUMPTIONS = ['Threads are preempted at lines of angler\'s code and at calls into libraries, not inside libraries.',
               'Drawing (pyplot has one current figure per process) and operations documented as random (numpy\'s '
               'global generator) are not used by the sessions.']


def gen(rng, k):
    n = rng.choice([2, 2, 2, 3])
    like = rng.choice(['same problem', 'same shape', 'other', 'same shape'])
    sessions = []
    for i in range(n):
        s = gen_session(rng)
        if i and like == 'same problem':
            s['prob'], s['design'] = copy.deepcopy(sessions[0]['prob']), copy.deepcopy(sessions[0]['design'])
        elif i and like == 'same shape':
            # the same grid, but a detail or two of the design, materials, sources, frequencies or objectives
            s['prob'], s['design'] = world.sibling(rng, sessions[0]['prob'], sessions[0]['design'])
        sessions.append(dict(s, op='session'))
    if rng.random() < 0.35:
        # all of them in the middle of a run at the same time
        run = {'o': 'run', 'seed': 0, 'method': rng.choice(['ADAM', 'ADAM', 'GD', 'LBFGS'])}
        for s in sessions:
            s['steps'] = s['steps'][:1] + [dict(run, n=rng.choice([2, 3, 4]))]
        return {'ops': sessions, 'preempt_rate': 0.4, 'line_rate': rng.choice([0.0, 0.01])}
    return {'ops': sessions, 'preempt_rate': rng.choice([0.02, 0.1, 0.4]),
            'line_rate': rng.choice([0.0, 0.002, 0.01, 0.05])}


def gen_session(rng):
    p = optlab.gen_problem(rng, filt=0.35, nl=0.35)
    ops = []
    for _ in range(rng.randrange(1, 5)):
        o = rng.choice(['solve', 'nl', 'J', 'dJ', 'run', 'run', 'assign', 'src', 'scan', 'mode', 'copy', 'init',
                        'setup', 'shift'])
        op = {'o': o, 'seed': rng.randrange(10**6)}
        if o == 'run':
            op.update(method=rng.choice(['GD', 'LBFGS', 'ADAM', 'GD']), n=rng.choice([1, 2, 2, 3]))
        elif o == 'nl':
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
        elif o == 'init':
            op['style'] = rng.choice(['halfway', 'full', 'empty'])
        elif o == 'mode':
            q = world.gen_problem(rng)
            op['prob'], op['modes'] = q, modes.gen_modes(rng, q, n=1)
        ops.append(op)
    return {'prob': p['prob'], 'design': p['design'], 'density': True, 'steps': ops}


class Session:
    """A user's script: what it computed, op by op"""

    def __init__(self, spec):
        self.spec = spec
        self.scales = world.objective_scales(spec['prob'], spec['design'])
        self.out = []
        self.failed = None

    def run(self):
        try:
            self.out.append(('start', self.start()))
        except BudgetExceeded:
            raise
        except Exception as e:
            self.failed = e
            return self
        for op in self.spec['steps']:
            try:
                self.out.append((op['o'], self.step(op)))
            except (BudgetExceeded, Violation):
                raise
            except Exception as e:
                self.failed = e
                self.out.append((op['o'], [repr(type(e).__name__)]))
        return self

    def start(self):
        s, d = self.spec['prob'], self.spec['design']
        self.real, self.opt, _ = world.make_optimization(s, d, scales=self.scales)
        if self.spec['density']:
            self.real.rho = world.initial_rho(s, d)
            self.real.eps_r = world.design_eps(s, d, self.real.rho)
        return [np.array(self.real.eps_r)]

    def step(self, op):
        s, d, real, opt = self.spec['prob'], self.spec['design'], self.real, self.opt
        o = op['o']
        r = np.random.RandomState(op['seed'])
        if o == 'solve':
            return [np.array(f) for f in real.solve_fields()]
        if o == 'nl':
            if not d['nl']:
                return [np.array(f) for f in real.solve_fields(averaging=True)]
            got = real.solve_fields_nl(solver_nl=op['solver'])
            # only what has converged is reproducible
            return [np.array(f) for f in got[:3]] if abs(got[3][-1]) <= 1e-8 else []
        if o == 'J':
            return [np.array(opt.compute_J(real))]
        if o == 'dJ':
            return [np.array(opt.compute_dJ(real, opt.design_region))]
        if o == 'run':
            opt.run(method=op['method'], Nsteps=op['n'], step_size=1e-3)
            return [np.array(opt.objfn_list), np.array(real.rho), np.array(real.eps_r)]
        if o == 'assign':
            rho = np.where(world.design_region(s, d) == 1, r.rand(*s['shape']), (np.real(real.eps_r) - 1)/(d['eps_m'] - 1))
            real.rho = rho
            real.eps_r = world.design_eps(s, d, np.clip(rho, 0, None))
            return [np.array(real.eps_r)]
        if o == 'src':
            real.src = np.array(real.src)*(0.5 + r.rand())
            return [np.array(real.src)]
        if o == 'scan':
            freqs, objs, _ = opt.scan_frequency(Nf=3, df=0.1)
            return [np.array(freqs), np.array(objs)]
        if o == 'mode':
            from angler import Simulation
            q = op['prob']
            t = Simulation(q['omega'], world.build_eps(q), q['dl'], list(q['npml']), q['pol'], L0=q['L0'])
            for m in op['modes']:
                modes.add(t, m)
            t.setup_modes()
            # the sign of degenerate profiles apart, which is the subject of C14
            return [np.abs(np.array(t.src)), np.array(t.W_in)]
        if o == 'copy':
            c = copy.deepcopy(real)
            c.eps_r = 1 + (np.array(c.eps_r) - 1)*0.5
            return [np.array(f) for f in c.solve_fields()] + [np.array(f) for f in real.solve_fields()]
        if o == 'init':
            real.init_design_region(opt.design_region, d['eps_m'], style=op['style'])
            return [np.array(real.eps_r)]
        if o == 'setup':
            # another simulation of the same problem
            t, u, _ = world.make_optimization(s, d, scales=self.scales)
            return [np.array(t.solve_fields()[2]), np.array(u.compute_J(t))]
        if o == 'shift':
            if not d['nl']:
                return []
            # the fields have to be those of a converged solve
            if abs(copy.deepcopy(real).solve_fields_nl()[3][-1]) > 1e-8:
                return []
            return [np.array(real.compute_index_shift())]
        raise ValueError(o)


def alone(spec):
    """What a session computes in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            kernel.CURRENT = None
            s = Session(spec).run()
            with os.fdopen(w, 'wb') as f:
                pickle.dump((s.out, None if s.failed is None else '%s: %s' % (type(s.failed).__name__, s.failed)), f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        from vsim.runner import crashed
        if crashed(status):
            raise Violation('crash', 'a session died of signal %d on its own' % os.WTERMSIG(status))
        raise RuntimeError('the session failed on its own')
    return pickle.loads(data)


def differ(a, b):
    """Largest relative difference between two lists of arrays"""
    if len(a) != len(b):
        return np.inf
    worst = 0.0
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            worst = max(worst, 0.0 if isinstance(x, str) and isinstance(y, str) and x == y else np.inf)
        elif x.shape != y.shape:
            worst = np.inf
        elif not np.array_equal(x, y, equal_nan=True):
            scale = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-300)
            d = np.max(np.abs(x - y))/scale
            worst = max(worst, d if np.isfinite(d) else np.inf)
    return worst


def execute(sim, prog):
    specs = prog['ops']
    with sim.oracle():
        want = [alone(s) for s in specs]
        sessions = [Session(s) for s in specs]
        # a thread must not be stopped while it holds the lock of an import
        import angler
        for m in pkgutil.walk_packages(angler.__path__, 'angler.'):
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    sim.log('sessions %d' % len(specs))
    files = os.path.dirname(os.path.realpath(angler.__file__)) + os.sep
    sched = Scheduler(sim, [s.run for s in sessions], (files, os.path.dirname(angler.__file__) + os.sep),
                      prog.get('line_rate', 0.0))
    try:
        sched.run()
    finally:
        sim.taken = sched.taken
    sim.probe('two sessions' if len(specs) == 2 else 'three sessions', int(len(specs) > 1))
    sim.probe('switches', len(sched.taken) - 1)
    sim.probe('switches inside the code', int(prog.get('line_rate', 0) > 0 and len(sched.taken) > 1))
    a = specs[0]
    for b in specs[1:]:
        sim.probe('same shape', int(a['prob']['shape'] == b['prob']['shape']))
        sim.probe('same problem', int(a['prob'] == b['prob'] and a['design'] == b['design']))
    with sim.oracle():
        for i, (s, (out, failed)) in enumerate(zip(sessions, want)):
            if failed is not None:
                raise Violation('error', 'a valid session failed on its own: ' + failed)
            if i in sim.fired_ops:
                sim.probe('a session failed')
                continue
            if s.failed is not None:
                raise Violation('disturbed', 'session %d failed next to others, and did not on its own: %s: %s'
                                % (i, type(s.failed).__name__, s.failed))
            for (name, x), (_, y) in zip(s.out, out):
                d = differ(x, y)
                tol = 1e-6 if name == 'run' else 1e-9
                sim.probe('bitwise' if d == 0 else 'not bitwise')
                if not d <= tol:
                    raise Violation('disturbed', 'session %d, operation %s: the result next to other sessions differs '
                                    'from the one on its own by %.1e' % (i, name, d))
            for name in ['run', 'scan', 'mode', 'copy']:
                sim.probe(name, sum(o['o'] == name for o in specs[i]['steps']))
            sim.probe('gradient', sum(o['o'] == 'dJ' for o in specs[i]['steps']))
            sim.probe('nonlinear', int(bool(specs[i]['design']['nl'])))


def simplify(prog):
    """Shorter sessions"""
    for i, s in enumerate(prog['ops']):
        for j in range(len(s['steps'])):
            t = dict(s, steps=s['steps'][:j] + s['steps'][j + 1:])
            p = dict(prog, ops=prog['ops'][:i] + [t] + prog['ops'][i + 1:])
            p.pop('preempt', None)
            yield p
    if prog.get('line_rate'):
        p = dict(prog, line_rate=0.0)
        p.pop('preempt', None)
        yield p
