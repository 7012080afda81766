"""C13: results depend on the inputs only."""
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vsim import kernel, modes, optlab, world
from vsim.kernel import BudgetExceeded, INJECTED, Sim, Violation
from vsim.props import c12

QUICK = 240
THOROUGH = 200000
SCIPY = 0.15
FAULTS = None
PROBES = ['fresh process', 'process with a history', 'history with a failure', 'history of the same shape',
          'history of the same problem', 'history of a similar problem', 'other hash seed', 'clock jumped', 'run', 'LBFGS', 'ADAM', 'GD', 'nonlinear',
          'mode', 'scan', 'power', 'derivative check', 'random design', 'other generator state', 'several modes']
ASSUMPTIONS = ['Two worlds are compared per run; they differ in clock, entropy, history, the state of the random '
               'generators that the operations may not use, and (for some runs) the hash seed of the interpreter.']
RANDOM = {'deriv', 'randinit'}      # documented as random: the same numbers for the same seed


def gen(rng, k):
    s = gen_session(rng)
    hist = []
    how = rng.choice(['none', 'same problem', 'same shape', 'other', 'sibling', 'sibling', 'sibling', 'siblings'])
    if how.startswith('sibling'):
        for _ in range(1 if how == 'sibling' else 2):
            prob, design = world.sibling(rng, s['prob'], s['design'])
            steps = s['steps'] if rng.random() < 0.5 else gen_session(rng)['steps']
            hist.append(dict(s, prob=prob, design=design, steps=[related(rng, o) for o in steps]))
    elif how != 'none':
        h = gen_session(rng)
        if how != 'other':
            h['prob'] = dict(s['prob'], src=world.gen_src(rng, s['prob'])) if how == 'same shape' else s['prob']
            h['design'] = dict(s['design'])
            if how == 'same shape':
                h['design'].update(init='rand', seed=rng.randrange(10**6))
                h['prob'] = dict(h['prob'], omega=h['prob']['omega']*rng.choice([1.0, 1.1]),
                                 dl=h['prob']['dl']*rng.choice([1.0, 1.3]))
        hist.append(h)
    faults = []
    if hist and rng.random() < 0.4:
        seam = rng.choice(['factor', 'solve', 'factor.real', 'solve.real', 'assemble', 'objective', 'deepcopy', 'bar', 'eigs',
                           'spsolve'])
        kinds = kernel.FAULT_KINDS[seam.split('.')[0]]
        faults.append({'op': 0, 'seam': seam, 'nth': rng.randrange(12), 'kind': rng.choice(kinds)})
    return {'ops': [dict(s, op='session')], 'history': hist, 'history_faults': faults, 'other_seed': rng.randrange(10**6),
            'other_clock': rng.choice(['jumpy', 'jumpy', 'frozen', 'steady']),
            'hashseed': rng.randrange(1, 10**6) if rng.random() < 0.12 else None}


def related(rng, op):
    """The same operation, or one of other settings"""
    if rng.random() < 0.5:
        return op
    op = dict(op, seed=rng.randrange(10**6))
    if 'method' in op:
        op['method'] = rng.choice(['GD', 'LBFGS', 'ADAM'])
    if 'n' in op:
        op['n'] = rng.choice([1, 2, 3])
    if 'solver' in op:
        op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
    if 'modes' in op:
        f = rng.choice([0.9, 1.1, 1.001])
        op['prob'] = dict(op['prob'], omega=op['prob']['omega']*f)
    return op


def gen_session(rng):
    s = c12.gen_session(rng)
    more = []
    if rng.random() < 0.3:
        more.append({'o': 'deriv', 'seed': rng.randrange(10**6), 'n': rng.choice([1, 2])})
    if rng.random() < 0.3:
        more.append({'o': 'randinit', 'seed': rng.randrange(10**6), 'style': rng.choice(['random', 'random_sym'])})
    if rng.random() < 0.25:
        p = world.gen_problem(rng, pol='Ez')
        more.append({'o': 'power', 'seed': 0, 'prob': p, 'modes': modes.gen_modes(rng, p, n=rng.choice([1, 2]))})
    if rng.random() < 0.25:
        p = world.gen_problem(rng)
        more.append({'o': 'mode', 'seed': 0, 'prob': p, 'modes': modes.gen_modes(rng, p)})
    for m in more:
        s['steps'].insert(rng.randrange(len(s['steps']) + 1), m)
    return s


class Session(c12.Session):

    def step(self, op):
        real, opt = self.real, self.opt
        o = op['o']
        if o == 'deriv':
            avm, num = opt.check_deriv(Npts=op['n'], d_rho=1e-2)
            return [np.array(avm), np.array(num)]
        if o == 'randinit':
            real.init_design_region(opt.design_region, self.spec['design']['eps_m'], style=op['style'])
            return [np.array(real.eps_r)]
        if o in ('mode', 'power'):
            from angler import Optimization, Simulation
            q = op['prob']
            t = Simulation(q['omega'], world.build_eps(q), q['dl'], list(q['npml']), q['pol'], L0=q['L0'])
            for m in op['modes']:
                modes.add(t, m)
            t.setup_modes()
            out = [np.array(t.src), np.array(t.W_in)]
            if o == 'power':
                r = np.zeros(q['shape'])
                r[q['shape'][0]//2, q['shape'][1]//2] = 1
                t.add_nl(1e-24, r)
                u = Optimization(objective=None, simulation=t, design_region=r, eps_m=q['eps']['eps_m'])
                n = q['shape']
                powers, trans = u.scan_power(probes=[lambda s: s.flux_probe('x', [n[0]//2, n[1]//2], 4, nl=True)],
                                             Ns=2, s_min=0.5, s_max=1.0)
                out += [np.array(powers)]
            return out
        return c12.Session.step(self, op)

    def run(self):
        """Like a script that seeds the generators before the operations that use them"""
        self.out = [('start', self.start(), None)]
        for op in self.spec['steps']:
            if op['o'] in RANDOM:
                np.random.seed(op['seed'])
                random.seed(op['seed'])
            before = states()
            try:
                got = self.step(op)
            except (BudgetExceeded, Violation):
                raise
            except Exception as e:
                got = ['%s: %s' % (type(e).__name__, e)]
            drew = [n for n, a, b in zip(('numpy\'s generator', 'the generator of random'), before, states()) if a != b]
            self.out.append((op['o'], got, drew if op['o'] not in RANDOM else []))
        return self


def states():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3]), random.getstate()


def in_world(w):
    """Computes the session of a program in one world, in this process.  The world has a disk of its own: what the
       history leaves in the working, home or temporary folder is there for the session."""
    disk = tempfile.mkdtemp(prefix='vsim-world-')
    back = os.getcwd()
    try:
        tempfile.tempdir = disk
        for name in ('TMPDIR', 'TEMP', 'TMP', 'HOME', 'XDG_CACHE_HOME'):
            os.environ[name] = disk
        os.chdir(disk)
        return on_disk(w, disk)
    finally:
        os.chdir(back)
        shutil.rmtree(disk, ignore_errors=True)


def on_disk(w, disk):
    fired = {}
    sim = Sim(w['seed'], clock=w['clock'], faults=w['faults'])
    sim.scratch = disk
    with sim:
        np.random.seed(w['state'])
        random.seed(w['state'])
        sim.begin(0, 'history')
        for h in w['history']:
            np.random.seed(5)
            s = Session(h)
            try:
                s.start()
                for op in h['steps']:
                    try:
                        s.step(op)
                    except INJECTED:
                        pass
                    except BudgetExceeded:
                        raise
                    except Exception:
                        if not sim.fired:
                            raise
            except INJECTED:
                pass
        fired = dict(sim.fired)
        sim.faults = []
        np.random.seed(w['state'])
        random.seed(w['state'])
        sim.begin(1, 'session')
        n = sim.total_calls
        out = Session(w['session']).run().out
    left = sum(len(files) for _, _, files in os.walk(disk))
    return {'out': out, 'left': left, 'refused': sim.refused, 'fired': fired, 'calls': sim.total_calls - n, 'jumps': sim.clock_jumps, 'hash': sim.hash.hexdigest()}


def failure(e):
    import traceback
    from vsim.runner import raised_by
    return {'error': traceback.format_exc(), 'at': raised_by(e), 'what': '%s: %s' % (type(e).__name__, e)}


def visit(w, backend):
    if w.get('hashseed') is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(w['hashseed']))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vsim.props.c13'], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, input=pickle.dumps((w, backend)), timeout=300)
        if p.returncode != 0:
            raise RuntimeError('the other world failed: %s' % p.stderr.decode()[-2000:])
        return pickle.loads(p.stdout)
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            kernel.CURRENT = None
            try:
                got = in_world(w)
            except BaseException as e:
                got = failure(e)
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(got, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        from vsim.runner import crashed
        if crashed(status):
            raise Violation('crash', 'a world died of signal %d' % os.WTERMSIG(status))
        raise RuntimeError('a world died')
    return pickle.loads(data)


def execute(sim, prog):
    spec = prog['ops'][0] if prog['ops'] else None
    if spec is None:
        return
    sim.begin(0, 'two worlds')
    fresh = {'session': spec, 'history': [], 'faults': [], 'seed': prog['seed'], 'clock': 'steady', 'state': 1}
    other = {'session': spec, 'history': prog['history'], 'faults': prog['history_faults'], 'seed': prog['other_seed'],
             'clock': prog['other_clock'], 'state': 1 + prog['other_seed'] % 1000, 'hashseed': prog.get('hashseed')}
    a = visit(fresh, prog.get('backend'))
    b = visit(other, prog.get('backend'))
    for x in (a, b):
        if x.get('at'):
            raise Violation('error', 'a valid operation failed: %s (%s)' % (x['what'], x['at']))
        if 'error' in x:
            raise RuntimeError(x['error'])
        sim.total_calls += x['calls']
        sim.log('world %s' % x['hash'])
        sim.probe('files left behind', x['left'])
        if x['refused']:
            raise Violation('outside', 'file operations outside of the world\'s disk: %s' % x['refused'][:3])
    for k, v in b['fired'].items():
        sim.fired[k] = sim.fired.get(k, 0) + v
    sim.clock_jumps += b['jumps']
    sim.oracles += 1
    sim.probe('fresh process')
    sim.probe('clock jumped', b['jumps'])
    sim.probe('other generator state', int(other['state'] != 1))
    sim.probe('other hash seed', int(prog.get('hashseed') is not None))
    for h in prog['history']:
        sim.probe('process with a history')
        sim.probe('history with a failure', int(bool(b['fired'])))
        sim.probe('history of the same shape', int(h['prob']['shape'] == spec['prob']['shape']))
        sim.probe('history of a similar problem', int(h['prob']['shape'] == spec['prob']['shape'] and
                                                      (h['prob'], h['design']) != (spec['prob'], spec['design'])))
        sim.probe('history of the same problem', int(h['prob'] == spec['prob']))
    for (name, x, drew), (_, y, drew2) in zip(a['out'], b['out']):
        for d in (drew or []) + (drew2 or []):
            raise Violation('random', 'operation %s, which is not random, draws from %s' % (name, d))
        d = c12.differ(x, y)
        sim.probe('bitwise' if d == 0 else 'not bitwise')
        if d != 0:
            raise Violation('depends', 'operation %s gives another result (by %.1e) in a world with another clock, '
                            'entropy or history' % (name, d))
        sim.oracles += 1
        if x and isinstance(x[0], str):
            raise Violation('error', 'a valid operation %s failed: %s' % (name, x[0]))
    for o in spec['steps']:
        if o['o'] == 'run':
            sim.probe(o['method'])
        if o['o'] in ('mode', 'power'):
            sim.probe('several modes', int(len(o['modes']) > 1))
        sim.probe({'deriv': 'derivative check', 'randinit': 'random design'}.get(o['o'], o['o']))
    sim.probe('nonlinear', int(bool(spec['design']['nl'])))


def simplify(prog):
    if prog['history']:
        yield dict(prog, history=[], history_faults=[])
        yield dict(prog, history_faults=[])
        h = prog['history'][0]
        for j in range(len(h['steps'])):
            yield dict(prog, history=[dict(h, steps=h['steps'][:j] + h['steps'][j + 1:])])
    if prog['ops']:
        s = prog['ops'][0]
        for j in range(len(s['steps'])):
            yield dict(prog, ops=[dict(s, steps=s['steps'][:j] + s['steps'][j + 1:])])
    if prog.get('hashseed') is not None:
        yield dict(prog, hashseed=None)
    if prog['other_clock'] != 'steady':
        yield dict(prog, other_clock='steady')


if __name__ == '__main__':
    from vsim import runner, seams
    w, backend = pickle.loads(sys.stdin.buffer.read())
    out = sys.stdout.buffer
    runner.prepare()
    if backend == 'scipy':
        runner.without_pymkl()
    sys.stdout = seams.Sink(None)
    try:
        got = in_world(w)
    except BaseException as e:
        got = failure(e)
    out.write(pickle.dumps(got))
    out.flush()
    os._exit(0)
