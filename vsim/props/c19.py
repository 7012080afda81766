"""C19: watching a computation does not change it."""
import os
import pickle

import numpy as np

from vsim import kernel, modes, world
from vsim.kernel import BudgetExceeded, INJECTED, Violation
from vsim.props import c03, c12, c13

QUICK = 150
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.15
FAULTS = {'draw': ['mem', 'err', 'int'], 'deepcopy': ['mem', 'int']}
PROBES = ['abs', 're', 'diff', 'eps', 'objs', 'trans', 'flux', 'flux nl', 'pickled', 'copied', 'printed', 'refused',
          'watching failed', 'silent run', 'drawn run', 'timed solve', 'silent scan', 'same results', 'run', 'nonlinear',
          'unchanged', 'before any result', 'GD', 'ADAM', 'LBFGS']
ASSUMPTIONS = ['Images are not rendered; figures and axes are built by matplotlib.']
LOOKS = ['abs', 'abs', 're', 'diff', 'eps', 'objs', 'objs', 'trans', 'flux', 'flux', 'pickled', 'copied', 'printed', 'linear']


def gen(rng, k):
    s = c13.gen_session(rng)
    ops = [{'op': 'start', 'prob': s['prob'], 'design': s['design'], 'density': s['density']}]
    steps = s['steps']
    for _ in range(rng.randrange(0, 3)):
        steps.append({'o': rng.choice(['solve', 'nl', 'nl', 'J', 'dJ', 'run']), 'seed': 0, 'solver': 'hybrid', 'method': 'GD', 'n': 2})
    for o in steps:
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append(look(rng, s))
        o = dict(o, op='step')
        if o['o'] == 'run':
            o['quiet'] = rng.random() < 0.3
            if rng.random() < 0.5:
                o['plot'] = {'every': rng.choice([1, 2]), 'what': rng.choice([['eps'], ['of', 'elin'], ['elin', 'eps', 'of', 'eps']])}
        elif o['o'] in ('solve', 'nl'):
            o['timing'] = rng.random() < 0.4
        elif o['o'] == 'scan':
            o['quiet'] = rng.random() < 0.5
        ops.append(o)
        if o['o'] in ('solve', 'nl', 'J', 'dJ', 'shift'):
            # now there is something to see
            ops += [look(rng, s) for _ in range(rng.choice([1, 2, 3]))]
    ops.append(look(rng, s))
    ops.append({'op': 'step', 'o': rng.choice(['J', 'dJ', 'solve', 'run']), 'seed': 0, 'method': rng.choice(['GD', 'ADAM', 'LBFGS']),
                'n': 1})
    return {'ops': ops}


def look(rng, s):
    return {'op': 'look', 'how': rng.choice(LOOKS), 'nl': rng.random() < 0.4, 'cbar': rng.random() < 0.5,
            'outline': rng.random() < 0.5, 'log': rng.random() < 0.3, 'tiled': rng.choice([1, 1, 2]),
            'normal': rng.random() < 0.5, 'seed': rng.randrange(10**6)}


class Session(c13.Session):
    """A script, with the settings that only concern what it shows"""

    def start(self):
        out = c13.Session.start(self)
        s = self.spec['prob']
        self.watched = True
        f = world.make_ref(s, eps=np.array(self.real.eps_r)).solve_z(np.array(self.real.src, dtype=complex))
        self.real.W_in = float((1e-3*np.max(np.abs(f)))**2)     # frames are scaled by it
        return out

    def step(self, op):
        real, opt = self.real, self.opt
        o = op['o']
        if o == 'run':
            kw = {}
            if self.watched:
                kw = {'verbose': not op.get('quiet')}
                if op.get('plot'):
                    from angler.plot import Temp_plt
                    kw['temp_plt'] = Temp_plt(it_plot=op['plot']['every'], plot_what=tuple(op['plot']['what']),
                                              folder=os.path.join(self.folder, 'frames'))
            opt.run(method=op['method'], Nsteps=op['n'], step_size=1e-3, **kw)
            return [np.array(opt.objfn_list), np.array(real.rho), np.array(real.eps_r), np.array(real.src)]
        if o == 'solve':
            return [np.array(f) for f in real.solve_fields(timing=bool(self.watched and op.get('timing')))]
        if o == 'nl' and self.spec['design']['nl']:
            got = real.solve_fields_nl(solver_nl=op['solver'], timing=bool(self.watched and op.get('timing')))
            return [np.array(f) for f in got[:3]] + [np.array(got[3])]
        if o == 'scan':
            freqs, objs, width = opt.scan_frequency(Nf=3, df=0.1, pbar=not (self.watched and op.get('quiet')))
            return [np.array(freqs), np.array(objs), np.array(width)]
        return c13.Session.step(self, op)


def unwatched(prog):
    """What the operations give without anybody watching, in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            kernel.CURRENT = None
            out = {}
            try:
                for k, op in enumerate(prog['ops']):
                    np.random.seed(op.get('seed', 0))
                    if k == 0:
                        s = Session(dict(op, steps=[]))
                        out[k] = s.start()
                        s.watched = False
                    elif op['op'] == 'step':
                        out[k] = s.step(op)
            except BaseException as e:
                out = c13.failure(e)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        from vsim.runner import crashed
        if crashed(status):
            raise Violation('crash', 'the operations died of signal %d' % os.WTERMSIG(status))
        raise RuntimeError('the unwatched session died')
    out = pickle.loads(data)
    if out.get('at'):
        raise Violation('error', 'a valid operation failed: %s (%s)' % (out['what'], out['at']))
    if 'error' in out:
        raise RuntimeError(out['error'])
    return out


def snapshot(s):
    out = c03.freeze(s.real)
    out['record'] = [float(np.real(x)) for x in s.opt.objfn_list]
    out['amplitudes'] = [float(np.real(x)) for x in s.opt.src_amplitudes]
    out['design region'] = np.array(s.opt.design_region)
    for i, n in enumerate(s.real.nonlinearity):
        out['region %d' % i] = np.array(n.nl_region)
    return out


def observe(sim, s, op):
    """Looks at the simulation and the record; what there is not to be seen may be refused"""
    import copy
    import matplotlib.pyplot as plt
    real, opt, how = s.real, s.opt, op['how']
    nl = op['nl'] and bool(s.spec['design']['nl'])
    shape, npml = s.spec['prob']['shape'], s.spec['prob']['npml']
    ready = real.fields[real.pol] is not None and (not nl or real.fields_nl[real.pol] is not None)
    try:
        if how == 'abs':
            real.plt_abs(nl=nl, cbar=op['cbar'], outline=op['outline'], logscale=op['log'] and op['normal'], tiled_y=op['tiled'],
                         **({'vmin': 1e-3, 'vmax': 1.0} if op['log'] else {}))
        elif how == 're':
            real.plt_re(nl=nl, cbar=op['cbar'], outline=op['outline'], tiled_y=op['tiled'])
        elif how == 'diff':
            real.plt_diff(cbar=op['cbar'], outline=op['outline'], tiled_y=op['tiled'], normalize=op['normal'])
        elif how == 'eps':
            real.plt_eps(cbar=op['cbar'], outline=op['outline'], tiled_y=op['tiled'])
        elif how == 'objs':
            opt.plt_objs(norm=['field', 'power', None][op['seed'] % 3], ax=plt.subplots()[1])
        elif how == 'trans':
            opt.plot_transmissions([[0.1, 0.5, 0.2], [0.3, 0.2, 0.1]], legend=['a', 'b'] if op['normal'] else None)
        elif how == 'flux':
            d = 'xy'[op['seed'] % 2]
            real.flux_probe(d, [shape[0]//2, shape[1]//2], 4 + op['seed'] % 3, nl=nl)
            sim.probe('flux nl', int(nl))
        elif how == 'pickled':
            pickle.dumps(real)
        elif how == 'copied':
            c = copy.deepcopy(real)
            c.src = np.array(c.src)*2       # a copy is the user's to change
            c.eps_r = np.array(c.eps_r)*1.1
            c.solve_fields()
        elif how == 'printed':
            str(real), repr(opt), real.eps_r.sum(), real.fields.items()
        else:
            opt.objective.is_linear()
        sim.probe(how)
        return 'ok'
    except BudgetExceeded:
        raise
    except INJECTED:
        sim.probe('watching failed')
        return 'fault'
    except Exception:
        sim.probe('refused')
        if not ready:
            sim.probe('before any result')
        return 'refused'
    finally:
        plt.close('all')


def execute(sim, prog):
    if not prog['ops'] or prog['ops'][0]['op'] != 'start':
        return
    with sim.oracle():
        want = unwatched(prog)
    s = Session(dict(prog['ops'][0], steps=[]))
    s.folder = sim.scratch
    for k, op in enumerate(prog['ops']):
        sim.begin(k, op.get('how', op.get('o', 'start')))
        np.random.seed(op.get('seed', 0))
        if op['op'] == 'look':
            with sim.oracle():
                before = snapshot(s)
            drew = c13.states()
            st = observe(sim, s, op)
            with sim.oracle():
                if c13.states() != drew:
                    raise Violation('random', 'looking (%s) draws random numbers' % op['how'])
                now = snapshot(s)
                for name in before:
                    if not c03.same(before[name], now[name]):
                        raise Violation('changed', 'looking (%s%s) changed %s' % (op['how'], {'ok': '', 'refused': ', refused',
                                        'fault': ', which failed'}[st], name))
                sim.probe('unchanged')
            continue
        try:
            got = s.start() if k == 0 else s.step(op)
        except (INJECTED):
            return      # an operation proper failed: C03
        with sim.oracle():
            name = op.get('o', 'start')
            if k in sim.fired_ops:
                return
            d = c12.differ(got, want[k])
            if not d <= (1e-6 if name in ('run', 'mode', 'power', 'nl') else 1e-9):
                raise Violation('disturbed', 'operation %d (%s) gives another result (by %.1e) than when nobody watches'
                                % (k, name, d))
            sim.probe('same results')
            sim.probe('bitwise' if d == 0 else 'not bitwise')
            if name == 'run':
                sim.probe('run')
                sim.probe(op['method'])
                sim.probe('silent run', int(bool(op.get('quiet'))))
                sim.probe('drawn run', int(bool(op.get('plot'))))
            sim.probe('timed solve', int(bool(op.get('timing'))))
            sim.probe('silent scan', int(name == 'scan' and bool(op.get('quiet'))))
    sim.probe('nonlinear', int(bool(prog['ops'][0]['design']['nl'])))
