"""C16: a saved device survives crashes and loads as it was saved."""
import gc
import importlib.util
import os
import sys
import types

import numpy as np

from vsim import modes, optlab, runner, world
from vsim.kernel import Violation
from vsim.lab import attempt
from vsim.stubs import dill

QUICK = 72
THOROUGH = 200000
VARIANTS = 3
SCIPY = 0.1
FAULTS = dict(optlab.FAULTS, deepcopy=['mem', 'int'], eigs=['mem', 'int'],
              dump=['mem', 'err', 'int', 'crash'], open=['io', 'crash-after'],
              write=['io', 'full', 'int', 'crash', 'crash-after'], fs=['io', 'int', 'crash', 'crash-after'])
FOCUS = ['dump', 'open', 'write', 'fs']        # where faults matter most
PROBES = ['saved', 'saved again', 'save failed', 'killed while saving', 'loaded', 'loaded after a crash',
          'loaded after a failed save', 'loaded while saving', 'the save under way had completed', 'device made',
          'originals changed', 'parameters', 'two_port', 'three_port', 'ortho_port', 'data generated',
          'generating data failed', 'making a device failed', 'several names', 'through a link', 'relative name',
          'loaded device computes', 'used after loading', 'save without data', 'other files']
ASSUMPTIONS = ['dill is not installed here: a stub pickles functions by value, everything else is Python\'s pickle.',
               'A kill keeps what the process had handed to the operating system and loses what it had not.']
STUBS = ['dill (pickles functions by value)', 'process kills (what unwinds afterwards does not reach the disk)']


def gen(rng, k):
    ops = [gen_script(rng)]
    ops[0]['others'] = sorted(rng.sample(OTHERS, rng.choice([0, 2, 5])))
    names = ['a.p'] if rng.random() < 0.5 else ['a.p', 'sub/b.p', 'link.p']
    for _ in range(rng.randrange(3, 8)):
        o = rng.choice(['save', 'save', 'save', 'load', 'change', 'data', 'device', 'use'])
        op = {'op': o, 'seed': rng.randrange(10**6), 'name': rng.choice(names), 'relative': rng.random() < 0.3,
              'watch': rng.random() < 0.4}
        ops.append(op)
        if o == 'device' and rng.random() < 0.4:
            ops.append(gen_script(rng))
    ops.append({'op': 'save', 'seed': 1, 'name': 'a.p', 'relative': False, 'watch': True})
    return {'ops': ops}


def gen_script(rng):
    p = world.gen_problem(rng, pol='Ez', periodic=0.1)
    for k in range(2):
        p['npml'][k] = p['npml'][k] or 4
        p['shape'][k] = max(p['shape'][k], 2*p['npml'][k] + 13)
    ms = modes.gen_modes(rng, p, n=1, order=False)
    d = world.gen_design(rng, p, filt=0.2, nl=1.0)
    p['eps'] = {'kind': rng.choice(['wg', 'cross']), 'eps_m': d['eps_m'], 'seed': rng.randrange(10**6)}
    for n in d['nl']:
        n['shift'] = 1e-3
    return {'op': 'script', 'prob': p, 'design': d, 'modes': ms,
            'type': rng.choice(['two_port', 'three_port', 'ortho_port']), 'data': rng.random() < 0.6,
            'params': rng.random() < 0.9, 'ran': rng.random() < 0.4}


# ------------------------------------------------------------------------------------------

def saver():
    """The module that saves devices, as a user's script imports it"""
    sys.modules['dill'] = dill
    path = os.path.join(runner.REPO, 'data', 'device_saver.py')
    spec = importlib.util.spec_from_file_location('device_saver', path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['device_saver'] = mod
    spec.loader.exec_module(mod)
    return mod


def same(a, b, seen=None):
    """Are two object graphs equal?"""
    seen = {} if seen is None else seen
    if a is b:
        return True
    key = (id(a), id(b))
    if key in seen:
        return True
    seen[key] = True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype
                and (all(same(x, y, seen) for x, y in zip(a.ravel(), b.ravel())) if a.dtype == object
                     else a.tobytes() == b.tobytes()))
    if type(a) is not type(b):
        if type(a).__name__ != type(b).__name__:
            return False
    if hasattr(a, 'tocsr'):
        return a.shape == b.shape and a.dtype == b.dtype and (a != b).nnz == 0
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], seen) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, seen) for x, y in zip(a, b))
    if isinstance(a, types.FunctionType):
        cells = a.__closure__ or (), b.__closure__ or ()
        if len(cells[0]) != len(cells[1]):
            return False
        for x, y in zip(*cells):
            if not same(x.cell_contents, y.cell_contents, seen):
                return False
        return a.__code__.co_code == b.__code__.co_code and same(a.__defaults__, b.__defaults__, seen)
    if hasattr(a, '__dict__') and not isinstance(a, (type, types.ModuleType)):
        return same(vars(a), vars(b), seen)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def differing(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k]))


class Script:
    """What a user's script has in memory"""

    def __init__(self, sim, mod, op):
        self.op, self.spec, self.d = op, op['prob'], op['design']
        with sim.oracle():
            self.real, self.opt = self.build()
            if op['ran']:
                self.opt.run(method='GD', Nsteps=1, step_size=1e-3)
            self.frozen = dill.dumps((self.real, self.opt))
        self.device = None
        self.data = False

    def build(self):
        from angler import Simulation, Optimization
        s, d = self.spec, self.d
        real = Simulation(s['omega'], world.initial_eps(s, d), s['dl'], list(s['npml']), s['pol'], L0=s['L0'])
        modes.add(real, self.op['modes'][0])
        real.setup_modes()
        ref = world.make_ref(s, eps=np.array(real.eps_r))
        f = ref.fields(np.array(real.src, dtype=complex))['Ez']
        self.scales = [1.0/max(np.sqrt(np.mean(np.abs(f)**2)), 1e-300) for _ in d['obj']['args']]
        for n in d['nl']:
            m = world.region(s, n['rect'])
            peak = np.max(np.abs(f*m)**2)
            real.add_nl(n['shift']/(3*peak)*s['L0']**2 if peak > 0 else 0.0, m, nl_type='kerr', eps_scale=n['scale'],
                        eps_max=d['eps_m'] if n['scale'] else None)
        _, opt, _ = world.make_optimization(s, d, sim=real, scales=self.scales)
        return real, opt

    def lengths(self):
        """Geometry with which the probes sit inside the simulation"""
        s = self.spec
        dl = s['dl']
        return {'L': 5*dl, 'H': 6.2*dl, 'w': 2*dl, 'd': 2.2*dl, 'l': 4.2*dl, 'spc': 2*dl, 'L2': 5*dl, 'H2': 6*dl}

    def geometry(self):
        g, s = self.lengths(), self.spec
        tail = [s['dl'], list(s['npml']), 1.5]
        if self.op['type'] == 'three_port':
            return [g['L'], g['H'], g['w'], g['d'], g['l'], g['spc']] + tail
        if self.op['type'] == 'two_port':
            return [g['L'], g['H'], g['w'], g['l'], g['spc']] + tail
        return [g['L'], g['L2'], g['H'], g['H2'], g['w'], g['l']] + tail

    def lines(self):
        """name -> the line through which it is the power"""
        s = self.spec
        (Nx, Ny), (a, b) = s['shape'], s['npml']
        if self.op['type'] == 'two_port':
            return {'W_out': ('x', [-a - 2, Ny//2], Ny//2), 'W_in': ('x', [a + 2, Ny//2], Ny//2)}
        if self.op['type'] == 'three_port':
            return {'W_top': ('x', [-a - 2, Ny//2 + 1], 3), 'W_bot': ('x', [-a - 2, Ny//2 - 1], 3)}
        return {'W_right': ('x', [-a - 2, Ny//2], 3), 'W_top': ('y', [Nx//2, -b - 2], 3)}


def make_device(sim, mod, s):
    s.data, s.device = False, None
    before = dill_state(sim, (s.real, s.opt))
    st, dev = attempt(sim, mod.Device, s.real, s.opt)
    with sim.oracle():
        if differing_pair(before, (s.real, s.opt)):
            raise Violation('originals', 'making a device changed the script\'s %s' % differing_pair(before, (s.real, s.opt)))
        if st != 'ok':
            sim.probe('making a device failed')
            return st
        s.device = dev
        s.made = dill.loads(before)
        # the fields of the structure
        want = world.make_ref(s.spec, eps=np.array(s.real.eps_r)).fields(np.array(s.real.src, dtype=complex))['Ez']
        if world.rel(dev.Ez, want) > 3e-6:
            raise Violation('content', 'the device holds other linear fields than its structure has')
        check_device(s, 'a new device')
        sim.probe('device made')
    if s.op['params']:
        p = s.spec
        dev.set_parameters(2*np.pi*3e8/p['omega'], p['dl'], list(p['npml']), 1e-18, s.d['eps_m'], 1.0)
        sim.probe('parameters')
    dev.set_geometry(s.op['type'], *s.geometry())
    return 'ok'


def dill_state(sim, objects):
    with sim.oracle():
        return dill.dumps(objects)


def differing_pair(frozen, now):
    a = dill.loads(frozen)
    return ['%s.%s' % (n, k) for n, x, y in zip(('simulation', 'optimization'), a, now)
            for k in differing(vars(x), vars(y))]


def check_device(s, what):
    """The device holds the script's objects as they were when it was made"""
    dev = s.device
    real, opt = s.made
    for name in ('eps_r', 'src', 'rho'):
        x, y = getattr(dev.simulation, name, None), getattr(real, name, None)
        if not same(None if x is None else np.asarray(x), None if y is None else np.asarray(y)):
            raise Violation('content', '%s has another %s than the simulation had when it was made' % (what, name))
    if not same(list(opt.objfn_list), list(dev.optimization.objfn_list)):
        raise Violation('content', '%s has another record than the optimization had when it was made' % what)
    if not same(np.asarray(dev.optimization.simulation.eps_r), np.asarray(opt.simulation.eps_r)):
        raise Violation('content', '%s has an optimization of another design than the one it was made with' % what)


def generate(sim, s):
    import matplotlib.pyplot as plt
    dev = s.device
    st, _ = attempt(sim, dev.generate_data, Nf=3, Np=2, s_min=0.1, s_max=0.5)
    with sim.oracle():
        plt.close('all')
        check_device(s, 'a device with data')
        if st != 'ok':
            sim.probe('generating data failed')
            if dev.is_data_generated and not s.data:
                raise Violation('data', 'generating data failed, the device says that it has them')
            return st
        s.data = True
        if not dev.is_data_generated:
            raise Violation('data', 'the device has data and says that it has none')
        check_data(sim, s)
        sim.probe('data generated')
        sim.probe(s.op['type'])
    return st


def near(a, b, scale, tol=1e-5):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol*scale))


def check_data(sim, s):
    """What a script computes from the same structure by itself"""
    dev = s.device
    real, opt = dill.loads(dill.dumps(s.made))
    real.solve_fields()
    conv = real.solve_fields_nl()[-1]
    if not abs(conv[-1]) <= 1e-8:
        return
    lines = s.lines()
    f = real.fields
    scale = s.spec['dl']*np.sum(np.abs(f['Ez'])*(np.abs(f['Hx']) + np.abs(f['Hy'])))/np.sqrt(f['Ez'].size)
    for nl in (False, True):
        for name, (d, c, w) in lines.items():
            want = real.flux_probe(d, list(c), w, nl=nl)
            got = getattr(dev, name + ('_nl' if nl else '_lin'))
            if not near(got, want, scale):
                raise Violation('data', 'the device reports %s_%s = %.6e, its structure has %.6e'
                                % (name, 'nl' if nl else 'lin', got, want))
    if not near(dev.W_in, real.W_in, abs(real.W_in)):
        raise Violation('data', 'the device reports an input power of %.6e, its mode has %.6e' % (dev.W_in, real.W_in))
    # a source without power makes ratios of rounding errors
    if abs(real.W_in) > 1e-6*scale:
        a = {n: [getattr(dev, n + x)/dev.W_in for x in ('_lin', '_nl')] for n in lines}
        if s.op['type'] == 'two_port':
            ok = near([dev.T_lin, dev.T_nl], a['W_out'], max(np.abs(a['W_out'])))
        elif s.op['type'] == 'three_port':
            ok = near(dev.S, [a['W_top'], a['W_bot']], np.max(np.abs([a['W_top'], a['W_bot']])))
        else:
            ok = near(dev.S, np.transpose([a['W_top'], a['W_right']]), np.max(np.abs([a['W_top'], a['W_right']])))
        if not ok:
            raise Violation('data', 'the transmissions that the device reports are not those of its powers')
    dn = real.compute_index_shift()
    if not near(dev.index_shift, dn, max(np.max(dn), 1e-9), 1e-4):
        raise Violation('data', 'the device reports an index shift of %.4e, its structure has %.4e'
                        % (np.max(dev.index_shift), np.max(dn)))
    freqs, objs, width = opt.scan_frequency(Nf=3, df=1/400, pbar=False)
    if not near(dev.freqs, freqs, freqs[0], 1e-9) or not near(dev.objs, objs, max(1.0, np.max(np.abs(objs))), 5e-5):
        raise Violation('data', 'the device reports the frequency scan %s, its structure has %s' % (dev.objs, objs))
    half = np.max(objs)/2
    if np.min(np.abs(np.asarray(objs) - half)) > 1e-3*abs(half) and s.op['params']:
        q = s.spec['omega']/2/np.pi/width if width else np.inf
        if not near(dev.FWHM, width, freqs[0], 1e-9) or not (dev.Q == q or near(dev.Q, q, abs(q))):
            raise Violation('data', 'the device reports a width of %s and a quality of %s, its scan has %s and %s'
                            % (dev.FWHM, dev.Q, width, q))
    outs = [lines[n] for n in (['W_out'] if s.op['type'] == 'two_port' else lines)]
    # the order in which the device lists its ports
    order = {'two_port': ['W_out'], 'three_port': ['W_top', 'W_bot'], 'ortho_port': ['W_right', 'W_top']}[s.op['type']]
    outs = [lines[n] for n in order]
    probes = [lambda x, p=p: x.flux_probe(p[0], list(p[1]), p[2], nl=True) for p in outs]
    powers, trans = opt.scan_power(probes=probes, Ns=2, s_min=0.1, s_max=0.5, solver='hybrid')
    if abs(real.W_in) > 1e-6*scale:
        big = max(1.0, np.max(np.abs(trans)))
        if not near(dev.powers, powers, np.max(np.abs(powers))) or not near(dev.transmissions, trans, big):
            raise Violation('data', 'the device reports the power scan %s, its structure has %s' % (dev.transmissions, trans))


# ------------------------------------------------------------------------------------------

class Disk:
    """What must be found under each name"""

    def __init__(self):
        self.others = {}    # files of the user's that are none of the saves
        self.saved = {}     # name -> state of the last save that completed
        self.maybe = {}     # name -> states of saves that began after it


def path_of(sim, op):
    return op['name'] if op['relative'] else os.path.join(sim.scratch, op['name'])


OTHERS = ['a', 'a.p.bak', 'a.p2', 'a.p~', 'xa.p', '.a.p', 'a.p.old', 'sub/b.p.1', 'sub/b', 'sub/a.p', 'elsewhere/c.p.bak', 'notes.txt']


def others(sim, disk, when):
    """Files that were there before are as they were"""
    for n in sorted(disk.others):
        try:
            with open(os.path.join(sim.scratch, n), 'rb') as f:
                ok = f.read() == disk.others[n]
        except OSError:
            ok = False
        if not ok:
            raise Violation('files', '%s, which is no saved device, is lost or changed %s' % (n, when))
    sim.probe('other files', int(bool(disk.others)))


def examine(sim, mod, disk, name, when, compute=False):
    """Another process loads the name"""
    others(sim, disk, when)
    if name not in disk.saved:
        return
    try:
        got = mod.load_device(os.path.join(sim.scratch, name))
        got = dict(zip(got._fields, got))
    except Exception as e:
        raise Violation('lost', '%s cannot be loaded %s: %s: %s' % (name, when, type(e).__name__, e))
    states = [disk.saved[name]] + disk.maybe.get(name, [])
    found = []
    for i, st in enumerate(states):
        diff = differing(dill.loads(st), got)
        if not diff:
            break
        found.append(diff)
    else:
        raise Violation('content', '%s holds another device %s than was saved: differs in %s' % (name, when, found[0]))
    sim.probe('loaded')
    if i > 0:
        sim.probe('the save under way had completed')
    if compute:
        real = got['simulation']
        want = real.fields['Ez'].copy()
        if world.rel(real.solve_fields()[2], want) > 1e-9:
            raise Violation('content', 'the simulation of a loaded device has other fields than were saved')
        a = dill.loads(states[i])
        x = a['optimization'].compute_J(a['optimization'].simulation)
        y = got['optimization'].compute_J(got['optimization'].simulation)
        if not abs(x - y) <= 1e-9*max(abs(x), 1.0):
            raise Violation('content', 'the optimization of a loaded device has the objective %r, %r when saved' % (y, x))
        sim.probe('loaded device computes')
    return got


def save(sim, mod, s, disk, op):
    name = op['name']
    if s.device is None:
        return 'ok'
    with sim.oracle():
        state = dill.dumps(dict(vars(s.device)))
    disk.maybe.setdefault(name, []).append(state)

    def watch():
        with sim.oracle():
            for n in sorted(disk.saved):
                examine(sim, mod, disk, n, 'while %s is saved' % name)
            sim.probe('loaded while saving', int(bool(disk.saved)))
    sim.disk_observer = watch if op['watch'] else None
    try:
        st, err = attempt(sim, s.device.save, path_of(sim, op))
    finally:
        sim.disk_observer = None
    err = None
    if st == 'crash':
        sim.probe('killed while saving')
        return st
    with sim.oracle():
        if differing(dill.loads(state), vars(s.device)):
            raise Violation('content', 'saving changed the device\'s %s' % differing(dill.loads(state), vars(s.device)))
        sim.probe('save without data', int(not s.data))
        sim.probe('relative name', int(op['relative']))
        if st == 'ok':
            sim.probe('saved again' if name in disk.saved else 'saved')
            disk.saved[name], disk.maybe[name] = state, []
            examine(sim, mod, disk, name, 'after saving it')
        else:
            sim.probe('save failed')
            sim.probe('loaded after a failed save', len(disk.saved))
        for n in sorted(disk.saved):
            if n != name or st != 'ok':
                examine(sim, mod, disk, n, 'after %s %s' % ('saving' if st == 'ok' else 'failing to save', name))
        sim.probe('several names', int(len(disk.saved) > 1))
        sim.probe('through a link', int(name == 'link.p' and st == 'ok'))
        if name == 'link.p' and not os.path.islink(os.path.join(sim.scratch, name)):
            raise Violation('content', 'saving through a link replaced the link')
    return st


def change(sim, s, op):
    """The script goes on with its simulation and optimization"""
    r = np.random.RandomState(op['seed'])
    what = r.randint(4)
    if what == 0:
        s.real.src *= 0.5
    elif what == 1:
        eps = np.array(s.real.eps_r)
        eps[s.spec['shape'][0]//2, :] += 0.5
        attempt(sim, setattr, s.real, 'eps_r', eps)
    elif what == 2:
        attempt(sim, s.opt.run, method='GD', Nsteps=2, step_size=1e-3)
    else:
        s.opt.objfn_list.append(0.0)
        s.real.rho = np.array(s.real.eps_r)*0 + 0.5
    sim.probe('originals changed', int(s.device is not None))
    if s.device is not None:
        with sim.oracle():
            check_device(s, 'a device whose originals were changed')


def use(sim, mod, s, disk, op):
    """Goes on with a device that was loaded"""
    name = op['name']
    if name not in disk.saved:
        return
    with sim.oracle():
        got = examine(sim, mod, disk, name, 'later')
    attempt(sim, got['simulation'].solve_fields)
    got['simulation'].src[...] = 0
    got['simulation'].fields['Ez'] = None
    with sim.oracle():
        examine(sim, mod, disk, name, 'after a loaded copy was changed')
        sim.probe('used after loading')


def execute(sim, prog):
    mod = saver()
    disk = Disk()
    s, script, k0 = None, None, None
    os.chdir(sim.scratch)
    with sim.oracle():
        os.makedirs('sub')
        os.makedirs('elsewhere')
        os.symlink(os.path.join('elsewhere', 'c.p'), 'link.p')
        for n in prog['ops'][0].get('others', ()):
            disk.others[n] = ('contents of ' + n).encode()
            with open(n, 'wb') as f:
                f.write(disk.others[n])
    for k, op in enumerate(prog['ops']):
        sim.begin(k, op['op'])
        o = op['op']
        st = 'ok'
        if o == 'script':
            script = op
        if o == 'script' or s is None and script is not None:
            # (a killed process is started again)
            s = Script(sim, mod, script)
            st = make_device(sim, mod, s)
            if st == 'ok' and script['data'] and script['params']:
                st = generate(sim, s)
            if o == 'script' or st == 'crash':
                continue
        if s is None:
            continue
        if o == 'device':
            st = make_device(sim, mod, s)
        elif o == 'data' and s.device is not None and s.op['params']:
            st = generate(sim, s)
        elif o == 'change':
            change(sim, s, op)
        elif o == 'save':
            st = save(sim, mod, s, disk, op)
        elif o == 'load':
            with sim.oracle():
                examine(sim, mod, disk, op['name'], 'later', compute=True)
        elif o == 'use':
            use(sim, mod, s, disk, op)
        if st == 'crash':
            s = None
            with sim.oracle():
                gc.collect()
                sim.restart()
                for n in sorted(disk.saved):
                    examine(sim, mod, disk, n, 'after the process was killed', compute=True)
                    sim.probe('loaded after a crash')
    sim.begin(len(prog['ops']), 'final')
    sim.faults = []
    if s is None:
        s = Script(sim, mod, script)
        make_device(sim, mod, s)
    if s.device is None:
        make_device(sim, mod, s)
    # once faults stop, saving works
    for name in ('a.p', 'sub/b.p'):
        save(sim, mod, s, disk, {'name': name, 'relative': False, 'watch': False})
    with sim.oracle():
        for n in sorted(disk.saved):
            examine(sim, mod, disk, n, 'at the end', compute=True)
