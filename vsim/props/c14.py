"""C14: mode sources depend only on their definition and the structure."""
import copy

import numpy as np

from vsim import modes, world
from vsim.kernel import Violation
from vsim.lab import attempt, retry

QUICK = 260
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = {'eigs': ['mem', 'noconv', 'int'], 'deepcopy': ['mem', 'int'], 'assemble': ['mem', 'int'],
          'factor': ['mem', 'err', 'int', 'silent'], 'solve': ['mem', 'err', 'int', 'silent'],
          'spsolve': ['mem', 'err', 'int', 'silent']}
PROBES = ['set up', 'profile', 'power', 'x', 'y', 'Ez', 'Hz', 'higher order', 'several modes', 'overlapping modes',
          'set up again', 'after other sources', 'after a structure', 'after a frequency', 'after a scale',
          'after a failure', 'failed set-up', 'partly set up', 'other simulation', 'one mode alone', 'fresh twin']


def gen(rng, k):
    p = world.gen_problem(rng)
    ms = modes.gen_modes(rng, p)
    ops = [{'op': 'new', 'prob': p, 'modes': ms}]
    for _ in range(rng.randrange(3, 9)):
        o = rng.choice(['setup', 'setup', 'setup', 'src', 'eps', 'omega', 'scale', 'add', 'one', 'fork', 'solve', 'zero',
                        'twin'])
        op = {'op': o, 'seed': rng.randrange(10**6), 'f': rng.choice([0.5, 0.97, 1.03, 2.0])}
        if o == 'add':
            op['mode'] = modes.gen_mode(rng, p)
        if o == 'eps':
            op['eps'] = dict(p['eps'], seed=rng.randrange(10**6), eps_m=rng.choice([3.0, 6.0, 10.0]),
                             kind=rng.choice([p['eps']['kind'], p['eps']['kind'], 'cross']))
        ops.append(op)
    ops.append({'op': 'setup'})
    return {'ops': ops}


class State:
    pass


def check_source(sim, w, src, before, upto, first=0):
    """Is src what the source was, with modes first..upto-1 written over it?"""
    owner = -np.ones(w.eps.shape, dtype=int)
    for i in range(first, upto):
        owner[modes.line(w.modes[i])] = i
    rest = owner < 0
    if np.any(src[rest] != before[rest]):
        return 'the source changed outside of the lines of its modes'
    for i in range(first, upto):
        mine = owner == i
        if not mine.any():
            continue
        want = profile(w, w.modes[i])
        if want is None:
            continue
        full = np.zeros(w.eps.shape)
        full[modes.line(w.modes[i])] = want
        if not modes.off_by(src, full, mine) <= 2e-5:
            return 'mode %d is not the guided mode of its line (off by %.1e)' % (i, modes.off_by(src, full, mine))
        sim.probe('profile')
    return None


def profile(w, m):
    key = world_key(w, m)
    if key not in w.profiles:
        w.profiles[key] = modes.profile(m, w.eps, w.spec, w.omega)
    return w.profiles[key]


def world_key(w, m):
    return (w.version, repr(sorted(m.items())))


def check_power(sim, w, W, m):
    """None if the recorded power is that of this mode"""
    key = ('W',) + world_key(w, m)
    if key not in w.profiles:
        w.profiles[key] = modes.power(m, w.eps, w.spec, w.omega)
    if w.profiles[key] is None:
        return None
    want, scale = w.profiles[key]
    if not abs(W - want) <= 2e-6*scale:
        return 'the recorded power is %.8e, the mode alone carries %.8e' % (W, want)
    sim.probe('power')
    return None


def snapshot(real):
    return {'eps': np.array(real.eps_r), 'omega': real.omega, 'src': np.array(real.src), 'W': getattr(real, 'W_in', None),
            'fields': {k: v for k, v in real.fields.items()}, 'n': len(real.modes),
            'modes': [sorted((k, repr(v)) for k, v in vars(m).items()) for m in real.modes]}


def unchanged(a, b, what):
    if not np.array_equal(a['eps'], b['eps']) or a['omega'] != b['omega']:
        raise Violation('disturbed', '%s changed the structure' % what)
    if a['modes'] != b['modes']:
        raise Violation('disturbed', '%s changed the modes' % what)
    if any(a['fields'][k] is not b['fields'][k] for k in a['fields']):
        raise Violation('disturbed', '%s changed the stored fields' % what)


def setup(sim, w, real, which=None):
    """Sets up all modes, or one of them, and checks the result"""
    before = snapshot(real)
    if which is None:
        st, _ = attempt(sim, real.setup_modes)
        first, last = 0, len(w.modes)
    else:
        st, _ = attempt(sim, real.modes[which].setup_src, real)
        first, last = which, which + 1
    with sim.oracle():
        after = snapshot(real)
        unchanged(before, after, 'setting up modes')
        src = after['src']
        if st == 'ok':
            error = check_source(sim, w, src, before['src'], last, first)
            if error:
                raise Violation('source', 'after setting up: ' + error)
            error = check_power(sim, w, after['W'], w.modes[last - 1])
            if error:
                raise Violation('power', error)
            sim.probe('set up')
            for m in w.modes[first:last]:
                sim.probe(m['dir'])
                sim.probe('higher order', int(m['order'] > 1))
            sim.probe(w.spec['pol'])
            sim.probe('several modes', int(len(w.modes) > 1))
            lines = [set(np.flatnonzero(mask(w, m))) for m in w.modes]
            sim.probe('overlapping modes', int(any(a & b for i, a in enumerate(lines) for b in lines[:i])))
            if w.change:
                sim.probe('after ' + w.change)
            w.change = None
            # it is a function of the mode, the structure and the frequency: always the same numbers
            if which is None:
                key = (w.version, tuple(repr(sorted(m.items())) for m in w.modes))
                mine = np.zeros(w.eps.shape, dtype=bool)
                for m in w.modes:
                    mine |= mask(w, m)
                got = np.where(mine, src, 0)
                if key in w.results:
                    if not np.array_equal(got, w.results[key][0]):
                        raise Violation('again', 'setting up the same modes again gave another source (off by %.1e)'
                                        % np.max(np.abs(got - w.results[key][0])))
                    if not abs(after['W'] - w.results[key][1]) <= 1e-9*max(abs(after['W']), 1e-300):
                        raise Violation('again', 'setting up the same modes again recorded another power')
                    sim.probe('set up again')
                w.results[key] = (got, after['W'])
            return st
        sim.probe('failed set-up')
        w.change = 'a failure'
        # some of the modes were set up, in order; the others are as before
        why = []
        for j in range(first, last):
            error = check_source(sim, w, src, before['src'], j, first)
            if error is None:
                if j == first:
                    same = after['W'] is before['W'] or after['W'] == before['W']
                    error = None if same else 'the recorded power changed, but no source'
                else:
                    error = check_power(sim, w, after['W'], w.modes[j - 1])
            if error is None:
                if j > first:
                    sim.probe('partly set up')
                return st
            why.append(error)
        raise Violation('failure', 'a failed set-up left a source or power that belong to no number of its modes: %s'
                        % why[-1])


def mask(w, m):
    out = np.zeros(w.eps.shape, dtype=bool)
    out[modes.line(m)] = True
    return out


def execute(sim, prog):
    w = None
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        o = op['op']
        if o == 'new':
            w = State()
            w.spec, w.modes = op['prob'], [dict(m) for m in op['modes']]
            w.eps, w.omega, w.version, w.change = world.build_eps(w.spec), w.spec['omega'], 0, None
            w.profiles, w.results = {}, {}
            with sim.oracle():
                w.real = world.make_sim(w.spec, src=False)
            for m in w.modes:
                modes.add(w.real, m)
        elif w is None:
            continue
        elif o == 'setup':
            setup(sim, w, w.real)
        elif o == 'one':
            setup(sim, w, w.real, op['seed'] % len(w.modes))
            sim.probe('one mode alone')
        elif o == 'src':
            rng = np.random.RandomState(op['seed'])
            i, j = rng.randint(w.eps.shape[0]), rng.randint(w.eps.shape[1])
            w.real.src[i, j] += 3.0*op['f']
            w.change = 'other sources'
        elif o == 'zero':
            w.real.src = np.zeros_like(w.real.src)
        elif o == 'eps':
            w.eps = world.build_eps(w.spec, op['eps'])

            def assign():
                w.real.eps_r = w.eps.copy()
            retry(sim, assign)
            w.version += 1
            w.change = 'a structure'
        elif o == 'omega':
            w.omega = w.omega*(op['f'] if 0.9 < op['f'] < 1.1 else 1.01)
            w.real.omega = w.omega

            def assign_same():
                w.real.eps_r = w.eps.copy()
            retry(sim, assign_same)
            w.version += 1
            w.change = 'a frequency'
        elif o == 'scale':
            i = op['seed'] % len(w.modes)
            w.modes[i]['scale'] *= op['f']
            w.real.modes[i].scale = w.modes[i]['scale']
            w.change = 'a scale'
        elif o == 'add' and len(w.modes) < 4:
            w.modes.append(dict(op['mode']))
            modes.add(w.real, op['mode'])
        elif o == 'fork':
            # setting up the modes of a copy does nothing to the original
            st, other = attempt(sim, copy.deepcopy, w.real)
            if st == 'ok':
                before = snapshot(w.real)
                other.src[...] = 0
                setup(sim, w, other)
                with sim.oracle():
                    after = snapshot(w.real)
                    unchanged(before, after, 'setting up the modes of another simulation')
                    if not np.array_equal(before['src'], after['src']) or before['W'] != after['W']:
                        raise Violation('disturbed', 'setting up the modes of another simulation changed this one')
                sim.probe('other simulation')
        elif o == 'solve':
            attempt(sim, w.real.solve_fields)
        elif o == 'twin':
            # a fresh script with the same structure
            with sim.oracle():
                from angler import Simulation
                twin = Simulation(w.omega, w.eps.copy(), w.spec['dl'], list(w.spec['npml']), w.spec['pol'],
                                  L0=w.spec['L0'])
                for m in w.modes:
                    modes.add(twin, m)
            setup(sim, w, twin)
            sim.probe('fresh twin')
