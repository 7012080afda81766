"""C09: gradient ascent and Adam follow their update rules, also across restarts."""
import numpy as np

from vsim import optlab, world
from vsim.kernel import Violation
from vsim.lab import attempt

QUICK = 170
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = dict(optlab.FAULTS)
PROBES = ['gd', 'adam', 'clipped at zero', 'clipped at one', 'filter', 'projection', 'nonlinear', 'run failed',
          'interrupted between update and record', 'resumed', 'resumed gradient ascent matches', 'other moments',
          'other work in between', 'stopped and continued', 'observed designs', 'record checked across a restart',
          'continued from a copy', 'continued from the saved permittivity']
TOL = 1e-4


def gen(rng, k):
    ops = [optlab.gen_problem(rng, filt=0.3, nl=0.2)]
    if rng.random() < 0.2:
        # a projection so steep that most pixels do not matter any more
        ops[0]['design'].update(beta=rng.choice([30.0, 100.0]), init='half')
    method = rng.choice(['GD', 'GD', 'gd', 'ADAM', 'adam'])
    total = rng.choice([2, 3, 4, 5])
    op = {'method': method, 'step': rng.choice([0.02, 0.1, 0.5, 3.0]), 'total': total}
    if rng.random() < 0.4:
        op['beta1'], op['beta2'] = rng.choice([0.5, 0.0, 0.95]), rng.choice([0.9, 0.99])
    # one optimisation in one or more runs, with other work in between, and again if a run is interrupted
    left = total
    while left > 0:
        n = left if rng.random() < 0.5 else rng.randrange(1, left + 1)
        ops.append(dict(op, op='run', n=n))
        left -= n
        if rng.random() < 0.3:
            ops.append({'op': rng.choice(['other', 'scan', 'deriv', 'shift']), 'seed': rng.randrange(10**6)})
        if left > 0 and rng.random() < 0.4:
            ops.append({'op': 'checkpoint', 'how': rng.choice(['copy', 'permittivity'])})
    ops.append({'op': 'finish'})
    return {'ops': ops}


def advance(sim, s, st, op, t, n, kw):
    """Checks one run of n iterations against its update rule; returns how many updates were made"""
    recorded = t['objs'][t['n0']:]
    if len(recorded) > n or st == 'ok' and len(recorded) != n:
        raise Violation('count', 'a run of %d iterations recorded %d' % (n, len(recorded)))
    final = s.design()
    actual = s.designs(t['start'], len(recorded))
    slack = []
    want = s.trajectory(op['method'], t['start'], n, t['step_size'], actual=actual, slack=slack, **kw)
    for k, rho in enumerate(actual):
        if k and not s.settles(actual[k - 1]):
            return None         # fields that did not converge have no reproducible gradient
        off = optlab.off_by(rho, want[k], slack[k])
        if not off <= TOL:
            raise Violation('step', 'design %d of a run of %s is not the one its update rule gives (off by %.1e)'
                            % (k, op['method'], off))
        sim.probe('observed designs')
    for w in want[1:len(actual)]:
        sim.probe('clipped at one', int(np.any(w[s.region] >= 1)))
        sim.probe('clipped at zero', int(np.any(w[s.region] <= 0)))
    if not all(s.settles(r) for r in actual):
        return None
    if st == 'ok' and optlab.off_by(final, want[n], slack[n]) > TOL:
        raise Violation('step', 'after %d iterations of %s the design is off by %.1e from what the update rule '
                        'gives' % (n, op['method'], optlab.off_by(final, want[n], slack[n])))
    for k, J in enumerate(recorded):
        if k < len(actual):
            s.check_J(J, actual[k], 'record',                      'entry %d recorded by %s' % (k, op['method']))
    if st == 'ok':
        return n
    done = max(len(recorded) - 1, 0)
    for d in (done, done + 1):
        if d <= len(recorded) and optlab.off_by(final, want[d], slack[d]) <= TOL:
            if d == len(recorded) and d > 0:
                sim.probe('interrupted between update and record')
            return d
    raise Violation('step', '%s was interrupted in iteration %d and left a design that is neither the one before '
                    'nor the one after its step' % (op['method'], len(recorded)))


def one_run(sim, s, op, n, state):
    method = op['method'].lower()
    kw = {}
    if 'beta1' in op and method == 'adam':
        kw = {'beta1': op['beta1'], 'beta2': op['beta2']}
        sim.probe('other moments')
    if 'step_size' not in state:
        state['step_size'] = op['step'] if method == 'adam' else s.step_size(op['step'])
        state['start'] = s.start()
        state['done'] = 0
        state['gd'] = None
    t = {'start': s.start(), 'n0': len(s.opt.objfn_list), 'step_size': state['step_size']}
    st, _ = s.run(method=op['method'], Nsteps=n, step_size=state['step_size'], **kw)
    with sim.oracle():
        sim.probe(method)
        if st != 'ok':
            sim.probe('run failed')
            if getattr(s.real, 'rho', None) is None:
                return st, 0
        t['objs'] = list(s.opt.objfn_list)
        done = advance(sim, s, st, op, t, n, kw)
        if done is None:
            state['unsettled'] = True
            return st, n
        return st, done


def execute(sim, prog):
    s, state, op = None, {}, None
    for k, o in enumerate(prog['ops']):
        sim.begin(k, o['op'])
        if o['op'] == 'new':
            s = optlab.Session(sim, o)
            sim.probe('filter', bool(s.d['R']))
            sim.probe('projection', s.d['beta'] > 1e-6)
            sim.probe('nonlinear', bool(s.d['nl']))
            state, op = {}, None
            continue
        if s is None:
            continue
        if o['op'] == 'run':
            if op is not None:
                sim.probe('stopped and continued')
            op = o
            left = o['n']
            while left > 0:
                st, done = one_run(sim, s, o, left, state)
                if state.get('unsettled'):
                    break
                left -= done
                state['done'] += done
                if left > 0:
                    # interrupted: the user runs the remaining iterations
                    sim.probe('resumed')
                elif st != 'ok':
                    break
        elif o['op'] == 'finish' and op is not None and not state.get('unsettled'):
            finish(sim, s, op, state)
        elif o['op'] == 'checkpoint':
            checkpoint(sim, s, o)
        elif getattr(s.real, 'rho', None) is not None:
            other(sim, s, o)


def checkpoint(sim, s, o):
    """Another process goes on from what this one has kept"""
    import copy
    from angler import Simulation
    with sim.oracle():
        if o['how'] == 'copy':
            s.real, s.opt = copy.deepcopy((s.real, s.opt))
            sim.probe('continued from a copy')
        elif not s.d['R'] and s.d['beta'] < 1e-6 and getattr(s.real, 'rho', None) is not None:
            old, spec = s.opt, s.spec
            real = Simulation(spec['omega'], np.array(s.real.eps_r), spec['dl'], list(spec['npml']), spec['pol'],
                              L0=spec['L0'])
            real.src = np.array(s.real.src)
            world.add_nl(real, spec, world.nl_list(spec, s.d['nl'], s.d['eps_m']))
            s.real, s.opt, s.scales = world.make_optimization(spec, s.d, sim=real, scales=s.scales)
            s.opt.objfn_list = list(old.objfn_list)
            s.opt.src_amplitudes = list(old.src_amplitudes)
            sim.probe('continued from the saved permittivity')


def other(sim, s, o):
    """Work that is no part of the optimisation"""
    import copy
    sim.probe('other work in between')
    if o['op'] == 'other':
        clone = copy.deepcopy(s.real) if not sim.faults else None
        if clone is not None:
            clone.src *= 0.5
            clone.eps_r = np.clip(np.real(clone.eps_r)*0.9, 1, None)
            attempt(sim, s.opt.compute_J, clone)
            attempt(sim, s.opt.compute_dJ, clone, s.opt.design_region)
    elif o['op'] == 'scan':
        attempt(sim, s.opt.scan_frequency, Nf=3, df=0.02, pbar=False)
    elif o['op'] == 'deriv':
        np.random.seed(o['seed'])
        attempt(sim, s.opt.check_deriv, Npts=1)
    elif o['op'] == 'shift' and s.real.nonlinearity:
        attempt(sim, s.real.compute_index_shift)


def finish(sim, s, op, state):
    """The whole optimisation, in however many runs, against a single uninterrupted one"""
    if op['method'].lower() != 'gd' or not state.get('done'):
        return
    with sim.oracle():
        n = state['done']
        want = s.trajectory('gd', state['start'], n, state['step_size'])
        if not all(s.settles(r) for r in want[:n]):
            return
        if not optlab.close_design(s.design(), want[n], 3*TOL):
            raise Violation('restart', '%d iterations of gradient ascent in several runs end off by %.1e from what one '
                            'run gives' % (n, np.max(np.abs(s.design() - want[n]))))
        sim.probe('resumed gradient ascent matches')
        # the record: every iteration once, and an interrupted one possibly again
        at = {-1}
        for J in s.opt.objfn_list:
            nxt = set()
            for k in at:
                for i in (k, k + 1):
                    if 0 <= i < n:
                        ref = s.J(want[i])
                        if ref is None or abs(J - ref) <= 2e-4*max(abs(ref), 1.0):
                            nxt.add(i)
            if not nxt:
                raise Violation('restart', 'the record of gradient ascent in several runs, %s, is not that of one run, '
                                '%s' % (s.opt.objfn_list, [s.J(w) for w in want[:n]]))
            at = nxt
        sim.probe('record checked across a restart')
