"""C08: the recorded history is that of the designs visited."""
import numpy as np

from vsim import optlab
from vsim.props import c17
from vsim.kernel import Violation

QUICK = 170
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.12
FAULTS = dict(optlab.FAULTS)
PROBES = ['GD', 'ADAM', 'LBFGS', 'appended to an earlier record', 'run failed', 'partial record', 'nonlinear',
          'source edited between runs', 'observed evaluations', 'record read between runs',
          'limit on the index shift', 'source adjusted during a run']


def gen(rng, k):
    ops = [optlab.gen_problem(rng, filt=0.15, nl=0.35)]
    if ops[0]['design']['nl'] and rng.random() < 0.5:
        # the source is then adjusted as the run goes on
        ops[0]['limit'] = rng.choice([1e-5, 1e-4, 1e-3])
        for n in ops[0]['design']['nl']:
            n['shift'] = ops[0]['limit']*rng.choice([0.1, 0.5, 2.0, 10.0])
    for _ in range(rng.randrange(1, 4)):
        o = rng.choice(['run', 'run', 'run', 'run', 'src', 'look', 'objective'])
        op = {'op': o, 'seed': rng.randrange(10**6)}
        if o == 'run':
            op['method'] = rng.choice(['GD', 'GD', 'ADAM', 'LBFGS'])
            op['n'] = rng.choice([1, 2, 3, 5])
            op['step'] = rng.choice([0.01, 0.1, 0.5])
        elif o == 'src':
            op['f'] = rng.choice([0.5, 0.8, 1.2])
            op['how'] = rng.choice(['in place', 'replace'])
        ops.append(op)
    if not any(o['op'] == 'run' for o in ops):
        ops.append({'op': 'run', 'method': 'GD', 'n': 3, 'step': 0.1, 'seed': 1})
    return {'ops': ops}


def execute(sim, prog):
    s = None
    for n, op in enumerate(prog['ops']):
        sim.begin(n, op['op'])
        o = op['op']
        if o == 'new':
            s = optlab.Session(sim, op, max_ind_shift=op.get('limit'))
            s.limit = op.get('limit')
            s.linear = not any(a[1] for a in s.d['obj']['args'])
            if s.d['nl']:
                sim.probe('nonlinear')
        elif s is None:
            continue
        elif o == 'src':
            if op['how'] == 'in place':
                s.real.src *= op['f']
            else:
                s.real.src = s.real.src*op['f']
            sim.probe('source edited between runs')
        elif o == 'look':
            s.opt.compute_J(s.real) if sim.faults == [] and getattr(s.real, 'rho', None) is not None else None
            sim.probe('record read between runs')
        elif o == 'run':
            run(sim, s, op) if s.limit is None else limited(sim, s, op)


def run(sim, s, op):
    method, N = op['method'], op['n']
    objs, amps = list(s.opt.objfn_list), list(s.opt.src_amplitudes)
    rho0 = s.start()
    step = op['step'] if method == 'ADAM' else s.step_size(op['step'])
    src = np.array(s.real.src)
    if objs:
        sim.probe('appended to an earlier record')
    st, _ = s.run(method=method, Nsteps=N, step_size=step)
    with sim.oracle():
        sim.probe(method)
        sim.probe('observed evaluations', len(s.visited))
        if len(s.opt.objfn_list) < len(objs) or any(a is not b and a != b for a, b in zip(s.opt.objfn_list, objs)):
            raise Violation('append', 'a run changed the record of an earlier one')
        if s.opt.src_amplitudes[:len(amps)] != amps:
            raise Violation('append', 'a run changed the source amplitudes recorded by an earlier one')
        if not np.array_equal(np.array(s.real.src), src):
            raise Violation('source', 'a run without a limit on the index shift changed the source')
        new = list(s.opt.objfn_list[len(objs):])
        amp = list(s.opt.src_amplitudes[len(amps):])
        peak = np.max(np.abs(src))
        for k, a in enumerate(amp):
            if not abs(a - peak) <= 1e-6*peak:
                raise Violation('amplitude', 'source amplitude %d is recorded as %g, it was %g' % (k, a, peak))
        if st != 'ok':
            sim.probe('run failed')
            if new:
                sim.probe('partial record')
        if method == 'LBFGS':
            if st == 'ok' and len(amp) != len(new):
                raise Violation('amplitude', '%d objectives and %d source amplitudes were recorded' % (len(new), len(amp)))
            if len(new) > N:
                raise Violation('count', 'L-BFGS recorded %d iterations out of %d' % (len(new), N))
            visited = [s.J(r) for r in s.visited]
            if None in visited:
                return
            for k, J in enumerate(new):
                if not visited or min(abs(J - v)/max(abs(v), 1.0) for v in visited) > 5e-5:
                    raise Violation('record', 'entry %d recorded by L-BFGS, %.8e, is not the objective of any design '
                                    'that it evaluated' % (k, J))
            if st == 'ok' and new:
                s.check_J(new[-1], s.design(), 'record', 'the last entry recorded by L-BFGS')
            if st == 'ok' and not new and not optlab.close_design(s.design(), rho0, 1e-6):
                raise Violation('count', 'L-BFGS moved the design, but recorded no iteration')
            return
        # gradient ascent and Adam: one entry per iteration, in order
        actual = s.designs(rho0, len(new))
        slack = []
        want = s.trajectory(method, rho0, N, step, actual=actual, slack=slack)
        if not all(s.settles(r) for r in want[:N]):
            return
        if st == 'ok':
            if len(new) != N or len(amp) != N:
                raise Violation('count', '%d iterations of %s recorded %d objectives and %d source amplitudes'
                                % (N, method, len(new), len(amp)))
        else:
            if len(new) > N or not len(new) - 1 <= len(amp) <= len(new):
                raise Violation('count', 'an interrupted %s of %d iterations recorded %d objectives and %d source '
                                'amplitudes' % (method, N, len(new), len(amp)))
        for k, J in enumerate(new):
            if np.max(slack[k]) < 1e-6:
                s.check_J(J, want[k], 'record', 'entry %d recorded by %s' % (k, method))
        # the design left behind is the one reached after the last recorded iteration, or before it
        reached = [len(new)] if st == 'ok' else [len(new) - 1, len(new)] if new else [0]
        if not any(optlab.off_by(s.design(), want[k], slack[k]) <= 1e-4 for k in reached):
            raise Violation('count', '%s recorded %d iterations, but left another design than that iteration\'s'
                            % (method, len(new)))


def limited(sim, s, op):
    """A run that keeps to a limit on the index shift by adjusting the source: each entry belongs to the design and
       the source that were evaluated for it"""
    opt, real = s.opt, s.real
    objs, amps = list(opt.objfn_list), list(opt.src_amplitudes)
    trace = []

    def observe():
        trace.append((len(opt.objfn_list) - len(objs), np.array(real.rho), np.array(real.src, dtype=complex)))
    step = op['step'] if op['method'] == 'ADAM' else s.step_size(op['step'])
    st, _ = s.run(observer=observe, method=op['method'], Nsteps=op['n'], step_size=step)
    with sim.oracle():
        sim.probe('limit on the index shift')
        if opt.objfn_list[:len(objs)] != objs or opt.src_amplitudes[:len(amps)] != amps:
            raise Violation('append', 'a run changed the record of an earlier one')
        new, amp = opt.objfn_list[len(objs):], opt.src_amplitudes[len(amps):]
        if len(new) > op['n'] or (st == 'ok' and op['method'] != 'LBFGS' and len(new) != op['n']):
            raise Violation('count', '%d iterations of %s recorded %d objectives' % (op['n'], op['method'], len(new)))
        if not len(new) - 1 <= len(amp) <= len(new) or (st == 'ok' and len(amp) != len(new)):
            raise Violation('amplitude', '%d objectives and %d source amplitudes were recorded' % (len(new), len(amp)))
        sim.probe('source adjusted during a run', int(any(not np.array_equal(t[2], trace[0][2]) for t in trace)))
        for k, J in enumerate(new):
            # the last evaluation before it was recorded
            at = [(rho, src) for (n, rho, src) in trace if n == k]
            if not at:
                continue
            rho, src = at[-1]
            peak = np.max(np.abs(src))
            if k < len(amp) and not abs(np.real(amp[k]) - peak) <= 1e-5*peak:
                raise Violation('amplitude', 'source amplitude %d is recorded as %.6e; objective %d was evaluated with %.6e'
                                % (k, np.real(amp[k]), k, peak))
            c17.check_record(sim, s, J, rho, src, k)
