"""C18: solver failures surface, resources are released, and backends agree."""
import os
import pickle

import numpy as np

from vsim import kernel, modes, world
from vsim.kernel import BudgetExceeded, INJECTED, Violation
from vsim.props import c12, c13

QUICK = 160
THOROUGH = 200000
VARIANTS = 4
SCIPY = 0.35
FAULTS = {'factor': ['silent', 'silent', 'err', 'mem', 'int'], 'solve': ['silent', 'partial', 'nans', 'err', 'mem', 'int'],
          'spsolve': ['silent', 'partial', 'nans', 'err', 'mem', 'int'], 'objective': ['err', 'int'],
          'bar': ['io', 'int'], 'deepcopy': ['mem'], 'eigs': ['noconv', 'mem', 'int']}
PROBES = ['backends agree', 'failed solve surfaced', 'silent failure', 'operation after a failure', 'repeated after a failure',
          'factorisation released after a failure', 'factorisations', 'linear', 'born', 'newton', 'hybrid', 'adjoint',
          'run', 'mode', 'scan', 'power', 'derivative check', 'index shift', 'pardiso', 'scipy']
ASSUMPTIONS = ['A solve that fails without an exception returns zeros (pyMKL drops pardiso\'s error code), nan (scipy '
               'and a singular matrix), or a part of the solution with zeros or nan for the rest.']
# what a failure of these may leave behind is the subject of C03; they are repeated
AGAIN = {'assign', 'init', 'src'}
PURE = {'solve', 'nl', 'J', 'dJ', 'mode', 'power', 'scan', 'copy', 'setup', 'shift'}


def gen(rng, k):
    s = c13.gen_session(rng)
    s['steps'] = [o for o in s['steps'] if o['o'] not in ('randinit',)]
    if rng.random() < 0.5:
        s['steps'] = s['steps'][:1]     # more faults in few operations, and often in the solvers
    for i in range(rng.randrange(1, 4)):
        o = rng.choice(['solve', 'nl', 'nl', 'dJ', 'dJ', 'J'])
        op = {'o': o, 'seed': 0}
        if o == 'nl':
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
        s['steps'].insert(rng.randrange(len(s['steps']) + 1), op)
    for o in s['steps']:
        if o['o'] == 'run':
            o['n'] = min(o['n'], 2)
    start = {'op': 'start', 'prob': s['prob'], 'design': s['design'], 'density': s['density']}
    return {'ops': [start] + [dict(o, op='step') for o in s['steps']]}


def spec_of(prog):
    s = dict(prog['ops'][0])
    s['steps'] = prog['ops'][1:]
    return s


def elsewhere(prog):
    """What the operations give with the other backend, without faults, in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            kernel.CURRENT = None
            from vsim import runner
            if prog.get('backend') != 'scipy':
                runner.without_pymkl()
            out = []
            try:
                s = c13.Session(spec_of(prog))
                out.append(s.start())
                for op in prog['ops'][1:]:
                    np.random.seed(op['seed'])
                    out.append(s.step(op))
            except Exception as e:
                import traceback
                out = traceback.format_exc()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        from vsim.runner import crashed
        if crashed(status):
            raise Violation('crash', 'the operations died of signal %d with the other backend' % os.WTERMSIG(status))
        raise RuntimeError('the other backend died')
    return pickle.loads(data)


def execute(sim, prog):
    if not prog['ops'] or prog['ops'][0]['op'] != 'start':
        return
    with sim.oracle():
        want = elsewhere(prog)
        s = c13.Session(spec_of(prog))
    if isinstance(want, str):
        raise Violation('error', 'valid operations failed with the other backend: ' + want[-600:])
    sim.probe(prog.get('backend', 'pardiso'))
    comparable = True
    for k, op in enumerate(prog['ops']):
        sim.begin(k, op.get('o', 'start'))
        got = None
        for attempt in range(4):
            fired = sum(sim.fired.values())
            name = op.get('o', 'start')
            try:
                np.random.seed(op.get('seed', 0))
                got = s.start() if k == 0 else s.step(op)
            except BudgetExceeded:
                raise
            except (Exception, KeyboardInterrupt) as e:
                if sum(sim.fired.values()) == fired:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    raise Violation('error', 'a valid operation failed: %s: %s (%s:%d)'
                                    % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))
                sim.probe('failed solve surfaced', int(any(f.split('.')[0] in ('factor', 'solve', 'spsolve')
                                                           for f in sim.fired)))
                failed = True
            else:
                failed = False
            with sim.oracle():
                if sim.open_factors:
                    raise Violation('released', '%d factorisation(s) not released after operation %s %s'
                                    % (len(sim.open_factors), name, 'failed' if failed else 'succeeded'))
            sim.probe('silent failure', int(any(f.split('.')[-1] in ('silent', 'partial', 'nans') for f in sim.fired) and sum(sim.fired.values()) > fired))
            if not failed:
                break
            sim.probe('factorisation released after a failure', int(any(f.startswith(('factor', 'solve'))
                                                                         for f in sim.fired)))
            got = None
            if k and name not in AGAIN and name not in PURE:
                comparable = False      # interrupted half-way
                break
            sim.probe('repeated after a failure')
        if got is None or not comparable:
            continue
        with sim.oracle():
            compare(sim, op, name, got, want[k], prog)
    with sim.oracle():
        sim.probe('factorisations', sum(n for (_, seam), n in sim.calls.items() if seam.split('.')[0] == 'factor'))


def compare(sim, op, name, got, want, prog):
    tol = {'solve': 1e-7, 'nl': 1e-5, 'run': 1e-4, 'mode': 1e-5, 'power': 1e-5, 'scan': 1e-5}.get(name, 1e-5)
    if len(got) != len(want) or name in ('nl', 'shift') and not got:
        return      # whether a nonlinear solve converges at the edge of doing so is not for this property
    if name == 'deriv':
        got, want = got[:1], want[:1]   # difference quotients amplify rounding errors
    if name in ('mode', 'power'):
        q, m = op['prob'], op['modes'][0 if name == 'power' else -1]
        p = modes.power(dict(m, scale=1.0), world.build_eps(q), q, q['omega'])
        if p is None or abs(p[0]) < 1e-5*p[1]:
            got, want = got[:1], want[:1]   # a mode that carries no power: its power is a rounding error
    d = c12.differ(got, want)
    if name == 'run' and op['method'] != 'GD':
        # decisions of the line search, and normalised gradients, may depend on rounding errors: first iteration only
        d = c12.differ([got[0][:1]], [want[0][:1]])
    if not d <= tol:
        after = sum(sim.fired.values()) > 0
        raise Violation('wrong' if after else 'backends', 'operation %s gives another result than with the other backend '
                        '(by %.1e)%s' % (name, d, ', after a failure' if after else ''))
    sim.probe('backends agree')
    sim.probe('operation after a failure', int(sum(sim.fired.values()) > 0))
    sim.probe({'solve': 'linear', 'dJ': 'adjoint', 'deriv': 'derivative check', 'shift': 'index shift',
               'nl': op.get('solver', '')}.get(name, name))
