"""C20: the work and the memory of every operation are bounded."""
import gc
import os
import sys
import threading
import types

import numpy as np

from vsim import modes, optlab, world
from vsim.kernel import BudgetExceeded, INJECTED, Violation
from vsim.props import c13

QUICK = 60
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.25
FAULTS = {'factor': ['err', 'mem', 'int', 'silent'], 'solve': ['err', 'mem', 'int', 'silent'],
          'spsolve': ['err', 'mem', 'int', 'silent'], 'assemble': ['mem', 'int'], 'objective': ['err', 'int'],
          'bar': ['io', 'int'], 'deepcopy': ['mem', 'int'], 'eigs': ['noconv', 'mem', 'int']}
PROBES = ['solve', 'born', 'newton', 'hybrid', 'J', 'dJ', 'J known', 'dJ known', 'GD', 'ADAM', 'LBFGS', 'scan', 'deriv',
          'shift', 'mode', 'assign', 'iterations used up', 'start given', 'after a failure', 'repeated', 'memory kept', 'many pixels',
          'linear objective of a nonlinear design', 'limit on the index shift', 'copies released', 'frames']
ASSUMPTIONS = ['Work is counted in calls of the direct and eigenmode solvers; the memory is that of the arrays that can be '
               'reached from the simulation, the optimization and angler\'s modules.']


def gen(rng, k):
    p = optlab.gen_problem(rng, filt=0.3, nl=0.45)
    if rng.random() < 0.3:
        # a large design: the work must not depend on how many pixels there are
        m = [p['prob']['npml'][i] + (p['design']['R'] or 0) + 1 if p['prob']['npml'][i] else 0 for i in range(2)]
        n = p['prob']['shape']
        p['design']['rect'] = [m[0], n[0] - m[0], m[1], n[1] - m[1]]
        p['design']['big'] = True
    p['limit'] = rng.choice([None, None, 1e-3, 1e-5, 1e-7]) if p['design']['nl'] else None
    if p['limit'] is None and rng.random() < 0.4:
        # nonlinearities that are too strong to converge quickly, or at all
        for n in p['design']['nl']:
            n['shift'] = rng.choice([0.1, 0.5])
    ops = [p]
    for _ in range(rng.randrange(2, 6)):
        o = rng.choice(['solve', 'J', 'dJ', 'run', 'run', 'scan', 'deriv', 'mode', 'assign'] +
                       (['nl', 'nl', 'nl', 'nl', 'shift'] if p['design']['nl'] else []))
        op = {'op': o, 'seed': rng.randrange(10**6)}
        if o == 'nl':
            op['solver'] = rng.choice(['born', 'newton', 'hybrid'])
            op['its'] = rng.choice([None, 1, 2, 3, 5, 10])
            op['start'] = rng.choice([None, 1.0, 5.0, 100.0])
            op['threshold'] = rng.choice([None, None, 1e-3, 1e-14])
        elif o == 'run':
            op['method'] = rng.choice(['GD', 'ADAM', 'LBFGS'])
            op['n'] = rng.choice([1, 2, 3, 6]) if op['method'] != 'LBFGS' else 1 if p['design']['nl'] else 2
            if rng.random() < 0.4:
                op['plot'] = rng.choice([['eps'], ['of'], ['eps', 'elin'], ['eps', 'of', 'elin', 'eps']])
        elif o == 'scan':
            op['n'] = rng.choice([2, 3, 5])
        elif o == 'deriv':
            op['n'] = rng.choice([1, 3])
        elif o == 'mode':
            q = world.gen_problem(rng)
            op['prob'], op['modes'] = q, modes.gen_modes(rng, q)
        for _ in range(rng.choice([1, 1, 2, 5])):
            ops.append(dict(op))
    return {'ops': ops}


NL = 42         # a nonlinear solve with the settings of the objective: at most 20 steps of either method, and the ends


def cost(s, omega=None):
    """How many solves a nonlinear solve of the present problem takes"""
    if not s.d['nl']:
        return 0
    t = s.twin_eps(np.array(s.real.eps_r), s.real.omega if omega is None else omega)
    with np.errstate(all='ignore'):
        conv = np.ravel(t.solve_fields_nl(solver_nl='born', max_num_iter=20)[3])
    if not np.all(np.isfinite(conv)) or conv[-1] != 0:
        return NL
    return min(NL, 2*np.count_nonzero(conv) + 3)


def costs(s, op):
    """How many solves a nonlinear solve on the way of an operation may take"""
    if op['op'] == 'scan' and s.d['nl']:
        return max(cost(s, s.real.omega*(1 + x)) for x in np.linspace(-0.05, 0.05, op['n']))
    n = cost(s)
    if op['op'] == 'deriv' or op.get('method') == 'LBFGS' or n > 20:
        # with some designs on the way it may converge more slowly
        return NL if n else 0
    return n


def allowed(s, op, known, NL):
    """(direct solves, eigenmode solves) that an operation may take"""
    args = len(s.d['obj']['args'])
    linear = not any(a[1] for a in s.d['obj']['args'])
    forward = 1 if linear else 2 + NL
    o = op['op']
    if o == 'solve':
        return 1, 0
    if o == 'nl':
        if not s.d['nl']:
            return 0, 0
        n = op['its'] or 50
        linear = int(not op['start'])      # the linear solution is where it starts from when not told
        return {'born': n, 'newton': n + 1, 'hybrid': 20 + 21}[op['solver']] + linear, 0
    if o == 'J':
        return (0 if known else forward), 0
    if o == 'dJ':
        return (0 if known else forward) + args, 0
    if o == 'run':
        # an objective and a gradient for each iteration, the source is adjusted between the two
        adjust = 2*(2 + NL) if s.limit is not None else 0
        evaluations = op['n'] if op['method'] != 'LBFGS' else 2 + 21*op['n']
        return evaluations*(2*forward + args) + (op['n'] + 1)*adjust, 0
    if o == 'scan':
        return op['n']*forward, 0
    if o == 'deriv':
        # adjoint gradient, the objective there, and one objective for each point
        return (2 + op['n'])*forward + args, 0
    if o == 'shift':
        return 2 + NL, 0
    if o == 'mode':
        return len(op['modes']), 2*len(op['modes'])     # in the structure and in the waveguide alone
    return 0, 0


def perform(s, op):
    real, opt, o = s.real, s.opt, op['op']
    if o == 'solve':
        real.solve_fields()
    elif o == 'nl' and s.d['nl']:
        kw = {} if op['its'] is None else {'max_num_iter': op['its']}
        if op.get('start'):
            with s.sim.oracle():
                ref = world.make_ref(s.spec, eps=np.array(real.eps_r))
                kw['Estart'] = op['start']*ref.solve_z(np.array(real.src, dtype=complex))
                s.sim.probe('start given')
        if op.get('threshold'):
            kw['conv_threshold'] = op['threshold']
        with np.errstate(all='ignore'):
            got = real.solve_fields_nl(solver_nl=op['solver'], **kw)
        return len(np.asarray(got[3]).ravel())
    elif o == 'J':
        opt.compute_J(real)
    elif o == 'dJ':
        opt.compute_dJ(real, opt.design_region)
    elif o == 'run':
        kw = {}
        if op.get('plot'):
            from angler.plot import Temp_plt
            kw['temp_plt'] = Temp_plt(it_plot=1, plot_what=tuple(op['plot']), folder=os.path.join(s.sim.scratch, 'frames'))
            with s.sim.oracle():
                f = world.make_ref(s.spec, eps=np.array(real.eps_r)).solve_z(np.array(real.src, dtype=complex))
                real.W_in = float((1e-3*np.max(np.abs(f)))**2)     # frames are scaled by it
            s.sim.probe('frames')
        opt.run(method=op['method'], Nsteps=op['n'], step_size=1e-3, **kw)
    elif o == 'scan':
        opt.scan_frequency(Nf=op['n'], df=0.1)
    elif o == 'deriv':
        opt.check_deriv(Npts=op['n'], d_rho=1e-2)
    elif o == 'shift' and s.d['nl']:
        real.compute_index_shift()
    elif o == 'assign':
        r = np.random.RandomState(op['seed'])
        rho = np.where(world.design_region(s.spec, s.d) == 1, r.rand(*s.spec['shape']), s.start())
        real.rho = rho
        real.eps_r = s.eps_of(np.clip(rho, 0, None))
    elif o == 'mode':
        from angler import Simulation
        q = op['prob']
        t = Simulation(q['omega'], world.build_eps(q), q['dl'], list(q['npml']), q['pol'], L0=q['L0'])
        for m in op['modes']:
            modes.add(t, m)
        t.setup_modes()


def held(*roots):
    """Bytes of the arrays that can be reached from some objects and from angler's modules"""
    ours = [m for n, m in list(sys.modules.items()) if m is not None and (n == 'angler' or n.startswith('angler.'))]
    skip = {id(m.__dict__) for m in list(sys.modules.values()) if isinstance(m, types.ModuleType) and m not in ours}
    stack, seen, total = list(roots) + [dict(m.__dict__) for m in ours], set(), 0
    mine = set(map(id, stack))
    while stack:
        x = stack.pop()
        if id(x) in seen or id(x) in skip:
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            while isinstance(x.base, np.ndarray):
                x = x.base
            if id(x) in seen and x.base is None and x.flags.owndata is False:
                continue
            seen.add(id(x))
            total += x.nbytes
            continue
        if isinstance(x, (str, bytes, int, float, complex, type(None), types.CodeType, types.FrameType)):
            continue
        if isinstance(x, types.ModuleType) and x not in ours:
            continue
        if isinstance(x, type):
            if not str(x.__module__).startswith('angler'):
                continue
            stack.extend(v for v in vars(x).values())
            continue
        if isinstance(x, (types.FunctionType, types.BuiltinFunctionType)) and id(x) not in mine:
            if isinstance(x, types.FunctionType):
                stack.extend(c.cell_contents for c in x.__closure__ or () if not empty(c))
                stack.extend(x.__defaults__ or ())
                stack.append(x.__dict__)
            continue
        if type(x).__module__.split('.')[0] in ('matplotlib', 'progressbar', 'autograd', 'vsim', 'threading', 'logging'):
            continue
        stack.extend(gc.get_referents(x))
    return total


def empty(cell):
    try:
        cell.cell_contents
    except ValueError:
        return True
    return False


def copies():
    """How many simulations there are"""
    import angler
    gc.collect()
    return sum(1 for x in gc.get_objects() if isinstance(x, angler.Simulation))


def execute(sim, prog):
    s = None
    last, sizes, peak = None, [], {}
    known = dirty = False
    for k, op in enumerate(prog['ops']):
        sim.begin(k, op['op'])
        if op['op'] == 'new':
            with sim.oracle():
                s = optlab.Session(sim, op, max_ind_shift=op['limit'])
                s.limit = op['limit']
                if not op.get('density', True):
                    s.real.rho = (np.real(np.array(s.real.eps_r)) - 1)/(s.d['eps_m'] - 1)
                s.linear = not any(a[1] for a in s.d['obj']['args'])
                sim.probe('linear objective of a nonlinear design', int(s.linear and bool(s.d['nl'])))
                sim.probe('many pixels', int(bool(op['design'].get('big'))))
                sim.probe('limit on the index shift', int(op['limit'] is not None))
                base = copies()
                files0, threads0 = len(os.listdir('/proc/self/fd')), threading.active_count()
            continue
        if s is None:
            continue
        np.random.seed(op['seed'])
        before = counts(sim, k)
        with sim.oracle():
            nl = costs(s, op)
        try:
            steps = perform(s, op)
            ok = True
        except BudgetExceeded:
            raise
        except Exception as e:
            if k not in sim.fired_ops:
                raise
            ok = False
            e = None
        except INJECTED:
            ok = False
        after = counts(sim, k)
        with sim.oracle():
            label = op.get('method') or op.get('solver') or op['op']
            solves, eigs, factors = (b - a for a, b in zip(before, after))
            # a failed operation stops: it does not take more than one that succeeds
            most, most_eigs = allowed(s, op, known and ok, max(nl, costs(s, op)))
            if solves > most:
                raise Violation('work', '%s took %d solves, %d suffice' % (label, solves, most))
            if eigs > most_eigs:
                raise Violation('work', '%s took %d eigenmode solves, %d suffice' % (label, eigs, most_eigs))
            if factors > solves and ok:
                raise Violation('work', '%s took %d factorisations for %d solves' % (label, factors, solves))
            sim.probe(label)
            if op['op'] in ('J', 'dJ'):
                sim.probe(op['op'] + ' known', int(known))
            sim.probe('after a failure', int(bool(sim.fired) and k not in sim.fired_ops))
            if ok and op['op'] == 'nl' and s.d['nl']:
                sim.probe('iterations used up', int(op['its'] is not None and steps >= op['its']))
                if steps > (op['its'] or 50) and op['solver'] != 'hybrid':
                    raise Violation('work', '%s was allowed %d steps and reports %d' % (label, op['its'] or 50, steps))
            # evaluations leave the fields of the problem behind for the next one
            if op['op'] in ('J', 'dJ'):
                known = ok
            elif op['op'] == 'mode' or op['op'] == 'nl' and not s.d['nl'] or op['op'] == 'shift' and not s.d['nl']:
                pass
            else:
                known = False
            # what repeating an operation leaves behind
            n = copies()
            if n > base + 1:
                raise Violation('memory', '%s leaves %d simulations behind' % (label, n - base))
            sim.probe('copies released')
            # (one figure is drawn at a time, and the last one may stay)
            if 'matplotlib.pyplot' in sys.modules:
                figures = len(sys.modules['matplotlib.pyplot'].get_fignums())
                if figures > 2:
                    raise Violation('memory', '%s leaves %d figures open' % (label, figures))
            files = len(os.listdir('/proc/self/fd'))
            if files > files0 + 4:
                raise Violation('memory', '%s leaves %d files open' % (label, files - files0))
            if threading.active_count() > threads0:
                raise Violation('memory', '%s leaves %d threads behind' % (label, threading.active_count() - threads0))
            size = held(s.real, s.opt)
            same = last is not None and {k: v for k, v in last.items()} == {k: v for k, v in op.items()}
            if not same:
                sizes = []
            sizes.append(size)
            sim.probe('repeated', int(same))
            if len(sizes) >= 4:
                # what is kept once is kept; what is kept of every repetition is a leak
                grid = 8*s.spec['shape'][0]*s.spec['shape'][1]
                if all(b - a > 0.5*grid for a, b in zip(sizes[-4:], sizes[-3:])):
                    raise Violation('memory', 'repeating %s leaves ever more behind: %s bytes' % (label, sizes[-4:]))
                sim.probe('memory kept')
            last = op


def counts(sim, k):
    def of(*names):
        return sum(n for (op, seam), n in sim.calls.items() if op == k and seam.split('.')[0] in names)
    return of('solve', 'spsolve'), of('eigs'), of('factor', 'spsolve')
