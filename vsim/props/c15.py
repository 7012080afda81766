"""C15: progress frames show the iteration that they are named after."""
import os
import re

import numpy as np

from vsim import optlab, world
from vsim.kernel import Violation
from vsim.seams import REAL

QUICK = 90
THOROUGH = 200000
VARIANTS = 2
SCIPY = 0.1
FAULTS = dict(optlab.FAULTS, savefig=['io', 'full', 'int'], fs=['io'])
PROBES = ['frames', 'every iteration', 'every few iterations', 'several plots', 'four plots', 'nonlinear field',
          'linear field', 'record', 'second run into the folder', 'new folder', 'folder without slash', 'relative folder',
          'old files removed', 'kept other things', 'run failed', 'drawing failed', 'clean-up failed', 'LBFGS', 'GD',
          'ADAM', 'undisturbed', 'Ez', 'Hz', 'source that is no mode', 'resumed after a failure', 'continued without drawing']
ASSUMPTIONS = ['Images are not rendered: what a figure holds when it is saved counts as what the frame shows.']


def gen(rng, k):
    p = optlab.gen_problem(rng, filt=0.3, nl=0.4)
    pol = 'Ez' if rng.random() < 0.75 else 'Hz'
    while p['prob']['pol'] != pol:
        p = optlab.gen_problem(rng, filt=0.3, nl=0.4)
    # the source is a mode of known power, or not a mode
    p['power'] = rng.choice([1e-3, 1e-3, 1e-3, 10.0, None])
    ops = [p]
    nl = any(a[1] for a in p['design']['obj']['args'])
    for i in range(rng.choice([1, 2, 2, 3])):
        what = rng.choice([['eps'], ['eps', 'of'], ['elin'], ['of', 'elin', 'eps'], ['eps', 'of', 'elin', 'eps'],
                           ['elin', 'of']] + ([['enl'], ['eps', 'elin', 'enl', 'of'], ['enl', 'eps']] if nl else []))
        ops.append({'op': 'run', 'method': rng.choice(['GD', 'ADAM', 'LBFGS', 'GD']), 'n': rng.choice([1, 2, 3, 4, 5]),
                    'rel': rng.choice([0.05, 0.3]),
                    'plot': None if rng.random() < 0.15 else {
                        'every': rng.choice([1, 1, 2, 3]), 'what': what,
                        'folder': rng.choice(['frames', 'frames', 'other', 'deep/er', 'frames2'])},
                    'slash': rng.random() < 0.5, 'relative': rng.random() < 0.3,
                    'old': rng.choice([0, 0, 1, 3]), 'junk': rng.random() < 0.4})
    return {'ops': ops}


def listing(folder):
    """Everything below a folder, with contents"""
    out = {}
    for base, dirs, files in os.walk(folder):
        for n in dirs:
            p = os.path.join(base, n)
            out[os.path.relpath(p, folder)] = 'link' if os.path.islink(p) else 'folder'
        for n in files:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[os.path.relpath(p, folder)] = 'link'
            else:
                with REAL.open(p, 'rb') as f:
                    out[os.path.relpath(p, folder)] = f.read()
    return out


def put(path, data=b'user'):
    REAL.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL.open(path, 'wb') as f:
        f.write(data)


def execute(sim, prog):
    s = None
    root = sim.scratch
    os.chdir(root)
    with sim.oracle():
        put(os.path.join(root, 'mine', 'important'))
        put(os.path.join(root, 'it000000.png'))
    used, mirror, failed = set(), None, False
    for k, op in enumerate(prog['ops']):
        sim.begin(k, op['op'])
        if op['op'] == 'new':
            s = optlab.Session(sim, op)
            with sim.oracle():
                f = world.make_ref(s.spec, eps=np.array(s.real.eps_r)).fields(np.array(s.real.src, dtype=complex))[s.spec['pol']]
                if op['power'] is not None:
                    s.real.W_in = float((op['power']*np.max(np.abs(f)))**2)
                else:
                    sim.probe('source that is no mode')
                sim.probe(s.spec['pol'])
            # the same script, without drawing
            with sim.oracle():
                mirror = optlab.Session(sim, op)
                if op['power'] is not None:
                    mirror.real.W_in = s.real.W_in
        elif s is not None:
            if failed:
                sim.probe('resumed after a failure')
            ok = run(sim, s, op, root, used)
            if not ok:
                failed, mirror = True, None
            if mirror is not None:
                with sim.oracle():
                    mirror.opt.run(**arguments(op, s.last_step))
                    sim.probe('undisturbed')
                    if op['plot'] is None:
                        sim.probe('continued without drawing')
                    for name, a, b in [('density', s.real.rho, mirror.real.rho), ('record', s.opt.objfn_list,
                                                                                 mirror.opt.objfn_list),
                                       ('permittivity', s.real.eps_r, mirror.real.eps_r),
                                       ('source', s.real.src, mirror.real.src)]:
                        a, b = np.array(a), np.array(b)
                        if a.shape != b.shape or np.max(np.abs(a - b), initial=0) > 1e-8*np.max(np.abs(b), initial=1):
                            raise Violation('disturbed', 'drawing changed the %s that the run leaves' % name)


def arguments(op, step):
    out = {'method': op['method'], 'Nsteps': op['n']}
    if op['method'] != 'LBFGS':
        out['step_size'] = step
    return out


def run(sim, s, op, root, used):
    from angler.plot import Temp_plt
    plot = op['plot']
    n0 = len(s.opt.objfn_list)
    s.last_step = op['rel'] if op['method'] == 'ADAM' else s.step_size(op['rel'])
    kw = arguments(op, s.last_step)
    sim.frames = []
    folder = None
    if plot:
        folder = os.path.join(root, plot['folder'])
        with sim.oracle():
            for i in range(op['old']):
                put(os.path.join(folder, 'it%06d.png' % (7*i + 1)))
            if op['junk']:
                put(os.path.join(folder, 'notes', 'it000001.png'))
                put(os.path.join(folder, 'it_old', 'it000002.png'))
                put(os.path.join(folder, 'it000099', 'more', 'data'))
                REAL.makedirs(os.path.join(folder, 'empty', 'too'), exist_ok=True)
                put(os.path.join(root, 'mine', 'target'))
                if not os.path.lexists(os.path.join(folder, 'link')):
                    os.symlink(os.path.join(root, 'mine', 'target'), os.path.join(folder, 'link'))
                if not os.path.lexists(os.path.join(folder, 'linked')):
                    os.symlink(os.path.join(root, 'mine'), os.path.join(folder, 'linked'))
        existed = os.path.isdir(folder)
        name = plot['folder'] if op['relative'] else folder
        kw['temp_plt'] = Temp_plt(it_plot=plot['every'], plot_what=tuple(plot['what']),
                                  folder=name + ('/' if op['slash'] else ''))
    before = listing(root)
    st, _ = s.run(**kw)
    with sim.oracle():
        done = len(s.opt.objfn_list) - n0
        after = listing(root)
        if not plot:
            if sim.frames or after != before:
                raise Violation('folder', 'a run that was not asked to draw wrote files')
            return st == 'ok'
        files(sim, plot, before, after, st, done, op)
        frames(sim, s, plot, op, n0, st, done)
        sim.probe(op['method'])
        sim.probe('second run into the folder', int(plot['folder'] in used))
        sim.probe('new folder', int(not existed))
        sim.probe('folder without slash', int(not op['slash']))
        sim.probe('relative folder', int(op['relative']))
        used.add(plot['folder'])
        if st != 'ok':
            sim.probe('run failed')
            sim.probe('drawing failed', int(any(f.startswith('savefig') for f in sim.fired)))
            sim.probe('clean-up failed', int(any(f.startswith('fs') for f in sim.fired)))
    return st == 'ok'


def wanted(plot, done):
    return [k for k in range(done) if k % plot['every'] == 0]


def files(sim, plot, before, after, st, done, op):
    """Only plain files directly in the folder may disappear, only frames may appear there"""
    f = plot['folder']
    names = {os.path.join(f, 'it%06d.png' % k) for k in wanted(plot, done)}
    parts = {f[:i] for i, c in enumerate(f) if c == '/'} | {f}
    for p in sorted(set(before) | set(after)):
        if before.get(p) == after.get(p):
            continue
        if p in names or p in parts and after.get(p) == 'folder':
            continue
        plain = os.path.dirname(p) == f and isinstance(before.get(p), bytes)
        if p not in before:
            raise Violation('folder', 'the run wrote %s, it was asked to draw %s' % (p, plot))
        if plain and p not in after:
            sim.probe('old files removed')
            continue
        if before[p] == 'link' and p not in after and os.path.dirname(p) == f:
            continue
        raise Violation('folder', 'the run %s %s' % ('changed' if p in after else 'removed', p))
    if st == 'ok':
        left = [p for p in after if os.path.dirname(p) == f and isinstance(after[p], bytes) and p not in names]
        if left:
            raise Violation('folder', 'frames of earlier runs are left: %s' % sorted(left))
    sim.probe('kept other things', int(op['junk']))


def frames(sim, s, plot, op, n0, st, done):
    """What each frame shows"""
    want = wanted(plot, done)
    got = []
    for fr in sim.frames:
        m = re.match(r'^it(\d{6})\.png$', os.path.basename(fr['path']))
        if not m or os.path.realpath(os.path.dirname(fr['path'])) != os.path.realpath(os.path.join(sim.scratch,
                                                                                                 plot['folder'])):
            raise Violation('frames', 'a frame was drawn as %s' % fr['path'])
        got.append(int(m.group(1)))
    if st == 'ok' and got != want or st != 'ok' and got not in (want, want[:-1]):
        raise Violation('frames', 'frames were drawn for iterations %s, asked for %s' % (got, want))
    for k, fr in zip(got, sim.frames):
        frame(sim, s, plot, op, n0, k, fr)
    sim.probe('frames', len(got))
    if got:
        sim.probe('every iteration' if plot['every'] == 1 else 'every few iterations')
        sim.probe('four plots' if len(plot['what']) == 4 else 'several plots', int(len(plot['what']) > 1))


def frame(sim, s, plot, op, n0, k, fr):
    record = [float(np.real(o)) for o in s.opt.objfn_list[:n0 + k + 1]]
    if len(fr['axes']) < len(plot['what']):
        raise Violation('frames', 'a frame of %s shows %d plots' % (plot['what'], len(fr['axes'])))
    eps = None
    if op['method'] != 'LBFGS' and k in s.seen:
        eps = s.eps_of(s.seen[k])
    for what, ax in zip(plot['what'], fr['axes']):
        if what == 'eps':
            if not ax['images']:
                raise Violation('content', 'frame %d shows no permittivity' % k)
            shown = np.asarray(ax['images'][0]).T
            if eps is not None and (shown.shape != eps.shape or np.max(np.abs(shown - np.abs(eps))) > 1e-8*np.max(np.abs(eps))):
                raise Violation('content', 'frame %d shows another permittivity than that of iteration %d' % (k, k))
            eps = shown
            numbers = [int(x) for t in ax['texts'] for x in re.findall(r'\d+', t)]
            if numbers and k not in numbers:
                raise Violation('content', 'frame %d says that it is of iteration %s' % (k, numbers))
        elif what == 'of':
            xy = ax['lines'][0] if ax['lines'] else np.zeros((0, 2))
            if len(xy) != len(record) or np.max(np.abs(xy[:, 1] - record)) > 1e-9*max(1, np.max(np.abs(record))):
                raise Violation('content', 'frame %d shows %d objectives, %d had been recorded' % (k, len(xy), len(record)))
            if list(xy[:, 0]) != list(range(1, len(record) + 1)):
                raise Violation('content', 'frame %d shows the record at iterations %s' % (k, list(xy[:, 0])))
            sim.probe('record')
    if eps is None:
        return
    ref = world.make_ref(s.spec, eps=eps)
    src = np.array(s.real.src, dtype=complex)
    lin = ref.fields(src)[s.spec['pol']]
    r = s.ref()
    J = r.objective(eps)
    settled = True
    if any(a[1] for a in s.d['obj']['args']):
        conv = s.twin_eps(eps, s.spec['omega']).solve_fields_nl()
        settled = bool(np.isfinite(conv[-1][-1])) and abs(conv[-1][-1]) <= 1e-8 and r.converged
    if settled and not abs(J - record[-1]) <= 5e-5*max(abs(J), 1.0):
        raise Violation('content', 'frame %d shows a design of objective %.8e, iteration %d has %.8e'
                        % (k, J, k, record[-1]))
    for what, ax in zip(plot['what'], fr['axes']):
        if what == 'elin':
            compare(sim, ax, np.abs(lin), 1e-5, k, 'linear field')
        elif what == 'enl' and settled:
            compare(sim, ax, np.abs(conv[2]), 1e-4, k, 'nonlinear field')


def compare(sim, ax, want, tol, k, what):
    if not ax['images']:
        raise Violation('content', 'frame %d shows no %s' % (k, what))
    got = np.asarray(ax['images'][0]).T
    if got.shape != want.shape or np.linalg.norm(got - want) > tol*np.linalg.norm(want):
        raise Violation('content', 'frame %d shows another %s than that of its design' % (k, what))
    sim.probe(what)
