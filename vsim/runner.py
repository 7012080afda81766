"""Runs checks: seeded search, minimisation, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

# keep the real clock: seams.install() replaces it
real_time = _time.time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSIM_REPO', '/repo')

from vsim import kernel, seams                                                    # noqa: E402
from vsim.kernel import Sim, Violation, BudgetExceeded, INJECTED, derive, canonical  # noqa: E402

RUN_CPU_LIMIT = 90           # seconds of CPU for one simulated run, which takes a few at most: beyond, it hangs
RUN_WALL_LIMIT = 400


def load(prop):
    return importlib.import_module('vsim.props.' + prop.lower())


def prepare():
    """Install the seams, then import the code under test from /repo's working tree"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    seams.install()
    import angler
    path = os.path.realpath(angler.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('angler imported from %s' % path)


def without_pymkl():
    """Re-import angler in a world where pyMKL is not installed (scipy is then the solver)"""
    for m in list(sys.modules):
        if m == 'angler' or m.startswith('angler.'):
            del sys.modules[m]
    saved = {m: sys.modules.pop(m) for m in list(sys.modules) if m == 'pyMKL' or m.startswith('pyMKL.')}
    sys.modules['pyMKL'] = None
    import angler                                                                  # noqa: F401
    for m in ['optimization', 'simulation', 'objective', 'linalg', 'source.mode']:
        importlib.import_module('angler.' + m)
    del saved


# ------------------------------------------------------------------------------------------
# one simulated run, in a process of its own
# ------------------------------------------------------------------------------------------

def execute(prop, prog, keep_log=False):
    """Runs a program in this process.  Returns a JSON-able result."""
    mod = load(prop)
    sim = Sim(prog['seed'], faults=prog.get('faults', ()), budget=prog.get('budget', 200000),
              preempt=prog.get('preempt'), preempt_rate=prog.get('preempt_rate', 0.0),
              keep_log=keep_log, clock=prog.get('clock', 'steady'))
    out = {'status': 'ok', 'oracle': None, 'message': ''}
    scratch = tempfile.mkdtemp(prefix='vsim-')
    sim.scratch = scratch
    saved = sys.stdout, sys.stderr
    try:
        if prog.get('backend') == 'scipy':
            without_pymkl()
        import numpy as np
        np.random.seed(prog['seed'] % (2**32))
        random.seed(prog['seed'])
        sys.stdout = seams.Sink(None)
        with sim:
            try:
                mod.execute(sim, prog)
            except BudgetExceeded:
                raise Violation('progress', 'the operations do not end')
            except Violation:
                raise
            if sim.refused:
                raise Violation('outside', 'file operations outside of the run\'s folder: %s'
                                % sorted(map(tuple, sim.refused))[:3])
    except Violation as v:
        out.update(status='violation', oracle=v.oracle, message=v.message)
        sim.log('violation %s %s' % (v.oracle, v.message), shape='violation ' + v.oracle)
    except BaseException as e:
        where = raised_by(e)
        if where is None or isinstance(e, INJECTED):
            out.update(status='error', message=traceback.format_exc())
        else:
            # the workload asked for something valid while no fault was injected
            out.update(status='violation', oracle='error', message='a valid operation failed: %s: %s (%s)'
                       % (type(e).__name__, e, where))
            sim.log('violation error', shape='violation error')
    finally:
        sys.stdout, sys.stderr = saved
        kernel.CURRENT = None
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(hash=sim.hash.hexdigest(), shape=sim.shape.hexdigest(),
               calls=[[k[0], k[1], n] for k, n in sorted(sim.calls.items())],
               fired=sim.fired, probes=sim.probes, sim_s=sim.sim_elapsed, oracles=sim.oracles,
               total_calls=sim.total_calls, clock_jumps=sim.clock_jumps, clock_reads=sim.clock_reads,
               taken=sim.taken if hasattr(sim, 'taken') else None)
    if keep_log:
        out['log'] = sim.log_lines
    return out


def raised_by(e):
    """Where in the code under test an exception comes from, or None if it comes from the harness"""
    for tb in reversed(traceback.extract_tb(e.__traceback__)):
        path = os.path.realpath(tb.filename)
        if path.startswith(os.path.realpath(REPO) + os.sep):
            return '%s:%d' % (os.path.basename(path), tb.lineno)
        if path.startswith(VERIF + os.sep) and os.path.basename(path) not in ('seams.py', 'kernel.py'):
            return None
    return None


def out_of_time(signum, frame):
    signal.signal(signal.SIGXCPU, signal.SIG_IGN)
    raise BudgetExceeded()


def crashed(status):
    """A process died of what its code did (not of a limit, or of being killed)"""
    return os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
        signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT)


def run(prop, prog, keep_log=False):
    """Runs a program in a fresh fork of this process (which has not executed any of angler)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            used = resource.getrusage(resource.RUSAGE_SELF)
            used = int(used.ru_utime + used.ru_stime)
            signal.signal(signal.SIGXCPU, out_of_time)
            resource.setrlimit(resource.RLIMIT_CPU, (used + RUN_CPU_LIMIT, used + 2*RUN_CPU_LIMIT))
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            data = json.dumps(execute(prop, prog, keep_log)).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = real_time() + RUN_WALL_LIMIT
    timed_out = False
    while True:
        left = deadline - real_time()
        ready = select.select([r], [], [], max(0.0, left))[0] if left > 0 else []
        if not ready:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if chunks and not timed_out:
        try:
            return json.loads(b''.join(chunks))
        except ValueError:
            pass
    died = crashed(status)
    return {'status': 'violation' if died else 'error', 'oracle': 'crash' if died else None,
            'message': 'the process died of signal %d' % os.WTERMSIG(status) if died else
                       'the simulated run ended with wait status %d%s'
                       % (status, ' (timeout)' if timed_out else ''),
            'hash': '', 'shape': '', 'calls': [], 'fired': {}, 'probes': {}, 'sim_s': 0.0, 'oracles': 0,
            'total_calls': 0, 'clock_jumps': 0, 'clock_reads': 0, 'taken': None}


# ------------------------------------------------------------------------------------------
# the search
# ------------------------------------------------------------------------------------------

def kinds_at(allowed, seam):
    """What can fail at a seam ('solve.real' is a 'solve')"""
    for name in (seam, seam.split('.')[0]):
        if name in allowed:
            return allowed[name] if isinstance(allowed, dict) else True
    return None


def choose_faults(rng, mod, calls):
    """One or two faults, placed among the seam calls that the fault-free run made"""
    allowed = getattr(mod, 'FAULTS', {})
    by_op = {}
    for (op, seam, n) in calls:
        if kinds_at(allowed, seam) and n > 0:
            by_op.setdefault(op, {})[seam] = n
    if not by_op:
        return []
    focus = getattr(mod, 'FOCUS', None)
    if focus and rng.random() < 0.6:
        near = {op: {s: n for s, n in d.items() if kinds_at(focus, s)} for op, d in by_op.items()}
        by_op = {op: d for op, d in near.items() if d} or by_op
    out = []
    for _ in range(1 if rng.random() < 0.7 else 2):
        op = rng.choice(sorted(by_op))
        seam = rng.choice(sorted(by_op[op]))
        n = by_op[op][seam]
        # the first, the last, or any call
        nth = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
        out.append({'op': op, 'seam': seam, 'nth': nth, 'kind': rng.choice(kinds_at(allowed, seam))})
    return out


def program(prop, seed, k):
    """Program number k of a search, without faults"""
    mod = load(prop)
    rng = random.Random(derive(seed, prop, k))
    prog = mod.gen(rng, k)
    prog['seed'] = derive(seed, prop, k, 'run') % (2**31)
    if 'backend' not in prog:
        prog['backend'] = 'scipy' if rng.random() < getattr(mod, 'SCIPY', 0.15) else 'pardiso'
    if 'clock' not in prog:
        prog['clock'] = rng.choice(['steady', 'steady', 'jumpy', 'frozen'])
    return prog, rng


class Stats:

    def __init__(self):
        self.runs = 0
        self.seeds = 0
        self.oracles = 0
        self.sim_s = 0.0
        self.calls = 0
        self.fired = {}
        self.planned = 0
        self.probes = {}
        self.shapes = set()
        self.faulty_runs = 0
        self.clock_jumps = 0
        self.clock_reads = 0
        self.backends = {}
        self.errors = []
        self.found = []
        self.samples = []

    def add(self, prog, res):
        self.runs += 1
        self.oracles += res['oracles']
        self.sim_s += res['sim_s']
        self.calls += res['total_calls']
        self.clock_jumps += res['clock_jumps']
        self.clock_reads += res['clock_reads']
        self.planned += len(prog.get('faults', []))
        for k, v in res['fired'].items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in res['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + v
        if res['fired']:
            self.faulty_runs += 1
        if res['oracles'] > 0 and res['total_calls'] > 0:
            self.shapes.add(res['shape'][:20])
        b = prog.get('backend', 'pardiso')
        self.backends[b] = self.backends.get(b, 0) + 1

    def merge(self, o):
        for k in ['runs', 'seeds', 'oracles', 'sim_s', 'calls', 'planned', 'faulty_runs', 'clock_jumps',
                  'clock_reads']:
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for name in ['fired', 'probes', 'backends']:
            d = getattr(self, name)
            for k, v in getattr(o, name).items():
                d[k] = d.get(k, 0) + v
        self.shapes |= o.shapes
        self.errors += o.errors
        self.found += o.found
        self.samples += o.samples


def search_seed(prop, seed, k, stats):
    mod = load(prop)
    prog, rng = program(prop, seed, k)
    stats.seeds += 1
    progs = [prog]
    res = run(prop, prog)
    stats.add(prog, res)
    if len(stats.samples) < 1:
        stats.samples.append({'seed_index': k, 'program': prog, 'result': res['status']})
    if res['status'] == 'ok' and getattr(mod, 'FAULTS', None):
        for v in range(getattr(mod, 'VARIANTS', 1)):
            faults = choose_faults(rng, mod, res['calls'])
            if not faults:
                continue
            p = dict(prog, faults=faults)
            q = run(prop, p)
            stats.add(p, q)
            if len(stats.samples) < 2:
                stats.samples.append({'seed_index': k, 'program': p, 'result': q['status']})
            if q['status'] != 'ok':
                prog, res = p, q
                break
    if res['status'] == 'violation':
        if res.get('taken') is not None and 'preempt' not in prog:
            prog = dict(prog, preempt=res['taken'])
        stats.found.append((k, prog, res))
    elif res['status'] == 'error':
        stats.errors.append((k, prog, res))
    return res['status']


def worker(prop, seed, ks, stop_after, conn):
    stats = Stats()
    t0 = real_time()
    for k in ks:
        if stop_after is not None and real_time() - t0 > stop_after:
            break
        if search_seed(prop, seed, k, stats) != 'ok':
            break
    with os.fdopen(conn, 'wb') as f:
        pickle.dump(stats, f)


def search(prop, seed, count, workers, stop_after=None):
    """Explores seeds 0..count-1 on several processes; what is explored does not depend on how many"""
    procs = []
    for w in range(workers):
        ks = range(w, count, workers)
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(prop, seed, ks, stop_after, wr)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    total = Stats()
    for pid, r in procs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            total.errors.append((-1, {}, {'message': 'a worker died (status %d)' % status}))
        else:
            total.merge(pickle.loads(data))
    total.found.sort(key=lambda t: t[0])
    total.errors.sort(key=lambda t: t[0])
    total.samples.sort(key=lambda s: s['seed_index'])
    return total


# ------------------------------------------------------------------------------------------
# minimisation
# ------------------------------------------------------------------------------------------

def simpler(prop, prog):
    """Programs one step simpler than this one, most drastic first"""
    mod = load(prop)
    faults = prog.get('faults', [])
    for i in range(len(faults)):
        yield dict(prog, faults=faults[:i] + faults[i + 1:])
    if prog.get('preempt'):
        p = prog['preempt']
        if len(p) > 1:
            h = len(p)//2
            yield dict(prog, preempt=p[:h])
            yield dict(prog, preempt=p[h:])
        for i in range(min(len(p), 40)):
            yield dict(prog, preempt=p[:i] + p[i + 1:])
    ops = prog.get('ops')
    if ops and len(ops) > 1:
        n = len(ops)
        size = n//2
        while size >= 1:
            for i in range(0, n, size):
                gone = set(range(i, min(i + size, n)))
                yield drop_ops(prog, gone)
            size //= 2
    if prog.get('clock', 'steady') != 'steady':
        yield dict(prog, clock='steady')
    if prog.get('backend') == 'scipy':
        yield dict(prog, backend='pardiso')
    if hasattr(mod, 'simplify'):
        for p in mod.simplify(prog):
            yield p


def drop_ops(prog, gone):
    ops = prog['ops']
    keep = [i for i in range(len(ops)) if i not in gone]
    renumber = {old: new for new, old in enumerate(keep)}
    faults = [dict(f, op=renumber[f['op']]) for f in prog.get('faults', []) if f['op'] in renumber]
    return dict(prog, ops=[ops[i] for i in keep], faults=faults)


def minimise(prop, prog, res, seconds=60, runs=150):
    """Shrinks a failing program while the same oracle of the same property fails"""
    t0 = real_time()
    tried = 0
    best, best_res = prog, res
    progress = True
    seen = set()
    while progress:
        progress = False
        for p in simpler(prop, best):
            if real_time() - t0 > seconds or tried >= runs:
                return best, best_res, tried
            key = canonical(p)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            r = run(prop, p)
            if r['status'] == 'violation' and r['oracle'] == best_res['oracle']:
                best, best_res = p, r
                progress = True
                break
    return best, best_res, tried


# ------------------------------------------------------------------------------------------
# commands
# ------------------------------------------------------------------------------------------

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get('findings', []) if x['property'] == prop]


def write_replay(prop, prog, res):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    name = '%s-%s.json' % (prop, hashlib.sha256(canonical(prog).encode()).hexdigest()[:12])
    path = os.path.join(folder, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'program': prog, 'oracle': res['oracle'], 'message': res['message'],
                   'hash': res['hash']}, f, indent=1, sort_keys=True)
    return os.path.join('replays', name)


def check(prop, tier, seed, workers):
    t0 = real_time()
    mod = load(prop)
    count = mod.QUICK if tier == 'quick' else mod.THOROUGH
    stop_after = None if tier == 'quick' else getattr(mod, 'THOROUGH_SECONDS', 700)
    violations = 0
    stats = search(prop, seed, count, workers, stop_after)
    known = known_findings(prop)
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    found = [x for x in stats.found if not any(matches(f, x) for f in known)]
    code = 0
    if stats.errors and not found:
        for (k, prog, res) in stats.errors[:3]:
            print('ERROR in seed %s: %s' % (k, res['message']))
        code = 2
    if found:
        (k, prog, res) = found[0]
        # a replay has to fail in the same way
        again = run(prop, prog)
        if again['status'] != 'violation' or again['oracle'] != res['oracle']:
            print('ERROR: seed %d is not repeatable: %s, then %s %s'
                  % (k, res['message'], again['status'], again['message']))
            code = 2
        else:
            small, small_res, tried = minimise(prop, prog, again)
            path = write_replay(prop, small, small_res)
            print('seed index %d of VERIF_SEED=%d; minimised in %d runs' % (k, seed, tried))
            print('%s: %s' % (small_res['oracle'], small_res['message']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            violations = len(found)
            code = 1
    wall = real_time() - t0
    evidence(prop, tier, seed, stats, wall, violations, mod)
    print('%s %s: %d seeds, %d simulated runs, %d distinct schedules, %d oracle evaluations, %.1f s'
          % (prop, tier, stats.seeds, stats.runs, len(stats.shapes), stats.oracles, wall))
    return code


def matches(finding, found):
    (_, prog, res) = found
    return res['oracle'] == finding.get('oracle') and finding.get('message', '') in res['message']


COMPONENTS_REAL = ['angler (all modules, from /repo\'s working tree)', 'numpy', 'scipy', 'pyMKL/MKL PARDISO',
                   'autograd', 'progressbar']
COMPONENTS_STUB = ['clock', 'entropy', 'terminal', 'image rendering (records the figure)']


def evidence(prop, tier, seed, stats, wall, violations, mod):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    data = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats.runs,
            'distinct_nontrivial': len(stats.shapes),
            'rule': 'One evaluation is one simulated run of a generated program (a JSON list of '
                    'operations) in a fresh process. Runs are distinct if their schedules differ: the '
                    'hash of the sequence of operations, seam calls, injected faults and thread '
                    'switches. A run is non-trivial if the code under test made at least one seam call '
                    'and at least one oracle was evaluated.',
            'samples': stats.samples[:3],
            'seeds': stats.seeds,
            'simulated_runs_per_hour': round(stats.runs/max(wall, 1e-9)*3600),
            'seeds_per_hour': round(stats.seeds/max(wall, 1e-9)*3600),
            'simulated_time_s': round(stats.sim_s, 1),
            'seam_calls': stats.calls,
            'oracle_evaluations': stats.oracles,
            'runs_in_which_a_fault_fired': stats.faulty_runs,
            'faults_planned': stats.planned,
            'faults_fired': dict(sorted(stats.fired.items())),
            'clock_jumps': stats.clock_jumps,
            'clock_reads': stats.clock_reads,
            'probes': dict(sorted(stats.probes.items())),
            'probes_never_hit': [p for p in getattr(mod, 'PROBES', []) if not stats.probes.get(p)],
            'solver_backends': stats.backends,
            'components_real': COMPONENTS_REAL,
            'components_stubbed': COMPONENTS_STUB + list(getattr(mod, 'STUBS', [])),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'The simulator samples programs, schedules and faults: a clean batch is evidence, not proof.',
            'Faults are injected at calls into libraries (the seams), not between arbitrary bytecodes.',
        ],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=str)


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop, prog = data['property'], data['program']
    res = run(prop, prog, keep_log=True)
    for line in res.get('log', []):
        print('  ' + line)
    print('status %s' % res['status'])
    if res['status'] == 'violation':
        same = res['oracle'] == data['oracle'] and res['hash'] == data['hash']
        print('%s: %s' % (res['oracle'], res['message']))
        print('identical to the recorded execution: %s' % ('yes' if same else 'NO'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if res['status'] == 'error':
        print(res['message'])
        return 2
    return 0


def digest(prop, seed, count):
    """Prints one line per run: for diffing executions against each other"""
    mod = load(prop)
    for k in range(count):
        prog, rng = program(prop, seed, k)
        res = run(prop, prog)
        print(k, res['status'], res['hash'], flush=True)
        if res['status'] == 'ok' and getattr(mod, 'FAULTS', None):
            f = choose_faults(rng, mod, res['calls'])
            res = run(prop, dict(prog, faults=f))
            print(k, canonical(f), res['status'], res['hash'], flush=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('command', choices=['check', 'replay', 'digest', 'one', 'selftest'])
    p.add_argument('what')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument('--count', type=int, default=20)
    p.add_argument('--index', type=int, default=0)
    p.add_argument('--log', action='store_true')
    a = p.parse_args()
    prepare()
    if a.command == 'check':
        code = check(a.what, a.tier, a.seed, a.workers)
    elif a.command == 'replay':
        code = replay(a.what)
    elif a.command == 'selftest':
        code = 0
        for name in sorted(os.listdir(os.path.join(VERIF, 'vsim', 'props'))):
            if name.startswith('c') and name.endswith('.py'):
                prog, _ = program(name[:-3].upper(), a.seed, 0)
                x, y = run(name[:-3], prog), run(name[:-3], prog)
                print(name[:-3], x['status'], 'repeatable' if x['hash'] == y['hash'] else 'NOT REPEATABLE')
                if x['status'] == 'error' or x['hash'] != y['hash']:
                    print(x['message'])
                    code = 2
    elif a.command == 'digest':
        digest(a.what, a.seed, a.count)
        code = 0
    else:
        prog, rng = program(a.what, a.seed, a.index)
        print(json.dumps(prog, indent=1))
        res = run(a.what, prog, keep_log=a.log)
        print(json.dumps({k: v for k, v in res.items() if k != 'log'}, indent=1))
        print('\n'.join(res.get('log', [])))
        print(res['message'])
        code = 0
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(2)
