"""The simulation kernel.

A Sim is one simulated execution.  It owns the virtual clock, the entropy, the fault plan, the
event log and (for multi-threaded workloads) the scheduler.  Seams (seams.py) report to the Sim that
is CURRENT; with no CURRENT Sim they pass straight through to the real libraries, which is how the
oracles use numpy and scipy without being simulated themselves.

Everything a Sim does is a pure function of its program (a JSON value) and of the code under test.
"""
import hashlib
import json
import os
import random
import sys
import threading

CURRENT = None


class Violation(Exception):
    """The property under test does not hold."""

    def __init__(self, oracle, message, **detail):
        Exception.__init__(self, message)
        self.oracle = oracle
        self.message = message
        self.detail = detail


class BudgetExceeded(BaseException):
    """The code under test made more seam calls than the run allows (no progress)."""


class InjectedInterrupt(KeyboardInterrupt):
    """A simulated Ctrl-C."""


class InjectedMemoryError(MemoryError):
    """A simulated failed allocation."""


class InjectedRuntimeError(RuntimeError):
    """A simulated failure inside a library or a user's callback."""


class InjectedOSError(OSError):
    """A simulated failing system call."""


class Crash(BaseException):
    """The simulated process is killed.  What unwinds after this has no effect on the disk: the run's
    folder is put back as it was at this point."""


INJECTED = (InjectedInterrupt, InjectedMemoryError, InjectedRuntimeError, InjectedOSError)

# seams at which each kind of fault can be injected.  'silent' is handled by the seam itself.
FAULT_KINDS = {
    'factor': ['mem', 'err', 'int', 'silent'],
    'solve': ['mem', 'err', 'int', 'silent', 'partial', 'nans'],
    'spsolve': ['mem', 'err', 'int', 'silent', 'partial', 'nans'],
    'assemble': ['mem', 'int'],
    'eigs': ['mem', 'noconv', 'int'],
    'deepcopy': ['mem', 'int'],
    'objective': ['err', 'int', 'mem'],
    'probe': ['err', 'int'],
    'bar': ['io', 'int'],
    'draw': ['mem', 'err', 'int'],
    'savefig': ['io', 'full', 'int'],
    'fs': ['io', 'int', 'crash', 'crash-after'],
    'dump': ['mem', 'err', 'int', 'crash'],
    'open': ['io', 'crash-after'],
    'write': ['io', 'full', 'int', 'crash', 'crash-after'],
}


def disk(folder):
    """Everything in a folder: path -> contents, None (folders) or target (links)"""
    out = {}
    for base, dirs, files in os.walk(folder):
        for n in dirs + files:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[os.path.relpath(p, folder)] = os.readlink(p)
            elif os.path.isdir(p):
                out[os.path.relpath(p, folder)] = None
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, folder)] = f.read()
    return out


def derive(*parts):
    """An integer seed derived from any parts."""
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1


class Sim:

    def __init__(self, seed, faults=(), budget=200000, preempt=None, preempt_rate=0.0,
                 keep_log=False, clock='steady'):
        self.seed = seed
        self.faults = [dict(f) for f in faults]
        self.budget = budget
        self.total_calls = 0
        self.clock_mode = clock
        self.clock_rng = random.Random(derive(seed, 'clock'))
        self.entropy_rng = random.Random(derive(seed, 'entropy'))
        self.now = 1.5e9
        self.sim_elapsed = 0.0
        self.clock_reads = 0
        self.clock_jumps = 0

        self.op = -1                    # index of the operation being executed
        self.calls = {}                 # (op, seam) -> number of calls
        self.fired = {}                 # 'seam.kind' -> number of times it fired
        self.fired_ops = set()          # operations in which a fault fired
        self.probes = {}
        self.hash = hashlib.sha256()
        self.shape = hashlib.sha256()   # the schedule only: which seams and faults, in which order
        self.keep_log = keep_log
        self.log_lines = []
        self.oracles = 0                # oracle evaluations
        self.suspended = 0              # >0 while an oracle runs: seams pass through
        self.scratch = None
        self.observer = None            # called whenever the code under test evaluates an objective
        self.open_factors = {}          # id -> description of factorisations not released
        self.refused = []               # file operations outside the scratch directory
        self.crashed = None             # what was on the disk when the process was killed
        self.disk_observer = None       # called whenever the code under test is about to touch the disk

        # scheduler (used only by multi-threaded workloads)
        self.sched = None
        self.preempt = preempt
        self.preempt_rate = preempt_rate

    # -- the log ---------------------------------------------------------------------------

    def log(self, text, shape=None):
        self.hash.update(text.encode() + b'\n')
        self.shape.update((text if shape is None else shape).encode() + b'\n')
        if self.keep_log:
            self.log_lines.append(text)

    def probe(self, name, n=1):
        """Counts that something worth reaching was reached"""
        self.probes[name] = self.probes.get(name, 0) + n

    # -- operations ------------------------------------------------------------------------

    def begin(self, index, label):
        self.op = index
        self.log('op %d %s' % (index, label), shape='op %s' % label)

    def fault_fired(self, index=None):
        """Did any fault fire in this operation?"""
        return (self.op if index is None else index) in self.fired_ops

    # -- seams -----------------------------------------------------------------------------

    def call(self, seam, info=''):
        """A seam call by the code under test.  Raises the planned fault, or returns the name of
           a fault that the seam has to act out itself ('silent', 'full', 'crash') or None."""
        if self.suspended or self.crashed is not None:
            return None
        if self.sched is not None:
            self.sched.yield_point(seam)
        self.total_calls += 1
        op = self.op if self.sched is None else self.sched.running
        key = (op, seam)
        n = self.calls.get(key, 0)
        self.calls[key] = n + 1
        self._tick()
        who = self.sched.running if self.sched is not None else 0
        self.log('%d call %s %d %s' % (who, seam, n, info), shape='%d call %s' % (who, seam))
        if self.total_calls > self.budget:
            raise BudgetExceeded()
        for f in self.faults:
            if f['op'] == op and f['seam'] == seam and f['nth'] == n and not f.get('done'):
                f['done'] = True
                return self._fire(seam, f['kind'], op)
        return None

    def _fire(self, seam, kind, op):
        name = seam + '.' + kind
        self.fired[name] = self.fired.get(name, 0) + 1
        self.fired_ops.add(op)
        self.log('fault ' + name)
        if kind == 'mem':
            raise InjectedMemoryError('simulated: out of memory in ' + seam)
        if kind == 'err':
            raise InjectedRuntimeError('simulated: failure in ' + seam)
        if kind == 'int':
            raise InjectedInterrupt('simulated: interrupted in ' + seam)
        if kind == 'crash':
            self.crash()
        if kind == 'io':
            raise InjectedOSError(5, 'simulated: I/O error in ' + seam)
        return kind

    def crash(self):
        """The process is killed here and now"""
        self.log('crash')
        self.crashed = disk(self.scratch)
        raise Crash('simulated: killed')

    def restart(self):
        """A new process finds what was on the disk when the last one was killed"""
        state, self.crashed = self.crashed, None
        for base, dirs, files in os.walk(self.scratch, topdown=False):
            for n in files:
                os.unlink(os.path.join(base, n))
            for n in dirs:
                p = os.path.join(base, n)
                os.unlink(p) if os.path.islink(p) else os.rmdir(p)
        for p, content in sorted(state.items()):
            full = os.path.join(self.scratch, p)
            if content is None:
                os.makedirs(full)
            elif isinstance(content, str):
                os.symlink(content, full)
            else:
                with open(full, 'wb') as f:
                    f.write(content)

    # -- time and entropy ------------------------------------------------------------------

    def _tick(self):
        r = self.clock_rng
        dt = r.choice([0.001, 0.01, 0.1, 1.0, 5.0, 60.0]) * (0.5 + r.random())
        self.sim_elapsed += dt
        self.now += dt
        if self.clock_mode == 'jumpy' and r.random() < 0.2:
            self.clock_jumps += 1
            self.now += r.choice([-7200.0, -1.0, 3600.0, 86400.0*30, -86400.0*365])
        elif self.clock_mode == 'frozen':
            self.now -= dt

    def time(self):
        if not self.suspended:
            self.clock_reads += 1
        return self.now

    def entropy(self):
        self.log('entropy')
        self.probe('entropy drawn')
        return self.entropy_rng.getrandbits(64)

    # -- oracles ---------------------------------------------------------------------------

    def __enter__(self):
        global CURRENT
        CURRENT = self
        return self

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = None
        return False

    def oracle(self):
        return _Suspend(self)


class _Suspend:
    """While oracles run, the seams of this Sim pass through."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.suspended += 1
        self.sim.oracles += 1

    def __exit__(self, *exc):
        self.sim.suspended -= 1
        return False


# ------------------------------------------------------------------------------------------
# threads
# ------------------------------------------------------------------------------------------

class Scheduler:
    """Runs real threads one at a time.  At every yield point (a seam call or a line of the code
       under test) the scheduler decides who continues, from the seed or from a recorded list of
       preemptions [[point, task], ...]."""

    def __init__(self, sim, tasks, line_files, line_rate, max_points=3000000):
        self.sim = sim
        self.tasks = tasks
        self.n = len(tasks)
        self.events = [threading.Event() for _ in tasks]
        self.alive = [True]*self.n
        self.results = [None]*self.n
        self.point = 0
        self.running = 0
        self.main = threading.Event()
        self.rng = random.Random(derive(sim.seed, 'sched'))
        self.rate = sim.preempt_rate
        self.line_rate = line_rate
        self.plan = None if sim.preempt is None else {p: t for (p, t) in sim.preempt}
        self.taken = []
        self.line_files = line_files
        self.max_points = max_points
        self.failed = None
        self.idents = {}

    def run(self):
        self.sim.sched = self
        threads = []
        for i in range(self.n):
            t = threading.Thread(target=self._body, args=(i,), daemon=True)
            threads.append(t)
            t.start()
        first = self.rng.randrange(self.n) if self.plan is None else self.plan.get(0, 0)
        self.taken.append([0, first])
        self.running = first
        self.events[first].set()
        self.main.wait()
        self.sim.sched = None
        if self.failed is not None:
            raise self.failed
        return self.results

    def _body(self, i):
        self.events[i].wait()
        self.idents[threading.get_ident()] = i
        if self.line_rate:
            sys.settrace(self._trace)
        try:
            self.results[i] = self.tasks[i]()
        except BaseException as e:      # violations, harness errors; the tasks catch what angler raises
            self.failed = self.failed or e
        finally:
            sys.settrace(None)
            self.alive[i] = False
            nxt = self._next_alive(i)
            if nxt is None:
                self.main.set()
            else:
                self.running = nxt
                self.events[nxt].set()

    def _next_alive(self, i):
        for k in range(1, self.n + 1):
            j = (i + k) % self.n
            if self.alive[j]:
                return j
        return None

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.line_files) and frame.f_code.co_name != '<module>':
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line' and not self.sim.suspended:
            self.yield_point(None)
        return self._line

    def yield_point(self, seam):
        me = self.running
        if self.idents.get(threading.get_ident()) != me:
            return
        self.point += 1
        if self.point > self.max_points:
            raise BudgetExceeded()
        target = me
        if self.plan is None:
            p = self.rate if seam is not None else self.line_rate
            if p and self.rng.random() < p:
                alive = [j for j in range(self.n) if self.alive[j] and j != me]
                if alive:
                    target = self.rng.choice(alive)
        else:
            t = self.plan.get(self.point)
            if t is not None and t < self.n and self.alive[t]:
                target = t
        if target != me:
            self.taken.append([self.point, target])
            self.sim.log('switch %d -> %d at %d' % (me, target, self.point),
                         shape='switch %d %d' % (me, target))
            self.running = target
            self.events[me].clear()
            self.events[target].set()
            self.events[me].wait()


    def blocked(self):
        """The running thread waits for a lock that another one holds: let another one run"""
        me = self.running
        nxt = self._next_alive(me)
        self.waits = getattr(self, 'waits', 0) + 1
        if nxt is None or nxt == me or self.waits > 100000:
            raise Violation('deadlock', 'every session waits for a lock')
        self.running = nxt
        self.events[me].clear()
        self.events[nxt].set()
        self.events[me].wait()


class CoopLock:
    """A lock of the code under test, which must not stop the thread that the scheduler runs"""

    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        while not self.real.acquire(False):
            if not blocking:
                return False
            sched = None if CURRENT is None else CURRENT.sched
            if sched is None or sched.idents.get(threading.get_ident()) != sched.running:
                return self.real.acquire(blocking, timeout)
            sched.blocked()
        return True

    def release(self):
        self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()
        return False


def canonical(obj):
    return json.dumps(obj, sort_keys=True, separators=(',', ':'))
