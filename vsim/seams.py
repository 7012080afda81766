"""The seams: every library call through which nondeterminism or a fault can reach angler.

They are patched at their origin (the library's own modules and classes), before angler is imported,
so that they stay in place however angler chooses to import or call them.  With no Sim running, or
while an oracle runs, every seam passes straight through.
"""
import builtins
import copy
import datetime as _datetime
import os
import random
import shutil
import sys
import time
import timeit
import types
import warnings

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

from vsim import kernel

# the real things, for the oracles and for passing through
REAL = types.SimpleNamespace(
    spsolve=spl.spsolve, eigs=spl.eigs, splu=spl.splu, deepcopy=copy.deepcopy,
    spdiags=sp.spdiags, diags=sp.diags, kron=sp.kron, vstack=sp.vstack, hstack=sp.hstack, eye=sp.eye,
    csr_matrix=sp.csr_matrix, coo_matrix=sp.coo_matrix, csc_matrix=sp.csc_matrix,
    time=time.time, perf_counter=time.perf_counter, monotonic=time.monotonic,
    default_timer=timeit.default_timer, default_rng=np.random.default_rng,
    unlink=os.unlink, remove=os.remove, rmdir=os.rmdir, rmtree=shutil.rmtree, rename=os.rename,
    replace=os.replace, makedirs=os.makedirs, mkdir=os.mkdir, listdir=os.listdir, open=builtins.open,
)

_installed = False


def current():
    s = kernel.CURRENT
    if s is None or s.suspended:
        return None
    return s


class Sink:
    """Stands in for the terminal"""
    encoding = 'utf-8'

    def __init__(self, seam):
        self.seam = seam

    def write(self, text):
        s = current()
        if s is not None and self.seam:
            s.call(self.seam, '')
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('not a file')


def _wrap(module, name, seam):
    real = getattr(module, name)

    def wrapper(*args, **kwargs):
        s = current()
        if s is not None:
            s.call(seam, name)
        return real(*args, **kwargs)
    wrapper.__name__ = name
    wrapper.__wrapped__ = real
    setattr(module, name, wrapper)
    return real


def kind_of(dtype):
    """Solves of real matrices (Newton's method) are a seam of their own: faults are to reach them as often"""
    return '' if np.issubdtype(np.dtype(dtype), np.complexfloating) else '.real'


SPOILED = ('partial', 'nans')


def spoil(kind, x):
    """A solution of which only a part was computed"""
    size = np.abs(x)
    if kind == 'partial':
        x[size >= np.median(size)] = 0
    else:
        x.flat[np.argmax(size)] = np.nan
    return x


def install():
    """Puts the seams in place.  Call before importing angler."""
    global _installed
    if _installed:
        return
    _installed = True
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')

    # sparse assembly: where a large simulation runs out of memory
    for name in ['spdiags', 'diags', 'kron', 'vstack', 'hstack', 'eye']:
        _wrap(sp, name, 'assemble')

    # direct solvers
    real_spsolve = spl.spsolve

    def spsolve(A, b, *args, **kwargs):
        s = current()
        kind = None if s is None else s.call('spsolve' + kind_of(A.dtype), 'n=%d' % A.shape[0])
        if kind in SPOILED:
            return spoil(kind, np.array(real_spsolve(A, b, *args, **kwargs)))
        if kind == 'silent':
            # what scipy returns for a singular matrix, with a warning
            return np.full(np.shape(b), np.nan, dtype=np.result_type(A.dtype, np.asarray(b).dtype))
        return real_spsolve(A, b, *args, **kwargs)
    spl.spsolve = spsolve
    import scipy.sparse.linalg._dsolve as dsolve
    for mod in (dsolve, getattr(dsolve, 'linsolve', None)):
        if mod is not None and hasattr(mod, 'spsolve'):
            mod.spsolve = spsolve
    for name in ['splu', 'spilu', 'factorized', 'gmres', 'bicgstab', 'lgmres']:
        _wrap(spl, name, 'spsolve')

    # eigenmodes
    real_eigs = spl.eigs

    def eigs(A, *args, **kwargs):
        s = current()
        if s is not None:
            kind = s.call('eigs', 'n=%d' % A.shape[0])
            if kind == 'noconv':
                raise spl.ArpackNoConvergence('simulated: ARPACK did not converge',
                                              np.zeros(0), np.zeros((A.shape[0], 0)))
        return real_eigs(A, *args, **kwargs)
    spl.eigs = eigs

    # copies of whole simulations
    real_deepcopy = copy.deepcopy

    def deepcopy(x, memo=None, *rest):
        s = current()
        if s is not None and memo is None:
            s.call('deepcopy', type(x).__name__)
        return real_deepcopy(x, memo, *rest)
    copy.deepcopy = deepcopy

    _install_pardiso()
    _install_time()
    _install_entropy()
    _install_files()
    _install_progressbar()
    _install_matplotlib()
    _install_locks()


def _install_locks():
    import threading

    def wrap(real):
        def make(*args):
            lock = real(*args)
            return kernel.CoopLock(lock) if sys._getframe(1).f_globals.get('__name__', '').startswith('angler') else lock
        return make
    threading.Lock = wrap(threading.Lock)
    threading.RLock = wrap(threading.RLock)


def _install_pardiso():
    try:
        import pyMKL
    except Exception:
        return
    cls = pyMKL.pardisoSolver
    real_init = cls.__init__
    real_run = cls.run_pardiso

    def init(self, *args, **kwargs):
        real_init(self, *args, **kwargs)
        self._vsim_open = False
        self._vsim_silent = False

    def run_pardiso(self, phase, rhs=None):
        s = current()
        if phase in (33, 331, 332, 333) and not self._vsim_open:
            # the library would read memory that has been released, or that was never set
            raise RuntimeError('solved with a factorisation that does not exist (any more)')
        if s is None:
            if phase in (11, 12, 13, 22, 23):
                self._vsim_open = True
            elif phase in (-1, 0):
                self._vsim_open = False
                if kernel.CURRENT is not None:
                    kernel.CURRENT.open_factors.pop(id(self), None)
            return real_run(self, phase, rhs)
        real_matrix = kind_of(self.dtype)
        if phase in (11, 12, 13, 22, 23):
            # the library allocates during the analysis: a failure part-way still needs releasing
            s.open_factors[id(self)] = (self, s.op)
            self._vsim_open = True
            kind = s.call('factor' + real_matrix, 'n=%d' % self.n)
            if kind == 'silent':
                self._vsim_silent = True
                return np.zeros(1)
        elif phase in (33, 331, 332, 333):
            kind = s.call('solve' + real_matrix, 'n=%d' % self.n)
            if kind in SPOILED and not self._vsim_silent:
                return spoil(kind, np.array(real_run(self, phase, rhs)))
            if kind == 'silent' or self._vsim_silent:
                # pyMKL drops the error code and returns the zeros it allocated
                shape = np.asarray(rhs).shape
                return np.zeros(shape, dtype=self.dtype)
        elif phase in (-1, 0):
            s.open_factors.pop(id(self), None)
            self._vsim_open = False
            s.log('release n=%d' % self.n)
        return real_run(self, phase, rhs)
    cls.__init__ = init
    cls.run_pardiso = run_pardiso


def _install_time():
    def wrap(real):
        def f(*args):
            s = kernel.CURRENT
            return real(*args) if s is None else s.time()
        return f
    time.time = wrap(time.time)
    time.perf_counter = wrap(time.perf_counter)
    time.monotonic = wrap(time.monotonic)
    timeit.default_timer = wrap(timeit.default_timer)

    def no_sleep(dt, real=time.sleep):
        s = kernel.CURRENT
        if s is None:
            return real(dt)
        s.now += dt
        s.sim_elapsed += dt
    time.sleep = no_sleep

    class SimDatetime(_datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            s = kernel.CURRENT
            if s is None:
                return super().now(tz)
            return cls.fromtimestamp(s.time(), tz)
    _datetime.datetime = SimDatetime


def _install_entropy():
    real = np.random.default_rng

    def default_rng(seed=None):
        s = kernel.CURRENT
        if seed is None and s is not None:
            seed = s.entropy()
        return real(seed)
    np.random.default_rng = default_rng

    real_urandom = os.urandom

    def urandom(n):
        s = kernel.CURRENT
        if s is None:
            return real_urandom(n)
        return bytes(s.entropy_rng.getrandbits(8) for _ in range(n))
    os.urandom = urandom


def _inside(path, scratch):
    if scratch is None:
        return False
    p = os.path.realpath(os.fspath(path))
    return p.startswith(os.path.realpath(scratch) + os.sep)


def _install_files():
    """Destructive calls only ever act inside the run's scratch directory; any other target is
       recorded and left alone."""

    def guard(module, name, seam='fs'):
        real = getattr(module, name)

        def f(path, *args, **kwargs):
            s = current()
            if s is None:
                return real(path, *args, **kwargs)
            targets = [path]
            if name in ('rename', 'replace') and args:
                targets.append(args[0])
            for t in targets:
                if not isinstance(t, int) and not _inside(t, s.scratch):
                    s.refused.append([name, str(t)])
                    s.log('refused %s' % name)
                    return None
            if s.disk_observer is not None:
                s.disk_observer()
            kind = s.call(seam, name)
            out = real(path, *args, **kwargs)
            if kind == 'crash-after':
                s.crash()
            return out
        f.__name__ = name
        setattr(module, name, f)

    for name in ['unlink', 'remove', 'rmdir', 'rename', 'replace', 'makedirs', 'mkdir', 'truncate']:
        guard(os, name)
    guard(shutil, 'rmtree')

    real_open = builtins.open

    def sim_open(file, mode='r', *args, **kwargs):
        s = current()
        if s is None or isinstance(file, int) or not any(c in mode for c in 'wax+'):
            return real_open(file, mode, *args, **kwargs)
        if not _inside(file, s.scratch):
            s.refused.append(['open', str(file)])
            s.log('refused open')
            return real_open(os.devnull, mode, *args, **kwargs)
        kind = s.call('open', os.path.basename(os.fspath(file)))
        f = real_open(file, mode, *args, **kwargs)
        if kind == 'crash-after':
            s.crash()
        return SimFile(f)
    builtins.open = sim_open
    import io
    io.open = sim_open

    def sync(fd, real=os.fsync):
        s = current()
        if s is None:
            return real(fd)
        if s.disk_observer is not None:
            s.disk_observer()
        if s.call('fs', 'fsync') == 'crash-after':
            s.crash()
    os.fsync = os.fdatasync = sync


class SimFile:
    """A file that was opened for writing: every write can fail, also half-way"""

    def __init__(self, real):
        self.__dict__['real'] = real

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __setattr__(self, name, value):
        setattr(self.real, name, value)

    def __iter__(self):
        return iter(self.real)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    def write(self, data):
        s = current()
        if s is None:
            return self.real.write(data)
        if s.disk_observer is not None:
            s.disk_observer()
        kind = s.call('write', '')
        half = len(data)//2
        if kind == 'full':
            self.real.write(data[:half])
            self.real.flush()
            raise kernel.InjectedOSError(28, 'simulated: no space left on device')
        out = self.real.write(data)
        if kind == 'crash-after':
            self.real.flush()
            s.crash()
        return out

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        if self.real.closed:
            return
        s = current()
        kind = None
        try:
            if s is not None:
                kind = s.call('write', 'close')
        finally:
            self.real.close()
        if kind == 'full':
            raise kernel.InjectedOSError(28, 'simulated: no space left on device')
        if kind == 'crash-after':
            s.crash()


def _install_progressbar():
    import progressbar
    from progressbar import utils
    bar = Sink('bar')
    utils.streams.original_stderr = bar
    utils.streams.stderr = bar
    import progressbar.bar as pbar
    # modules that took their own reference to the clock
    for mod in list(sys.modules.values()):
        if mod is None or not getattr(mod, '__name__', '').startswith('progressbar'):
            continue
        if isinstance(getattr(mod, 'datetime', None), type):
            mod.datetime = _datetime.datetime
    # an unfinished bar writes from its destructor, whenever that runs
    pbar.ProgressBarMixinBase.__del__ = lambda self: None


def _install_matplotlib():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import matplotlib.figure as figure

    def shown(im):
        a = np.ma.filled(im.get_array(), np.nan)
        if a.ndim == 1:     # a mesh of an older matplotlib
            a = a.reshape([n - 1 for n in im.get_coordinates().shape[:2]])
        return a.copy()

    def savefig(self, fname, *args, **kwargs):
        """A stand-in that records what the figure shows instead of rendering it"""
        s = current()
        if s is None:
            return
        path = os.fspath(fname)
        if not _inside(path, s.scratch):
            s.refused.append(['savefig', str(path)])
            return
        frame = {'path': path, 'axes': []}
        for ax in self.axes:
            frame['axes'].append({
                'title': ax.get_title(),
                'texts': [t.get_text() for t in ax.texts],
                'images': [shown(im) for im in list(ax.images) + list(ax.collections)
                           if type(im).__name__ in ('AxesImage', 'QuadMesh')],
                'lines': [np.array(l.get_xydata()) for l in ax.lines],
            })
        kind = s.call('savefig', os.path.basename(path))
        with REAL.open(path, 'wb') as f:
            f.write(b'PNG' if kind is None else b'P')
        if kind == 'full':
            raise kernel.InjectedOSError(28, 'simulated: no space left on device')
        s.frames = getattr(s, 'frames', [])
        s.frames.append(frame)
    figure.Figure.savefig = savefig

    # drawing fails, for example for lack of memory
    import matplotlib.axes as axes
    for cls, name in [(axes.Axes, 'imshow'), (axes.Axes, 'pcolormesh'), (axes.Axes, 'plot'), (axes.Axes, 'contour'),
                      (figure.Figure, 'colorbar'), (figure.Figure, 'add_subplot')]:
        _wrap(cls, name, 'draw')
    plt.show = lambda *a, **k: None
