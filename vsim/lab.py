"""A laboratory of simulations: operations a user performs on Simulation objects, with the model state
that the oracles need.  Used by the workloads of several properties."""
import numpy as np

from vsim.kernel import Violation, BudgetExceeded, Crash, INJECTED
from vsim import world
from vsim.ref import Ref, kerr, kerr_residual, kerr_solve
from vsim.seams import REAL


def attempt(sim, fn, *args, **kwargs):
    """Calls the code under test.  ('ok', value), or ('fault', exception) if it failed after a fault was
    injected into this call, or ('crash', exception).  A failure without any fault is a violation."""
    before = sum(sim.fired.values())
    try:
        return 'ok', fn(*args, **kwargs)
    except BudgetExceeded:
        raise
    except Crash as e:
        return 'crash', e
    except INJECTED as e:
        return 'fault', e
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        if sum(sim.fired.values()) > before:
            return 'fault', e
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('error', 'a valid operation failed: %s: %s (%s:%d)'
                        % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))


def retry(sim, fn, *args, **kwargs):
    """Repeats an operation until no fault is injected into it.  (failures, value)"""
    failures = 0
    while True:
        st, got = attempt(sim, fn, *args, **kwargs)
        if st == 'ok':
            return failures, got
        failures += 1


class Item:
    """A simulation and what the model knows about it"""

    def __init__(self, real, spec, eps, src, omega, nls=()):
        self.real = real
        self.spec = spec
        self.eps = eps              # permittivity last assigned
        self.src = src              # source last set, as complex128
        self.omega = omega
        self.nls = list(nls)
        self.solved = None          # reference fields that the stored linear fields should equal
        self.solved_nl = None       # source for which the stored nonlinear fields were computed
        self.mode_src = False

    def ref(self, eps=None):
        return Ref(self.spec['pol'], self.eps if eps is None else eps, self.omega, self.spec['dl'],
                   self.spec['npml'], self.spec['L0'])

    def clone(self, real):
        c = Item(real, self.spec, self.eps, self.src.copy(), self.omega, self.nls)
        c.solved, c.solved_nl = self.solved, self.solved_nl
        return c


def new_item(sim, prob, nl=None, eps1d=False):
    from angler import Simulation
    eps = world.build_eps(prob)
    given = eps.copy()
    if eps1d and 1 in eps.shape and eps.shape[1] == 1:
        given = given.ravel()
    _, real = retry(sim, Simulation, prob['omega'], given, prob['dl'], list(prob['npml']), prob['pol'],
                    L0=prob['L0'])
    item = Item(real, prob, eps, np.zeros(prob['shape'], dtype=complex), prob['omega'])
    set_source(item, prob['src'], 'inplace')
    if nl:
        item.nls = world.nl_list(prob, nl, prob['eps']['eps_m'])
        world.add_nl(real, prob, item.nls)
    return item


def set_source(item, s, how):
    arr = world.build_src(item.spec, s)
    if how == 'inplace':
        item.real.src[...] = arr
    elif how == 'scale':
        item.real.src = item.real.src*2.0
    elif how == 'zero':
        item.real.src[...] = 0
    else:
        item.real.src = arr.copy()
    item.src = np.array(item.real.src, dtype=complex)


def check_fields(item, got, want, tol, oracle, what):
    worst, where = world.close_fields(got, want, tol)
    if not worst <= tol:
        raise Violation(oracle, '%s: component %s differs from the reference by %.1e' % (what, where, worst))


def stored(real, nl=False):
    return dict(real.fields_nl if nl else real.fields)
