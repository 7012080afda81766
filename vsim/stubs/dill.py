"""Stands in for dill, which is not installed here: pickles functions by value.

The pickled bytes go to the file in small pieces, each of them a point at which pickling can fail, be
interrupted, or the process be killed."""
import importlib
import io
import marshal
import pickle
import sys
import types

HIGHEST_PROTOCOL = pickle.HIGHEST_PROTOCOL
DEFAULT_PROTOCOL = pickle.DEFAULT_PROTOCOL
PicklingError = pickle.PicklingError
UnpicklingError = pickle.UnpicklingError
PIECE = 1 << 15


def _module(name):
    return importlib.import_module(name)


def _function(code, module, name, cells):
    code = marshal.loads(code)
    space = sys.modules[module].__dict__ if module in sys.modules else {'__builtins__': __builtins__}
    return types.FunctionType(code, space, name, None, tuple(types.CellType() for _ in range(cells)))


def _fill(f, state):
    f.__defaults__, f.__kwdefaults__, f.__module__, f.__qualname__, attrs, cells = state
    f.__dict__.update(attrs)
    for cell, content in zip(f.__closure__ or (), cells):
        cell.cell_contents = content


def _importable(obj):
    try:
        found = sys.modules[obj.__module__]
        for part in obj.__qualname__.split('.'):
            found = getattr(found, part)
        return found is obj
    except (KeyError, AttributeError, TypeError):
        return False


class Pickler(pickle.Pickler):

    def __init__(self, file, protocol=None, **kwargs):
        self._out = io.BytesIO()
        self._file = file
        super().__init__(self._out, HIGHEST_PROTOCOL if protocol is None else protocol)

    def reducer_override(self, obj):
        if isinstance(obj, types.ModuleType):
            return _module, (obj.__name__,)
        if isinstance(obj, types.FunctionType) and not _importable(obj):
            cells = [c.cell_contents for c in obj.__closure__ or ()]
            state = (obj.__defaults__, obj.__kwdefaults__, obj.__module__, obj.__qualname__, obj.__dict__, cells)
            return (_function, (marshal.dumps(obj.__code__), obj.__module__, obj.__name__, len(cells)), state,
                    None, None, _fill)
        return NotImplemented

    def dump(self, obj):
        from vsim import seams
        super().dump(obj)
        data = self._out.getvalue()
        for i in range(0, len(data), PIECE):
            s = seams.current()
            if s is not None:
                s.call('dump', '')
            self._file.write(data[i:i + PIECE])
        self._out.seek(0)
        self._out.truncate()


Unpickler = pickle.Unpickler


def dump(obj, file, protocol=None, **kwargs):
    Pickler(file, protocol).dump(obj)


def dumps(obj, protocol=None, **kwargs):
    out = io.BytesIO()
    Pickler(out, protocol).dump(obj)
    return out.getvalue()


def load(file, **kwargs):
    return pickle.load(file)


def loads(data, **kwargs):
    return pickle.loads(data)


def install():
    sys.modules['dill'] = sys.modules[__name__]
