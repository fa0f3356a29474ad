"""A data source that fails: at a chosen read, while a column is turned into an array, or while it is computed with."""
import numpy

from sim.core import InjectedFault

class DiskError(IOError):
    pass

EXC = {"error": InjectedFault, "ioerror": DiskError, "keyerror": KeyError, "memory": MemoryError, "interrupt": KeyboardInterrupt, "value": ValueError, "type": TypeError, "stop": StopIteration, "exit": SystemExit}

class Source(object):
    """Item access only; raises at the nth read."""
    def __init__(self, columns, nth, exc):
        self.columns = columns
        self.nth = nth
        self.exc = exc
        self.reads = 0
        self.fired = False
    def __getitem__(self, name):
        n = self.reads
        self.reads += 1
        if n == self.nth:
            self.fired = True
            raise EXC[self.exc]("injected at read {0} of {1}".format(n, name))
        return self.columns[name]

class Column(object):
    """A column that is not an array yet; turning it into one fails the first time."""
    def __init__(self, array, exc):
        self.array = array
        self.exc = exc
        self.fired = False
    def __len__(self):
        return len(self.array)
    def __array__(self, dtype=None):
        if not self.fired:
            self.fired = True
            raise EXC[self.exc]("injected while reading a column")
        return self.array if dtype is None else self.array.astype(dtype)

class Tripwire(numpy.ndarray):
    """An array whose nth calculation fails (allocation failure, interrupt). Results are plain arrays."""
    @classmethod
    def of(cls, array, nth, exc):
        out = numpy.array(array).view(cls)
        out.state = {"n": 0, "nth": nth, "exc": exc, "fired": False}
        return out
    def __array_finalize__(self, obj):
        self.state = getattr(obj, "state", None)
    def _hit(self, what):
        s = self.state
        if s is None:
            return
        n = s["n"]
        s["n"] += 1
        if n == s["nth"]:
            s["fired"] = True
            raise EXC[s["exc"]]("injected in {0}".format(what))
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "at":
            self._hit(ufunc.__name__)
        plain = [numpy.asarray(x) if isinstance(x, Tripwire) else x for x in inputs]
        if "out" in kwargs:
            kwargs["out"] = tuple(numpy.asarray(x) if isinstance(x, Tripwire) else x for x in kwargs["out"])
        return getattr(ufunc, method)(*plain, **kwargs)

class Bomb(object):
    """A value nothing can be computed with."""
    def __repr__(self):
        return "<unusable value>"
    def __float__(self):
        raise InjectedFault("unusable value")
    def _no(self, *args):
        raise InjectedFault("unusable value")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __eq__ = __ne__ = _no
    __hash__ = None
    __bool__ = _no

class Label(object):
    """A category that can be sorted and compared, but one of them cannot be hashed."""
    def __init__(self, value, bad):
        self.value = value
        self.bad = bad
    def __eq__(self, other):
        return isinstance(other, Label) and self.value == other.value
    def __ne__(self, other):
        return not self == other
    def __lt__(self, other):
        return self.value < other.value
    def __gt__(self, other):
        return self.value > other.value
    def __hash__(self):
        if self.bad:
            raise TypeError("unhashable category")
        return hash(self.value)
