"""The journal of all writes to mutable objects of the program under proof: local
explorations and loop bodies are rolled back with it, and collections computed
lazily are evaluated in the state in which they were created."""
import itertools


class Unsupported(BaseException):
    """The code uses something outside the fragment (undecided, not a violation)."""


LOG = []
_n = itertools.count(1)
WATCH = []          # active observers of reads/writes (see loops.py)


class Entry:
    __slots__ = ("obj", "loc", "undo", "redo", "serial", "extra")

    def __init__(self, obj, loc, undo, redo, extra=None):
        self.obj, self.loc, self.undo, self.redo, self.extra = obj, loc, undo, redo, extra
        self.serial = next(_n)


def write(obj, loc, undo, redo, extra=None):
    """perform redo() and journal it"""
    redo()
    LOG.append(Entry(obj, loc, undo, redo, extra))


def mark():
    return len(LOG)


def rollback(m):
    while len(LOG) > m:
        LOG.pop().undo()


def reset():
    LOG.clear()
    WATCH.clear()


def stamp():
    return (len(LOG), LOG[-1].serial if LOG else 0)


class at:
    """the heap as it was at a stamp (writes made meanwhile are undone at the end)"""

    def __init__(self, st):
        self.st = st

    def __enter__(self):
        n, ser = self.st
        if len(LOG) < n or (n and LOG[n - 1].serial != ser):
            raise Unsupported("evaluation in a state that was rolled back")
        self.later = LOG[n:]
        for e in reversed(self.later):
            e.undo()
        del LOG[n:]
        self.n = n
        return self

    def __exit__(self, *a):
        rollback(self.n)
        for e in self.later:
            e.redo()
            LOG.append(e)
        return False


def frozen(fn):
    """fn evaluated in the state of now"""
    st = stamp()

    def f(*a):
        if len(LOG) == st[0] and (not st[0] or LOG[-1].serial == st[1]):
            m = mark()
            try:
                return fn(*a)
            finally:
                if any(not (isinstance(e.loc, tuple) and e.loc[0] == "memo") for e in LOG[m:]):
                    rollback(m)
        with at(st):
            return fn(*a)
    return f


class JList(list):
    """a list of the program; its changes are journaled"""

    def _w(self, f):
        old = list(self)

        def undo():
            list.__init__(self, old)
        new = list(self)
        r = f(new)

        def redo():
            list.__init__(self, new)
        write(self, None, undo, redo)
        return r

    def append(self, x):
        def undo():
            list.pop(self)
        write(self, None, undo, lambda: list.append(self, x), ("append", x))

    def extend(self, xs):
        xs = list(xs)
        self._w(lambda n: n.extend(xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        self._w(lambda n: n.insert(i, x))

    def pop(self, *a):
        return self._w(lambda n: n.pop(*a))

    def remove(self, x):
        self._w(lambda n: n.remove(x))

    def clear(self):
        self._w(lambda n: n.clear())

    def reverse(self):
        self._w(lambda n: n.reverse())

    def sort(self, **k):
        self._w(lambda n: n.sort(**k))

    def __setitem__(self, i, v):
        self._w(lambda n: n.__setitem__(i, v))

    def __delitem__(self, i):
        self._w(lambda n: n.__delitem__(i))

    __hash__ = None


class JDict(dict):
    """a dict of the program with string keys; its changes are journaled"""

    def _w(self, f):
        old = dict(self)
        new = dict(self)
        r = f(new)

        def put(d):
            dict.clear(self)
            dict.update(self, d)
        write(self, None, lambda: put(old), lambda: put(new))
        return r

    def __setitem__(self, k, v):
        self._w(lambda n: n.__setitem__(k, v))

    def __delitem__(self, k):
        self._w(lambda n: n.__delitem__(k))

    def pop(self, *a):
        return self._w(lambda n: n.pop(*a))

    def update(self, *a, **k):
        self._w(lambda n: n.update(*a, **k))

    def clear(self):
        self._w(lambda n: n.clear())

    def setdefault(self, k, d=None):
        return self._w(lambda n: n.setdefault(k, d))

    __hash__ = None


MISSING = object()


def setattr_(self, name, value):
    if name.startswith("__") and name.endswith("__") and hasattr(object, name):
        return object.__setattr__(self, name, value)
    d = self.__dict__
    old = d.get(name, MISSING)

    def undo():
        if old is MISSING:
            d.pop(name, None)
        else:
            d[name] = old

    def redo():
        d[name] = value
    write(self, ("attr", name), undo, redo, (old, value))


def journal_classes(classes):
    for c in classes:
        if "__setattr__" not in c.__dict__ and not any("__setattr__" in b.__dict__ for b in c.__mro__[1:-1]) and not any(isinstance(v, property) and v.fset for b in c.__mro__ for v in b.__dict__.values()):
            c.__setattr__ = setattr_
