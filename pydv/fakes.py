"""Models of the libraries the code uses (numpy, scipy.sparse, pyvista, ...) and
of the builtins that would force a symbolic value to be concrete."""
import builtins
import math as _math
import sys
import types
import z3
from . import core, heap, loops, ndarr, symstr
from .core import SInt, SBool, R, Unsupported, isint, cur, band, bor, bnot, ball, bany
from .ndarr import NDArr, SColl, SSet, SRange, Piece, Lz, F, fold, from_list, from_coll, prod, same_len, pieces_of


class FakeModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{self.__name__}.{name}")


class Recorder:
    """accepts any attribute access and call (plotting, progress bars)"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, k):
        return Recorder(self._n + "." + k)

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self._n)


def mod(name, **kw):
    m = FakeModule(name)
    m.__path__ = []
    m.__dict__.update(kw)
    return m


# ------------------------------------------------------------------ lru_cache
class RealTypeError(TypeError):
    """a TypeError the real interpreter would raise too"""


CACHES = []


def keyof(x):
    if isinstance(x, (bool, int, SInt)):
        return ("i", SInt.of(x).key)
    if isinstance(x, float) and x == int(x) if isinstance(x, float) and x == x and abs(x) != float("inf") else False:
        return ("i", SInt.of(int(x)).key)
    if isinstance(x, tuple):
        return ("t",) + tuple(keyof(y) for y in x)
    if isinstance(x, R):
        return ("r", x.repr_key())
    if isinstance(x, (list, dict, set, NDArr, SSet, SDict)) or (isinstance(x, SColl) and x.kind != "tuple"):
        raise RealTypeError("unhashable type")
    if isinstance(x, (str, type(None), float)):
        return ("c", x)
    if hasattr(x, "symkey"):
        return ("s", x.symkey)
    return ("o", id(x))


class CachedFn:
    """functools.lru_cache without eviction (an evicted entry is only recomputed)"""

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}
        self.hold = []
        self.__name__ = getattr(fn, "__name__", "cached")
        self.__doc__ = fn.__doc__
        self.__wrapped__ = fn
        CACHES.append(self)

    def __call__(self, *a, **k):
        key = (tuple(keyof(x) for x in a), tuple((n, keyof(v)) for n, v in k.items()))
        if key in self.memo:
            return self.memo[key]
        v = self.fn(*a, **k)
        heap.write(self, ("memo", key), lambda: self.memo.pop(key, None), lambda: self.memo.__setitem__(key, v))
        self.hold.append(a)
        return v

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        old = dict(self.memo)
        heap.write(self, "memo", lambda: self.memo.update(old), self.memo.clear)

    def cache_info(self):
        raise Unsupported("cache_info")


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return CachedFn(maxsize)
    return CachedFn


def reset_caches():
    for c in CACHES:
        c.memo.clear()
        c.hold.clear()


# ------------------------------------------------------------------ dict
class SDict:
    """dict whose keys may be symbolic"""

    def __init__(self, *a, **k):
        self.ks, self.vs = [], []
        self.idx = {}
        if a:
            src = a[0]
            if isinstance(src, (SDict, dict)):
                for x in src.keys():
                    self[x] = src[x]
            elif isinstance(src, (SColl, NDArr)):
                raise Unsupported("dict of symbolic collection")
            else:
                for kv in src:
                    kk, vv = kv
                    self[kk] = vv
        for x, v in k.items():
            self[x] = v

    @staticmethod
    def fromkeys(ks, v=None):
        d = SDict()
        for k in ks:
            d[k] = v
        return d

    def _find(self, k):
        """position of k, or -1 (forks)"""
        kk = keyof(k)
        if kk in self.idx:
            return self.idx[kk]
        if isinstance(k, (str, type(None))):
            return -1
        for n, e in enumerate(self.ks):
            if isinstance(e, (str, type(None))):
                continue
            c = ndarr.val_eq(k, e)
            if c is True or (c is not False and bool(c)):
                return n
        return -1

    def __getitem__(self, k):
        n = self._find(k)
        if n < 0:
            return self.__missing__(k)
        return self.vs[n]

    def __missing__(self, k):
        raise KeyError(str(k))

    def __setitem__(self, k, v):
        n = self._find(k)
        if n < 0:
            kk = keyof(k)

            def redo():
                self.idx[kk] = len(self.ks)
                self.ks.append(k)
                self.vs.append(v)

            def undo():
                del self.idx[kk]
                self.ks.pop()
                self.vs.pop()
            heap.write(self, ("key", k), undo, redo, v)
        else:
            old = self.vs[n]
            heap.write(self, ("key", k), lambda: self.vs.__setitem__(n, old), lambda: self.vs.__setitem__(n, v), v)

    def _state(self, ks, vs):
        old, new = (self.ks, self.vs, self.idx), (ks, vs, {keyof(x): m for m, x in enumerate(ks)})

        def put(t):
            self.ks, self.vs, self.idx = t
        heap.write(self, None, lambda: put(old), lambda: put(new))

    def __delitem__(self, k):
        if self._find(k) < 0:
            raise KeyError(str(k))
        self.pop(k)

    def __contains__(self, k):
        return self._find(k) >= 0

    def sym_contains(self, k):
        if keyof(k) in self.idx:
            return True
        return bany(ndarr.val_eq(k, e) for e in self.ks if isinstance(e, str) == isinstance(k, str))

    def get(self, k, d=None):
        n = self._find(k)
        return d if n < 0 else self.vs[n]

    def setdefault(self, k, d=None):
        n = self._find(k)
        if n < 0:
            self[k] = d
            return d
        return self.vs[n]

    _no = object()

    def pop(self, k, d=_no):
        n = self._find(k)
        if n < 0:
            if d is SDict._no:
                raise KeyError(str(k))
            return d
        v = self.vs[n]
        self._state(self.ks[:n] + self.ks[n + 1:], self.vs[:n] + self.vs[n + 1:])
        return v

    def keys(self):
        return list(self.ks)

    def values(self):
        return list(self.vs)

    def items(self):
        return list(zip(self.ks, self.vs))

    def update(self, o=(), **k):
        o = SDict(o)
        for x, v in o.items():
            self[x] = v
        for x, v in k.items():
            self[x] = v

    def clear(self):
        self._state([], [])

    def copy(self):
        return SDict(self)

    def __iter__(self):
        return iter(list(self.ks))

    def __len__(self):
        return len(self.ks)

    def __bool__(self):
        return bool(self.ks)

    def __or__(self, o):
        d = SDict(self)
        d.update(o)
        return d

    def __eq__(self, o):
        if isinstance(o, (dict, SDict)):
            return len(self) == len(o) and all(k in o and bool(ndarr.val_eq(self[k], o[k])) for k in self.ks)
        return False

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in zip(self.ks, self.vs)) + "}"


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a):
        self.factory = factory
        SDict.__init__(self, *a)

    def __missing__(self, k):
        if self.factory is None:
            raise KeyError(str(k))
        v = self.factory()
        self[k] = v
        return v

    def copy(self):
        d = SDefaultDict(self.factory)
        d.update(self)
        return d


# ------------------------------------------------------------------ builtins
class TypeLike:
    def __init__(self, name, real, fn):
        self.__name__, self.real, self.fn = name, real, fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __or__(self, o):
        return (self, o)

    def __getitem__(self, o):
        return self


def symbolic_len(x):
    return (isinstance(x, NDArr) and isinstance(x.shape[0], SInt)) or isinstance(x, (SColl, SRange)) or getattr(x, "sym_collection", False)


def to_coll(kind, x):
    if isinstance(x, SColl):
        ordered = x.at is not None
        c = SColl(kind, x.pieces, x.length, x.at if kind != "set" else None)
        c.sorted = x.sorted and kind != "set"
        c.src = getattr(x, "src", x)
        return c
    if isinstance(x, NDArr):
        snap = x.snapshot()
        c = SColl(kind, pieces_of(x), x.shape[0], (lambda i: snap[i]) if kind != "set" and not x.sorted else None)
        c.sorted = x.sorted and kind != "set"
        return c
    if isinstance(x, SRange):
        return SColl(kind, pieces_of(x), x.n, lambda i: x[i])
    if getattr(x, "sym_collection", False):
        return x.to_coll(kind)
    raise Unsupported(kind)


def b_list(x=()):
    if symbolic_len(x):
        return to_coll("list", x)
    return builtins.list(x)


def b_tuple(x=()):
    if isinstance(x, builtins.tuple):
        return x
    if symbolic_len(x):
        return to_coll("tuple", x)
    return builtins.tuple(x)


def b_set(x=()):
    if symbolic_len(x):
        return to_coll("set", x)
    return SSet(x)


def b_dict(*a, **k):
    if a and getattr(a[0], "sym_mapping", None):
        return a[0].copy()
    if a and isinstance(a[0], (SColl, NDArr)) and symbolic_len(a[0]) and not k:
        from . import symmap
        return symmap.from_pairs(a[0])
    return SDict(*a, **k)


def b_len(x):
    if isinstance(x, NDArr):
        if not x.shape:
            raise RealTypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, SColl):
        if x.length is not None:
            return x.length
        return SInt.of(0) + core.fold_len(x)
    if isinstance(x, SRange):
        return x.n
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return builtins.len(x)


def fold_len(x):
    t = SInt.of(0)
    for p in x.pieces:
        if p.filt is not None:
            raise Unsupported("length of a filtered collection")
        t = t + prod(p.rads)
    return t


core.fold_len = fold_len


def b_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return int(x)
    if isinstance(x, str):
        v = core.untoken(x.strip())
        if v is not None:
            return v
        if "\u27e6" in x:
            raise Unsupported("int of composite string")
        return builtins.int(x, *a)
    if isinstance(x, R):
        raise Unsupported("int of symbolic real")
    if isinstance(x, NDArr):
        return b_int(x.at())
    return builtins.int(x, *a)


def b_float(x=0.0):
    if isinstance(x, (SInt,)):
        return R.of(x)
    if isinstance(x, R):
        return x
    if isinstance(x, NDArr):
        return b_float(x.at())
    return builtins.float(x)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    return builtins.bool(x)


KIND = {"list": builtins.list, "tuple": builtins.tuple, "set": builtins.set}


def b_isinstance(x, t):
    if isinstance(t, (builtins.tuple,)):
        return any(b_isinstance(x, u) for u in t)
    real = t.real if isinstance(t, TypeLike) else t
    if isinstance(real, builtins.list):
        raise RealTypeError("isinstance() arg 2 must be a type")
    if isinstance(x, SColl):
        return real is KIND.get(x.kind) or real is object
    if isinstance(x, SSet):
        return real in (builtins.set, object)
    if isinstance(x, SDict) or getattr(x, "sym_mapping", None):
        return real in (builtins.dict, object) or (isinstance(real, type) and isinstance(x, real))
    if isinstance(x, SInt):
        return real in (builtins.int, object) or getattr(real, "__pydv_int__", False)
    if isinstance(x, SBool):
        return real in (builtins.bool, builtins.int, object)
    if isinstance(x, R):
        return real in (builtins.float, object) or getattr(real, "__pydv_float__", False)
    if isinstance(x, builtins.bool):
        return real in (builtins.bool, builtins.int, object)
    if getattr(real, "__pydv_int__", False):
        return isinstance(x, builtins.int)
    if getattr(real, "__pydv_float__", False):
        return isinstance(x, builtins.float)
    return builtins.isinstance(x, real)


def b_sum(x, start=0):
    if symbolic_len(x):
        return array_total(x, start)
    t = start
    for e in x:
        t = t + e
    return t


def array_total(x, start):
    t = start
    for p in pieces_of(x):
        t = t + (ndarr.make_sum(p.rads, p.elem, p.filt) if p.rads else p.elem([]))
    return t


def b_all(x):
    if symbolic_len(x):
        return b_all_sym(x)
    for e in x:
        if not bool(e):
            return False
    return True


def b_all_sym(x):
    """every element true?"""
    c = to_coll("list", x)
    flat = NDArr((c.length if c.length is not None else fold_len(c),), lambda idx: (_ for _ in ()).throw(Unsupported("all")), "bool")
    flat._pieces = c.pieces
    return ndarr.np_all(flat)


def b_any(x):
    if symbolic_len(x):
        c = to_coll("list", x)
        n = SColl("list", [p.map(lambda v: bnot(v if isinstance(v, (bool, SBool)) else builtins.bool(v))) for p in c.pieces], c.length)
        return bnot(b_all_sym(n))
    for e in x:
        if bool(e):
            return True
    return False


def b_sorted(x, key=None, reverse=False):
    if symbolic_len(x):
        if key is not None or reverse:
            raise Unsupported("sorted with key")
        c = to_coll("list", x)
        c.at = None
        c.sorted = True
        return c
    xs = builtins.list(x)
    if key is not None:
        raise Unsupported("sorted with key") if any(isinstance(v, (SInt, R)) for v in xs) else None
        return builtins.sorted(xs, key=key, reverse=reverse)
    out = []
    for v in xs:
        n = 0
        while n < len(out) and bool(out[n] <= v):
            n += 1
        out.insert(n, v)
    return out[::-1] if reverse else out


def b_range(*a):
    if not any(isinstance(v, SInt) for v in a):
        return builtins.range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(step, SInt) or step != 1:
        raise Unsupported("range with step")
    n = SInt.of(stop) - start
    if n.isconst():
        return builtins.range(SInt.of(start).const(), SInt.of(stop).const())
    if not bool(n >= 0):
        n = SInt.of(0)
    return SRange(start, n)


def b_zip(*xs, **k):
    if any(symbolic_len(x) for x in xs):
        if hasattr(xs[0], "sym_zip"):
            return xs[0].sym_zip(*xs)
        a = xs[0]
        cs = [to_coll("list", x) for x in xs]
        n = cs[0].length
        for c in cs[1:]:
            if c.length is None or n is None or not same_len(c.length, n):
                raise Unsupported("zip of different lengths")
        try:
            rads = ndarr.factor_len(n)
        except Unsupported:
            rads = None
        if rads is None or any(c.at is None for c in cs):
            raise Unsupported("zip")
        at = lambda i: builtins.tuple(c.at(i) for c in cs)
        return SColl("list", [Piece(rads, lambda d: at(ndarr.lin(d, rads)))], n, at)
    return builtins.zip(*xs)


def b_enumerate(x, start=0):
    if symbolic_len(x):
        c = to_coll("list", x)
        if c.at is None or c.length is None:
            raise Unsupported("enumerate")
        rads = ndarr.factor_len(c.length)
        at = lambda i: (SInt.of(i) + start, c.at(i))
        return SColl("list", [Piece(rads, lambda d: at(ndarr.lin(d, rads)))], c.length, at)
    return builtins.enumerate(x, start)


def b_map(f, *xs):
    if len(xs) == 1 and symbolic_len(xs[0]):
        return comp("gen", xs[0], f, None)
    return builtins.map(f, *xs)


def b_filter(f, x):
    if symbolic_len(x):
        return comp("gen", x, lambda v: v, f)
    return [v for v in x if (bool(f(v)) if f else bool(v))]


def b_eval(src, g=None, l=None):
    fr = sys._getframe(1)
    return builtins.eval(src, g if g is not None else fr.f_globals, l if l is not None else fr.f_locals)


def b_str(x=""):
    if isinstance(x, (SInt, R)):
        return format(x)
    return builtins.str(x)


def b_abs(x):
    return builtins.abs(x)


def b_round(x, n=None):
    if isinstance(x, (R, SInt)):
        raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_hash(x):
    return builtins.hash(x)


PRINTED = []


def b_print(*a, **k):
    PRINTED.append(a)


def b_reversed(x):
    if symbolic_len(x):
        raise Unsupported("reversed")
    return builtins.reversed(x)


def b_next(it, *d):
    return builtins.next(it, *d)


OVERRIDES = {
    "isinstance": b_isinstance, "len": b_len, "sum": b_sum, "all": b_all, "any": b_any,
    "max": lambda *a, **k: core.smax(*a) if not k else builtins.max(*a, **k),
    "min": lambda *a, **k: core.smin(*a) if not k else builtins.min(*a, **k),
    "sorted": b_sorted, "range": b_range, "zip": b_zip, "enumerate": b_enumerate, "map": b_map,
    "filter": b_filter, "eval": b_eval, "abs": b_abs, "round": b_round, "print": b_print, "reversed": b_reversed,
    "list": TypeLike("list", builtins.list, b_list),
    "tuple": TypeLike("tuple", builtins.tuple, b_tuple),
    "set": TypeLike("set", builtins.set, b_set),
    "frozenset": TypeLike("set", builtins.set, b_set),
    "dict": TypeLike("dict", builtins.dict, b_dict),
    "int": TypeLike("int", builtins.int, b_int),
    "float": TypeLike("float", builtins.float, b_float),
    "bool": TypeLike("bool", builtins.bool, b_bool),
    "str": TypeLike("str", builtins.str, b_str),
}
OVERRIDES["dict"].__dict__["fromkeys"] = SDict.fromkeys


# ------------------------------------------------------------------ transform hooks
def h_iter(x, searchy):
    if isinstance(x, SDict):
        return iter(x.keys())
    if hasattr(x, "sym_loop"):
        return x.sym_loop(searchy)
    if symbolic_len(x):
        return ndarr.sym_iter(x, True) if searchy else loops.SymLoop(x)
    if isinstance(x, NDArr) and len(x.shape) == 1 and x.shape[0] > 200 and not searchy:
        return loops.SymLoop(x)
    return x


def comp(kind, it, elt, cond):
    if hasattr(it, "sym_comp"):
        return it.sym_comp(kind, elt, cond)
    if symbolic_len(it):
        filt = None
        if cond is not None:
            def filt(v):
                c = cond(v)
                return c if isinstance(c, SBool) else builtins.bool(c)
        elt = heap.frozen(elt)
        filt = filt and heap.frozen(filt)
        if kind == "dict":
            from . import symmap
            c = to_coll("list", it)
            return symmap.FamDict([p.map(elt, filt) for p in pieces_of(c)], c.length if cond is None else None)
        c = to_coll("list", it)
        at = None
        if c.at is not None and cond is None:
            at = lambda i: elt(c.at(i))
        return SColl({"gen": "list", "list": "list", "set": "set"}[kind], [p.map(elt, filt) for p in pieces_of(c)],
                     c.length if cond is None else None, at if kind != "set" else None)
    if kind == "gen":
        def gen():
            for v in h_iter(it, False):
                if cond is None or bool(cond(v)):
                    yield elt(v)
        return gen()
    out = []
    for v in h_iter(it, False):
        if cond is None or bool(cond(v)):
            out.append(elt(v))
    if kind == "set":
        return SSet(out)
    if kind == "dict":
        return SDict(out)
    return heap.JList(out)


def h_in(x, y):
    if isinstance(x, (symstr.CaseStr, symstr.AnyStr)) and not isinstance(y, (SDict, SColl, NDArr)):
        if isinstance(y, str):
            raise Unsupported("substring test")
        return builtins.any(x == e for e in y)
    return ndarr.contains(y, x)


def h_notin(x, y):
    return bnot(h_in(x, y))


HOOKS = {"__pydv_iter__": h_iter, "__pydv_comp__": comp, "__pydv_in__": h_in, "__pydv_notin__": h_notin,
         "__pydv_dict__": SDict, "__pydv_set__": SSet, "__pydv_list__": heap.JList, "__pydv_jdict__": heap.JDict, "__pydv_is_loop__": lambda x: isinstance(x, loops.SymLoop),
         "__pydv_loop__": lambda it, body, names: loops.accumulate(it.coll, body, names)}


# ------------------------------------------------------------------ numpy
def arr(x):
    if isinstance(x, NDArr):
        return x
    if isinstance(x, (list, tuple)):
        return from_list(x)
    if isinstance(x, SColl):
        return from_coll(x)
    if isinstance(x, SRange):
        return NDArr((x.n,), lambda idx: x[F(idx[0])], "int")
    if isinstance(x, range):
        return from_list(list(x))
    if hasattr(x, "sym_array"):
        return x.sym_array()
    if isinstance(x, (int, float, SInt, R, bool, SBool)) or hasattr(x, "is_sym_expr"):
        return NDArr((), lambda idx: x, "int" if isint(x) else "float")
    raise Unsupported("np.array of " + type(x).__name__)


def np_array(x, dtype=None, copy=True, **k):
    r = arr(x).snapshot()
    r.is_matrix = False
    if dtype is not None and r.dtype in ("float", "int", "bool"):
        d = dtname(dtype)
        if not (d == "int" and r.dtype == "float"):
            r.dtype = d
    return r


def dtname(dt):
    if dt is None:
        return "float"
    s = dt if isinstance(dt, str) else getattr(dt, "__name__", str(dt))
    if "int" in s:
        return "int"
    if "bool" in s:
        return "bool"
    if s in ("object", "O", "str"):
        return "object"
    return "float"


def shp(s):
    if isinstance(s, NDArr):
        s = [s[i] for i in range(s.shape[0])] if s.ndim else [s.at()]
    if isinstance(s, (tuple, list)):
        return tuple(fold(SInt.of(x)) for x in s)
    return (fold(SInt.of(s)),)


def const_array(shape, v, dtype="float"):
    return NDArr(shp(shape), lambda idx: v, dtype)


def np_ones(shape, dtype=None, **k):
    return const_array(shape, 1, dtname(dtype))


def np_zeros(shape, dtype=None, **k):
    r = const_array(shape, 0, dtname(dtype))
    if len(r.shape) == 2:
        r.cands = lambda i: []
    return r


def np_full(shape, v, dtype=None, **k):
    if isinstance(v, NDArr):
        return const_array(shape, 1, "float") * v
    return const_array(shape, v, dtname(dtype) if dtype else ("int" if isint(v) else "float"))


def np_arange(*a, **k):
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
    if isinstance(step, (SInt, R)) or step != 1 or isinstance(start, R) or isinstance(stop, R):
        raise Unsupported("arange with step")
    n = SInt.of(stop) - start
    if n.isconst():
        n = SInt.of(max(0, n.const()))
    elif not bool(n >= 0):
        n = SInt.of(0)
    r = NDArr((n,), lambda idx: SInt.of(F(idx[0])) + start, "int")
    if isinstance(start, int) and start == 0:
        r._natural = True
    return r


def np_prod(x, axis=None, **k):
    if isinstance(x, NDArr):
        x = [x[i] for i in range(len(x))]
    p = 1
    for v in x:
        p = p * v
    return fold(p)


def np_argmax(x, axis=None):
    xs = list(x)
    b = 0
    for n in range(1, len(xs)):
        if bool(xs[n] > xs[b]):
            b = n
    return b


def np_argmin(x, axis=None):
    xs = list(x)
    b = 0
    for n in range(1, len(xs)):
        if bool(xs[n] < xs[b]):
            b = n
    return b


def np_meshgrid(*xs, indexing="xy", copy=True, sparse=False):
    xs = [arr(x) for x in xs]
    xs = [x.reshape(1) if not x.shape else (x.flatten() if x.ndim > 1 else x) for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shape = tuple(xs[o].shape[0] for o in order)
    out = []
    for m in range(n):
        ax = order.index(m)
        rd = xs[m].reader() if copy else xs[m].snapshot().reader()
        out.append(NDArr(shape, lambda idx, ax=ax, rd=rd, one=(xs[m].shape[0] == 1 if not isinstance(xs[m].shape[0], SInt) else False): rd((0 if one else idx[ax],)), xs[m].dtype))
    return out


def np_transpose(a, axes=None):
    return arr(a).transpose(axes) if axes is not None else arr(a).transpose()


def np_concatenate(xs, axis=0, **k):
    if isinstance(xs, NDArr):
        if isinstance(xs.shape[0], SInt):
            a = xs
            ax = axis + 1
            lead, seg = a.shape[0], a.shape[ax]
            shape = list(a.shape[1:])
            shape[axis] = fold(SInt.of(lead) * seg)
            rd = a.reader()

            def fn(idx):
                p = idx[axis]
                if not isinstance(seg, SInt) and seg == 1:
                    q, r = p, 0
                else:
                    q = Lz(lambda: core.idivmod(SInt.of(F(p)), SInt.of(seg))[0])
                    r = Lz(lambda: core.idivmod(SInt.of(F(p)), SInt.of(seg))[1])
                rest = list(idx)
                rest[axis] = r
                return rd(tuple([q] + rest))
            return NDArr(tuple(shape), fn, a.dtype)
        xs = [xs[i] for i in range(xs.shape[0])]
    xs = [arr(x) for x in xs]
    nd = xs[0].ndim
    if axis is None:
        xs = [x.ravel() for x in xs]
        axis, nd = 0, 1
    if axis < 0:
        axis += nd
    for x in xs:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for t in range(nd):
            if t != axis and not same_len(x.shape[t], xs[0].shape[t]) and not ndarr.known_eq(x.shape[t], xs[0].shape[t]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    rds = [x.snapshot().reader() for x in xs]
    lens = [x.shape[axis] for x in xs]
    shape = list(xs[0].shape)
    tot = SInt.of(0)
    for n in lens:
        tot = tot + n
    shape[axis] = fold(tot)

    def fn(idx):
        i = SInt.of(F(idx[axis]))
        off = SInt.of(0)
        for rd, n in list(zip(rds, lens))[:-1]:
            c = i < off + n
            if c is True or (c is not False and bool(c)):
                full = list(idx)
                full[axis] = i - off
                return rd(tuple(full))
            off = off + n
        full = list(idx)
        full[axis] = i - off
        return rds[-1](tuple(full))
    dt = "int" if all(x.dtype == "int" for x in xs) else "float"
    r = NDArr(tuple(shape), fn, dt)
    if axis == 0:
        try:
            ps = []
            for x in xs:
                ps += pieces_of(x)
            r._pieces = ps
        except Unsupported:
            pass
    if nd == 1 and all(x._blocks for x in xs):
        r._blocks = [b for x in xs for b in x._blocks]
    return r


def np_vstack(xs, **k):
    xs = [arr(x) for x in xs]
    xs = [x.reshape((1,) + tuple(x.shape)) if x.ndim == 1 else x for x in xs]
    return np_concatenate(xs, axis=0)


def np_hstack(xs, **k):
    xs = [arr(x) for x in xs]
    return np_concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def np_stack(xs, axis=0, **k):
    xs = [arr(x) for x in xs]
    rds = [x.snapshot().reader() for x in xs]
    nd = xs[0].ndim
    if axis < 0:
        axis += nd + 1
    shape = list(xs[0].shape)
    shape.insert(axis, len(xs))

    def fn(idx):
        rest = list(idx)
        i = rest.pop(axis)
        return ndarr.pick(i, rds)(tuple(rest))
    return NDArr(tuple(shape), fn, xs[0].dtype)


def np_sort(a, axis=-1, **k):
    a = arr(a)
    if a.ndim != 1:
        raise Unsupported("sort of nd array")
    if not isinstance(a.shape[0], SInt):
        return from_list(b_sorted([a[i] for i in range(a.shape[0])]))
    ps = pieces_of(a)
    r = NDArr(a.shape, lambda idx: (_ for _ in ()).throw(Unsupported("element of a sorted array")), a.dtype)
    r._pieces = ps
    r.sorted = True
    return r


def np_unique(a, **k):
    if k:
        raise Unsupported("unique options")
    return np_sort(arr(a).flatten())


def np_diag(v, k=0):
    v = arr(v)
    if v.ndim != 1:
        raise Unsupported("np.diag of a matrix")
    rd = v.reader()
    k = SInt.of(k)
    if k.isconst():
        neg = k.const() < 0
    else:
        neg = bool(k < 0)
    ak = -k if neg else k
    n = SInt.of(v.shape[0]) + ak

    def fn(idx):
        r, c = SInt.of(F(idx[0])), SInt.of(F(idx[1]))
        e = c == r + k
        if e is True or (e is not False and bool(e)):
            return rd(((c if neg else r),))
        return 0
    m = NDArr((n, n), fn, v.dtype)
    m.cands = lambda r: [r + k]
    return m


def np_where(c, *ab):
    if not ab:
        raise Unsupported("where")
    a, b = arr(ab[0]), arr(ab[1])
    c = arr(c)
    sh = ndarr.broadcast([c.shape, a.shape, b.shape])
    rc, ra, rb = ndarr.bc_reader(c.snapshot(), sh), ndarr.bc_reader(a.snapshot(), sh), ndarr.bc_reader(b.snapshot(), sh)
    return NDArr(sh, lambda idx: ra(idx) if bool(rc(idx)) else rb(idx), a.dtype if a.dtype == b.dtype else "float")


def np_isin(a, b, **k):
    a = arr(a)
    rd = a.reader()
    inv = k.get("invert", False)

    def f(idx):
        c = ndarr.contains(b, rd(idx))
        return bnot(c) if inv else c
    return NDArr(a.shape, f, "bool")


def np_ext(f):
    def g(a, b):
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            if not isinstance(a, NDArr):
                a, b = b, a
            return a._bin(b, lambda x, y: f(x, y))
        return f(a, b)
    return g


def ufunc(name, exact=None):
    def f(x, *a, **k):
        def one(v):
            if hasattr(v, "is_sym_expr"):
                raise Unsupported(name)
            v = R.of(v)
            if v.isconst() and exact is not None:
                e = exact(v.cval())
                if e is not None:
                    return e
            return core.rfun(name, v)
        if isinstance(x, (list, tuple, SColl)):
            x = arr(x)
        if isinstance(x, NDArr):
            return x._un(one, "float")
        return one(x)
    return f


def np_repeat(a, n, axis=None):
    a = arr(a)
    if axis is not None or a.ndim != 1:
        raise Unsupported("repeat axis")
    rd = a.reader()
    n_ = SInt.of(n)

    def fn(idx):
        return rd((core.idivmod(SInt.of(F(idx[0])), n_)[0],))
    return NDArr((SInt.of(a.shape[0]) * n_,), fn, a.dtype)


def np_tile(a, n):
    a = arr(a)
    if isinstance(n, (tuple, list)) or a.ndim != 1:
        raise Unsupported("tile nd")
    rd = a.reader()
    m = SInt.of(a.shape[0])

    def fn(idx):
        return rd((core.idivmod(SInt.of(F(idx[0])), m)[1],))
    return NDArr((m * n,), fn, a.dtype)


class IntType:
    __pydv_int__ = True
    __name__ = "int64"

    def __call__(self, x):
        return b_int(x)


class FloatType:
    __pydv_float__ = True
    __name__ = "float64"

    def __call__(self, x):
        return b_float(x)


class Nan:
    """an undefined value (np.nan)"""
    is_sym_expr = True

    def __repr__(self):
        return "nan"

    def _n(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __abs__ = _n

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __hash__(self):
        return 77


NAN = Nan()
PI = R.atom("pi", (), pos=True)


def np_isnan(x):
    if isinstance(x, NDArr):
        return x._un(lambda v: isinstance(v, Nan), "bool")
    return isinstance(x, Nan)


def make_numpy():
    f = {}
    f.update(
        ndarray=NDArr, newaxis=None, nan=NAN, NaN=NAN, pi=PI, inf=float("inf"), integer=IntType(), int64=IntType(), int32=IntType(), int_=IntType(),
        float64=FloatType(), float32=FloatType(), floating=FloatType(), double=FloatType(), single=FloatType(), number=FloatType(),
        array=np_array, asarray=lambda x, dtype=None, **k: x if isinstance(x, NDArr) and not x.is_matrix else (demat(x) if isinstance(x, NDArr) else np_array(x, dtype)),
        ones=np_ones, zeros=np_zeros, empty=lambda s, dtype=None, **k: const_array(s, NAN, dtname(dtype)),
        full=np_full, arange=np_arange, prod=np_prod, argmax=np_argmax, argmin=np_argmin,
        zeros_like=lambda a, dtype=None, **k: np_zeros(arr(a).shape, dtype), ones_like=lambda a, dtype=None, **k: np_ones(arr(a).shape, dtype),
        full_like=lambda a, v, **k: np_full(arr(a).shape, v), empty_like=lambda a, **k: const_array(arr(a).shape, NAN),
        meshgrid=np_meshgrid, transpose=np_transpose, concatenate=np_concatenate, vstack=np_vstack, hstack=np_hstack, stack=np_stack,
        column_stack=lambda xs: np_stack(xs, axis=1) if arr(xs[0]).ndim == 1 else np_hstack(xs),
        sort=np_sort, unique=np_unique, diag=np_diag, where=np_where, isin=np_isin, in1d=np_isin, isnan=np_isnan,
        all=lambda a, **k: ndarr.np_all(arr(a) if not isinstance(a, (bool, SBool)) else a), any=lambda a, **k: arr(a).any(),
        sum=lambda a, axis=None, **k: arr(a).sum(axis=axis), cumsum=lambda a, axis=None, **k: arr(a).cumsum(),
        log=ufunc("log", lambda c: 0 if c == 1 else None), sqrt=lambda x: x._un(lambda v: R.of(v) ** 0.5, "float") if isinstance(x, NDArr) else R.of(x) ** 0.5,
        exp=ufunc("exp", lambda c: 1 if c == 0 else None), sin=ufunc("sin", lambda c: 0 if c == 0 else None), cos=ufunc("cos", lambda c: 1 if c == 0 else None),
        abs=abs, absolute=abs, repeat=np_repeat, tile=np_tile, flip=lambda a, axis=None: arr(a)[::-1] if arr(a).ndim == 1 else (_ for _ in ()).throw(Unsupported("flip")),
        ravel=lambda a: arr(a).ravel(), reshape=lambda a, s, **k: arr(a).reshape(s), squeeze=lambda a: arr(a).squeeze(), copy=lambda a: arr(a).copy(),
        atleast_1d=lambda a: arr(a) if arr(a).ndim else arr(a).reshape(1),
        dot=lambda a, b: matmul(a, b), matmul=lambda a, b: matmul(a, b), shape=lambda a: arr(a).shape, ndim=lambda a: arr(a).ndim, size=lambda a: arr(a).size,
        multiply=lambda a, b: a * b, divide=lambda a, b: a / b, add=lambda a, b: a + b, subtract=lambda a, b: a - b, power=lambda a, b: a ** b, square=lambda a: a * a,
        isscalar=lambda x: not isinstance(x, (NDArr, list, tuple, dict, SColl)), broadcast_to=lambda a, s: np_zeros(s) + arr(a),
        expand_dims=lambda a, axis: arr(a).reshape(arr(a).shape[:axis] + (1,) + arr(a).shape[axis:]) if axis >= 0 else (_ for _ in ()).throw(Unsupported("expand_dims")),
        logical_not=lambda a: ~a, logical_and=lambda a, b: a & b, mod=lambda a, b: a % b,
        max=lambda a, axis=None, **k: core.smax(*list(a)) if not isinstance(a, NDArr) else a.max(axis), amax=lambda a, axis=None, **k: arr(a).max(axis),
        min=lambda a, axis=None, **k: core.smin(*list(a)) if not isinstance(a, NDArr) else a.min(axis), amin=lambda a, axis=None, **k: arr(a).min(axis), ptp=lambda a, axis=None: arr(a).ptp(axis),
        maximum=np_ext(core.smax), minimum=np_ext(core.smin), clip=lambda a, lo, hi, **k: np_ext(core.smin)(np_ext(core.smax)(a, lo), hi),
        dtype=lambda d: d, bool_=builtins.bool, append=lambda a, b, axis=None: np_concatenate([arr(a).ravel() if axis is None else arr(a), arr(b).ravel() if axis is None else arr(b)], axis or 0),
        linspace=Recorder("np.linspace"), random=Recorder("np.random"), linalg=Recorder("np.linalg"),
    )
    m = mod("numpy", **f)
    return m


def demat(x):
    r = x.snapshot()
    r.is_matrix = False
    return r


def matmul(a, b):
    return ndarr.matmul(a, b)


# ------------------------------------------------------------------ pyvista
class ExplicitStructuredGrid:
    """assumed contract: cells are numbered x fastest, then y, then z"""

    def __init__(self, dims, corners):
        d = [dims[i] for i in range(3)] if isinstance(dims, NDArr) else list(dims)
        self.n = [SInt.of(x) - 1 for x in d]

    @property
    def n_cells(self):
        return fold(prod(self.n))

    def cell_id(self, coords):
        if isinstance(coords, NDArr):
            if coords.ndim != 1:
                raise Unsupported("cell_id of array")
            coords = ndarr.as_tuple(coords)
        if isinstance(coords, SColl):
            raise Unsupported("cell_id of collection")
        coords = list(coords)
        if len(coords) != 3:
            raise Unsupported("cell_id arguments")
        i, j, k = (SInt.of(c) for c in coords)
        ok = ball(band(c >= 0, c < n) for c, n in zip((i, j, k), self.n))
        if ok is not True and not bool(ok):
            return None          # not used by a contract (precondition: coords of a cell)
        return fold(i + self.n[0] * (j + self.n[1] * k))

    def cell_coords(self, ind):
        n = self.n
        if isinstance(ind, (list, tuple, SColl)):
            ind = arr(ind)
        if isinstance(ind, NDArr) and ind.shape:
            rd = ind.reader()

            def fn(idx):
                return self.one(rd(tuple(idx[:-1])), idx[-1])
            r = NDArr(tuple(ind.shape) + (3,), fn, "int")
            try:
                r._pieces = [p.map(lambda v: NDArr((3,), lambda idx: self.one(v, idx[0]), "int")) for p in pieces_of(ind)]
            except Unsupported:
                pass
            return r
        if isinstance(ind, NDArr):
            ind = ind.at()
        return NDArr((3,), lambda idx: self.one(ind, idx[0]), "int")

    def one(self, id, c):
        id = SInt.of(id)
        c = SInt.of(F(c)).const()
        strides = [SInt.of(1), self.n[0], self.n[0] * self.n[1]]
        if c == 2:
            v = core.idivmod(id, strides[2])[0] if not same_len(strides[2], 1) else id
        elif c == 1:
            v = core.idivmod(id, strides[1])[0] if not same_len(strides[1], 1) else id
            if not same_len(self.n[2], 1):
                v = core.idivmod(v, self.n[1])[1] if False else core.idivmod(core.idivmod(id, strides[2])[1], strides[1])[0] if not same_len(strides[1], 1) else core.idivmod(id, strides[2])[1]
            if same_len(self.n[1], 1):
                v = SInt.of(0)
        else:
            v = core.idivmod(id, self.n[0])[1] if not (same_len(self.n[1], 1) and same_len(self.n[2], 1)) else id
            if same_len(self.n[0], 1):
                v = SInt.of(0)
        if c == 2 and same_len(self.n[2], 1):
            v = SInt.of(0)
        return v

    def __getattr__(self, k):
        raise Unsupported("pyvista grid." + k)


# ------------------------------------------------------------------ install
WARNED = heap.JList()


def make_modules():
    np = make_numpy()
    mods = {"numpy": np}
    mods["pyvista"] = mod("pyvista", ExplicitStructuredGrid=ExplicitStructuredGrid)
    for n in ("matplotlib", "matplotlib.pyplot", "tabulate", "cProfile", "pstats", "line_profiler", "imageio", "PIL"):
        pass
    return mods
