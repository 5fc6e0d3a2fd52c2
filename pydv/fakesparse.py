"""scipy.sparse / scipy.linalg: matrices as functions of (row, column); solvers
are given by the contract (SOLVERS) - their answers are never computed."""
import itertools
from . import core, ndarr, fakes
from .core import SInt, SBool, R, Unsupported, isint, cur
from .ndarr import NDArr, F
from .fakes import mod, Recorder

SOLVE = {}       # name -> contract function(A, b, **kw)


class SpMat:
    """a two-dimensional sparse matrix; m is its (dense) meaning"""
    __array_priority__ = 3000

    def __init__(self, m, fmt="lil"):
        if m.ndim != 2:
            raise Unsupported("sparse matrix of dimension %d" % m.ndim)
        self.m, self.format = m, fmt

    @property
    def shape(self):
        return self.m.shape

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return self.m.dtype

    @property
    def T(self):
        return SpMat(self.m.transpose(), self.format)

    transpose = lambda s: s.T

    def copy(self):
        return SpMat(self.m.snapshot(), self.format)

    def _conv(self, fmt):
        return SpMat(self.m.snapshot(), fmt)

    def tocsc(self, *a, **k):
        return self._conv("csc")

    def tocsr(self, *a, **k):
        return self._conv("csr")

    def tolil(self, *a, **k):
        return self._conv("lil")

    def tocoo(self, *a, **k):
        return self._conv("coo")

    def asformat(self, f, *a):
        return self._conv(f)

    def astype(self, dt, *a, **k):
        return SpMat(self.m.astype(dt), self.format)

    def toarray(self, *a, **k):
        return self.m.snapshot()

    def todense(self, *a, **k):
        return matrix(self.m.snapshot())

    @property
    def A(self):
        return self.m.snapshot()

    def sum(self, axis=None):
        if axis is None:
            return self.m.sum()
        v = ndarr.sum_axis(self.m, axis)
        n = v.shape[0]
        rd = v.reader()
        if axis in (1, -1):
            return matrix(NDArr((n, 1), lambda idx: rd((idx[0],)), v.dtype))
        return matrix(NDArr((1, n), lambda idx: rd((idx[1],)), v.dtype))

    def diagonal(self, k=0):
        if k != 0:
            raise Unsupported("diagonal")
        rd = self.m.reader()
        return NDArr((self.m.shape[0],), lambda idx: rd((idx[0], idx[0])), self.m.dtype)

    def setdiag(self, v, k=0):
        if k != 0:
            raise Unsupported("setdiag")
        i = fakes.np_arange(self.m.shape[0])
        self.m[i, i] = v

    def __getitem__(self, key):
        if isinstance(key, SpMat):
            raise Unsupported("sparse index")
        if not isinstance(key, tuple):
            key = (key, slice(None))
        r = self.m[key]
        if isinstance(r, NDArr):
            if r.ndim == 1:
                # sparse matrices stay two-dimensional
                rd = r.reader()
                if isint(key[0]):
                    return SpMat(NDArr((1,) + r.shape, lambda idx: rd((idx[1],)), r.dtype), self.format)
                if isint(key[1]):
                    return SpMat(NDArr(r.shape + (1,), lambda idx: rd((idx[0],)), r.dtype), self.format)
                return matrix(NDArr((1,) + r.shape, lambda idx: rd((idx[1],)), r.dtype))
            return SpMat(r.snapshot(), self.format)
        return r

    def __setitem__(self, key, value):
        if self.format in ("coo", "dia", "bsr"):
            raise fakes.RealTypeError("item assignment")
        if not isinstance(key, tuple):
            key = (key, slice(None))
        if isinstance(value, SpMat):
            value = value.m.snapshot()
        if isinstance(value, NDArr) and getattr(value, "is_matrix", False) and value.ndim == 2 and any(isinstance(k, (NDArr, list, ndarr.SColl)) for k in key):
            # a (1, n) matrix against broadcast index arrays
            rd = value.reader()
            if not isinstance(value.shape[0], SInt) and value.shape[0] == 1:
                value = NDArr((value.shape[1],), lambda idx: rd((0, idx[0])), value.dtype)
        self.m[key] = value

    def _dense(self, o):
        if isinstance(o, SpMat):
            return o.m
        return o

    def __add__(self, o):
        if isinstance(o, SpMat):
            return SpMat(self.m + o.m, "csr")
        if isinstance(o, NDArr):
            return matrix(self.m + o)
        if isint(o) and o == 0:
            return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse matrix is not supported")

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SpMat):
            return SpMat(self.m - o.m, "csr")
        if isinstance(o, NDArr):
            return matrix(self.m - o)
        if isint(o) and o == 0:
            return self.copy()
        raise NotImplementedError("subtracting a nonzero scalar from a sparse matrix is not supported")

    def __rsub__(self, o):
        if isinstance(o, NDArr):
            return matrix(o - self.m)
        raise Unsupported("rsub")

    def __neg__(self):
        return SpMat(-self.m, self.format)

    def __abs__(self):
        return SpMat(abs(self.m), self.format)

    def _scalar(self, o):
        return isinstance(o, (int, float, SInt, R)) or hasattr(o, "is_sym_expr")

    def __mul__(self, o):
        if self._scalar(o):
            return SpMat(self.m * o, "csr" if self.format == "lil" else self.format)
        if isinstance(o, (SpMat, NDArr)):
            return self @ o
        raise Unsupported("sparse product with " + type(o).__name__)

    def __rmul__(self, o):
        if self._scalar(o):
            return SpMat(o * self.m, self.format)
        raise Unsupported("sparse rmul")

    def __truediv__(self, o):
        if self._scalar(o):
            return SpMat(self.m / o, self.format)
        raise Unsupported("sparse division")

    def multiply(self, o):
        if isinstance(o, SpMat):
            return SpMat(self.m * o.m, "csr")
        return SpMat(self.m * o, "coo" if isinstance(o, NDArr) else "csr")

    def dot(self, o):
        return self @ o

    def __matmul__(self, o):
        if isinstance(o, SpMat):
            return SpMat(ndarr.matmul(self.m, o.m), "csr")
        return ndarr.matmul(self.m, o)

    def reshape(self, *s, **k):
        return SpMat(self.m.reshape(*s), "coo")

    def sym_array(self):
        raise Unsupported("np.array of a sparse matrix")

    __hash__ = None


def matrix(a):
    r = a.snapshot()
    r.is_matrix = True
    return r


def as2d(x):
    if isinstance(x, SpMat):
        return x.m.snapshot()
    if isinstance(x, tuple) and len(x) == 2 and all(isint(v) for v in x):
        return fakes.np_zeros(x)
    a = fakes.arr(x).snapshot()
    if a.ndim == 1:
        rd = a.reader()
        return NDArr((1,) + a.shape, lambda idx: rd((idx[1],)), a.dtype)
    return a


def maker(fmt):
    def f(x, shape=None, dtype=None, copy=False, **k):
        if isinstance(x, tuple) and not (len(x) == 2 and all(isint(v) for v in x)):
            raise Unsupported("sparse matrix from parts")
        return SpMat(as2d(x), fmt)
    return f


def diags(ds, offsets=0, shape=None, format=None, dtype=None):
    if isint(offsets):
        if isinstance(ds, (list, tuple)) and len(ds) == 1:
            ds = ds[0]
        ds, offsets = [ds], [offsets]
    if isinstance(offsets, NDArr):
        offsets = [offsets[t] for t in range(len(offsets))]
    ds = list(ds)
    if len(ds) != len(offsets):
        raise ValueError("Different number of diagonals and offsets.")
    out = None
    for d, k in zip(ds, offsets):
        m = fakes.np_diag(d, k)
        if shape is not None:
            if not ndarr.known_eq(m.shape[0], shape[0]) or not ndarr.known_eq(m.shape[1], shape[1]):
                raise Unsupported("diags with other shape")
        out = m if out is None else out + m
    return SpMat(out, "dia")


def identity(n, *a, **k):
    return diags([fakes.np_ones(n)], [0])


def issparse(x):
    return isinstance(x, SpMat)


def solver(name):
    def f(A, b, *a, **k):
        g = SOLVE.get(name)
        if g is None:
            raise Unsupported("solver " + name)
        return g(A, b, *a, **k)
    f.__name__ = name
    return f


def modules():
    classes = {}
    s = mod("scipy")
    ss = mod("scipy.sparse", diags=diags, identity=identity, eye=identity, issparse=issparse, spmatrix=SpMat,
             **{n + "_matrix": maker(n) for n in ("lil", "csr", "csc", "coo", "dia")}, **{n + "_array": maker(n) for n in ()})
    sl = mod("scipy.linalg", solve=solver("solve"), inv=solver("inv"), lstsq=solver("lstsq"))
    names = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]
    ssl = mod("scipy.sparse.linalg", spsolve=solver("spsolve"), splu=solver("splu"), **{n: solver(n) for n in names})
    s.sparse, s.linalg = ss, sl
    ss.linalg = ssl
    return {"scipy": s, "scipy.sparse": ss, "scipy.linalg": sl, "scipy.sparse.linalg": ssl}
