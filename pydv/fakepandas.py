"""pandas by contract: tables of symbolically many rows and columns.

A table is a sequence of column blocks (a family of names and a family of
columns) over rows 0..n-1, a row condition and the column conditions it was
filtered by.  Assumed of pandas: a block of columns is what it was made from;
concat(axis=1) puts the columns of tables over the same rows side by side;
dropna and loc keep, in order, the rows or columns for which the stated
condition holds; a date of date_range is its start moved by as many times its
frequency."""
import z3
from . import core, ndarr
from .core import SInt, R, Unsupported, band, cur
from .ndarr import NDArr, F, SColl
from .fakes import Nan, SDict, mod, arr


class Date:
    """the date a number of days after a date, as text of a format"""
    is_sym_expr = True

    def __init__(self, start, days, fmt):
        self.start, self.days, self.fmt = start, days, fmt

    def __repr__(self):
        return f"date({self.start} + {self.days!r} days, {self.fmt})"

    def __ne__(self, o):
        if isinstance(o, Date):
            raise Unsupported("comparison of dates")
        return True

    def __eq__(self, o):
        return not self != o

    def __hash__(self):
        return 5


class Index:
    def __init__(self, name=None):
        self.name = name

    def astype(self, dtype, copy=True):
        return Index(self.name)


def length(x):
    if isinstance(x, NDArr):
        return ndarr.fold(x.shape[0])
    if isinstance(x, SColl):
        return ndarr.fold(x.length)
    if isinstance(x, (Dates, Series)):
        return x.n
    return len(x)


def same_len(a, b):
    return core.same(SInt.of(a), SInt.of(b)) or bool(SInt.of(a) == SInt.of(b))


class Block:
    """k columns: label(j), value(row, j)"""

    def __init__(self, k, label, value):
        self.k, self.label, self.value = k, label, value


def labels(x):
    if isinstance(x, SColl):
        if x.at is None:
            raise Unsupported("names from an unordered collection")
        return length(x), x.at
    x = list(x)
    return len(x), lambda j: ndarr.pick(j, x)


class Sel:
    """condition on columns or rows"""

    def __init__(self, frame, quant, test):
        self.frame, self.quant, self.test = frame, quant, test


class Bools:
    def __init__(self, frame, test):
        self.frame, self.test = frame, test

    def any(self, axis=0):
        if axis not in (0, "index"):
            raise Unsupported("any over columns")
        return Sel(self.frame, "any", self.test)

    def all(self, axis=0):
        if axis not in (0, "index"):
            raise Unsupported("all over columns")
        t = self.test
        return Sel(self.frame, "all", t)


class Series:
    def __init__(self, data=None, name=None, index=None, **k):
        if index is not None or k:
            raise Unsupported("Series options")
        self.n = length(data)
        self.name = name
        if isinstance(data, (Dates, Series)):
            self.rd = data.rd
        else:
            self.rd = (lambda r: lambda i: r((i,)))(arr(data).reader())

    def repeat(self, n):
        s = Series.__new__(Series)
        k = SInt.of(n)
        s.n, s.name = SInt.of(self.n) * k, self.name
        s.rd = lambda i: self.rd(core.idivmod(SInt.of(F(i)), k)[0])
        return s

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported("index as a column")
        return self

    def __len__(self):
        raise Unsupported("len of Series by native code")


class Dates:
    def __init__(self, start, n, days, fmt=None):
        self.start, self.n, self.days, self.fmt = start, n, days, fmt

    def strftime(self, fmt):
        return Dates(self.start, self.n, self.days, fmt)

    @property
    def shape(self):
        return (self.n,)

    def rd(self, i):
        return Date(self.start, SInt.of(F(i)) * self.days, self.fmt)


def date_range(start=None, end=None, periods=None, freq=None):
    if end is not None or periods is None or not isinstance(freq, str) or not freq.endswith("D"):
        raise Unsupported("date_range options")
    d = freq[:-1]
    v = core.untoken(d)
    if v is None:
        from fractions import Fraction
        v = Fraction(d) if d else 1
    return Dates(start, periods, v)


class Loc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, key):
        if not (isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and isinstance(key[1], Sel)):
            raise Unsupported("loc")
        return self.f._filtered(key[1])


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, **k):
        if index is not None or k:
            raise Unsupported("DataFrame options")
        self.index = Index()
        self.rowkeep = []           # conditions on rows
        self.colkeep = []           # conditions on columns
        self.blocks = []
        self.n = 0
        if data is None:
            if columns is not None:
                raise Unsupported("empty table with columns")
            return
        if isinstance(data, (dict, SDict)):
            if columns is not None:
                raise Unsupported("columns of a dict")
            for key in list(data.keys()):
                self[key] = data[key]
            return
        if isinstance(data, Values):
            self.n, self.blocks, self.rowkeep, self.colkeep = data.f.n, list(data.f.blocks), list(data.f.rowkeep), list(data.f.colkeep)
            if columns is not None:
                self.columns = columns
            return
        a = arr(data)
        rd = a.reader()
        self.n = ndarr.fold(a.shape[0])
        if a.ndim == 1:
            k, value = 1, lambda r, j: rd((r,))
        elif a.ndim == 2:
            k, value = ndarr.fold(a.shape[1]), lambda r, j: rd((r, j))
        else:
            raise ValueError("Must pass 2-d input")
        label = lambda j: SInt.of(j)
        if columns is not None:
            m, label = labels(columns)
            if not same_len(m, k):
                raise ValueError(f"Shape of passed values, {m} columns passed, passed data had {k} columns")
        self.blocks = [Block(k, label, value)]

    # ---- state
    def _copy(self):
        f = DataFrame()
        f.n, f.blocks, f.rowkeep, f.colkeep = self.n, list(self.blocks), list(self.rowkeep), list(self.colkeep)
        f.index = Index(self.index.name)
        return f

    def _plain(self):
        if self.rowkeep or self.colkeep:
            raise Unsupported("a filtered table is changed")

    def _filtered(self, sel):
        if sel.frame is not self:
            raise Unsupported("condition of another table")
        f = self._copy()
        f.colkeep.append(sel)
        return f

    def width(self):
        t = 0
        for b in self.blocks:
            t = t + b.k
        return t

    def find(self, j):
        """the block of column j, and where in it"""
        o = SInt.of(0)
        for b in self.blocks:
            if bool(SInt.of(j) < o + b.k):
                return b, SInt.of(j) - o
            o = o + b.k
        raise IndexError("column")

    def label(self, j):
        b, t = self.find(j)
        return b.label(t)

    def value(self, r, j):
        b, t = self.find(j)
        v = b.value(r, t)
        return v

    # ---- interface
    @property
    def columns(self):
        raise Unsupported("columns are read")

    @columns.setter
    def columns(self, names):
        k, label = labels(names)
        self._plain()
        if not same_len(k, self.width()):
            raise ValueError("Length mismatch: Expected axis has other number of elements")
        o = SInt.of(0)
        out = []
        for b in self.blocks:
            out.append(Block(b.k, (lambda o: lambda j: label(SInt.of(j) + o))(o), b.value))
            o = o + b.k
        self.blocks = out

    @property
    def empty(self):
        return not self.blocks

    @property
    def values(self):
        return Values(self)

    def to_numpy(self):
        return Values(self)

    def __setitem__(self, name, x):
        self._plain()
        if isinstance(x, Series):
            n, rd = x.n, x.rd
        else:
            a = arr(x)
            if a.ndim != 1:
                raise Unsupported("a column of several dimensions")
            n, r = a.shape[0], a.reader()
            rd = lambda i: r((i,))
        if not self.blocks:
            self.n = ndarr.fold(n)
        elif not same_len(n, self.n):
            raise ValueError(f"Length of values does not match length of index")
        for b in self.blocks:
            if b.k != 1 or not isinstance(b.label(0), str) or not isinstance(name, str):
                if b.k == 1 and isinstance(name, (int, SInt)) and isinstance(b.label(0), (int, SInt)):
                    if bool(SInt.of(b.label(0)) == SInt.of(name)):
                        raise Unsupported("a column is replaced")
                    continue
                raise Unsupported("a column may be replaced")
            if b.label(0) == name:
                b.value = lambda i, j: rd(i)
                return
        self.blocks.append(Block(1, lambda j: name, lambda i, j: rd(i)))

    def __ne__(self, o):
        return Bools(self, lambda r, j: cell_ne(self.value(r, j), o))

    def __eq__(self, o):
        t = (self != o).test
        return Bools(self, lambda r, j: not t(r, j))

    __hash__ = None

    def notna(self):
        return Bools(self, lambda r, j: not isinstance(self.value(r, j), Nan))

    notnull = notna

    @property
    def loc(self):
        return Loc(self)

    def dropna(self, axis=0, how="any", **k):
        if k:
            raise Unsupported("dropna options")
        if axis in (1, "columns") and how == "all":
            f = self._copy()
            f.colkeep.append(Sel(self, "any", lambda r, j: not isinstance(self.value(r, j), Nan)))
            return f
        if axis in (1, "columns") and how == "any":
            f = self._copy()
            f.colkeep.append(Sel(self, "all", lambda r, j: not isinstance(self.value(r, j), Nan)))
            return f
        if axis in (0, "index") and how == "any":
            if self.colkeep:
                raise Unsupported("rows of a table without some columns")
            f = self._copy()
            f.rowkeep.append(("all", lambda r, j: not isinstance(self.value(r, j), Nan), self.width()))
            f.index = None          # has holes until it is made anew
            return f
        raise Unsupported("dropna")

    def reset_index(self, drop=False, inplace=False):
        if not drop:
            raise Unsupported("index as a column")
        f = self if inplace else self._copy()
        f.index = Index()
        return None if inplace else f

    def to_csv(self, *a, **k):
        raise Unsupported("to_csv")


def cell_ne(v, o):
    if isinstance(v, Nan):
        return True
    if isinstance(v, (str, Date)):
        return not isinstance(o, str) or v != o
    r = R.of(v) != R.of(o)
    return r if isinstance(r, bool) else bool(r)


class Values(NDArr):
    """the array of a table"""

    def __init__(self, f):
        self.f = f
        if f.rowkeep or f.colkeep:
            shape = (SInt.var(cur().fresh_name("rows")), SInt.var(cur().fresh_name("columns")))

            def fn(idx):
                raise Unsupported("values of a filtered table")
        else:
            shape = (f.n, f.width())
            fn = lambda idx: f.value(F(idx[0]), F(idx[1]))
        NDArr.__init__(self, shape, fn)


def concat(objs, axis=0, **k):
    if axis not in (1, "columns") or k:
        raise Unsupported("concat options")
    out = DataFrame()
    for o in list(objs):
        if o is None:
            continue
        if isinstance(o, DataFrame):
            o._plain()
            if not o.blocks:
                if not same_len(o.n, 0):
                    raise Unsupported("rows without columns")
                continue
            n, bs = o.n, o.blocks
        elif isinstance(o, Series):
            n, bs = o.n, [Block(1, (lambda o: lambda j: o.name)(o), (lambda o: lambda r, j: o.rd(r))(o))]
        else:
            raise TypeError("cannot concatenate object")
        if not out.blocks:
            out.n = ndarr.fold(n)
        elif not same_len(out.n, n):
            raise Unsupported("tables of different numbers of rows are put side by side")
        out.blocks += list(bs)
    return out


def module():
    return mod("pandas", DataFrame=DataFrame, Series=Series, concat=concat, date_range=date_range)
