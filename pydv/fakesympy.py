"""sympy: linear expressions of symbols whose names may contain a symbolic number.
Assumed contract of the dependency: the coefficients of an expression are those of
the linear function it is, and simplify() of an equation gives an equivalent one
(up to a non-zero factor) with all constants on the right-hand side."""
import itertools
from . import core, fakes, heap
from .core import SInt, R, Unsupported, cur, isint
from .fakes import mod

_n = itertools.count()


def number(x):
    return isinstance(x, (int, float, SInt, R)) and not isinstance(x, bool)


def num(x):
    if hasattr(x, "shape") and hasattr(x, "at") and not x.shape:
        x = x.at()
    if not number(x):
        raise Unsupported("sympy expression with " + type(x).__name__)
    return x


def is0(x):
    """x is zero as it stands or by a condition of this path (sympy drops such terms)"""
    if isint(x) or isinstance(x, float):
        return core.same(x, 0)
    x = core.resolve(core.merge_atoms(R.of(x)))
    if not x.n.t:
        return True
    e = x == 0
    if isinstance(e, bool):
        return e
    k = cur().known.get(core.simp(e.f).get_id())
    return k is not None and k[1] is True


class Expr:
    is_sym_expr = True
    __array_priority__ = 4000

    def __init__(self, terms, const=0):
        self.terms, self.const = terms, const     # [(Symbol, coefficient)]

    def as_coefficients_dict(self):
        d = fakes.SDefaultDict(lambda: 0)
        for s, c in self.terms:
            d[s] = c
        if not self.terms or not is0(self.const):
            d[1] = self.const
        return d

    @property
    def free_symbols(self):
        return [s for s, c in self.terms]

    def _map(self, f):
        ts = [(s, f(c)) for s, c in self.terms]
        return mk(ts, f(self.const))

    def __add__(self, o):
        if not isinstance(o, Expr):
            return mk(list(self.terms), self.const + num(o))
        ts = [list(t) for t in self.terms]
        for s, c in o.terms:
            for t in ts:
                if s.same(t[0]):
                    t[1] = t[1] + c
                    break
            else:
                ts.append([s, c])
        return mk([tuple(t) for t in ts], self.const + o.const)

    __radd__ = __add__

    def __neg__(self):
        return self._map(lambda c: -c)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Expr):
            if not o.terms:
                return self * o.const
            if not self.terms:
                return o * self.const
            raise Unsupported("product of symbols")
        o = num(o)
        return self._map(lambda c: c * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Expr):
            raise Unsupported("quotient of symbols")
        o = num(o)
        return self._map(lambda c: c / o)

    def _no(self, *a, **k):
        raise Unsupported("comparison of sympy expressions")
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __iter__ = __pow__ = __rtruediv__ = _no

    def __eq__(self, o):
        if isinstance(o, Expr):
            if len(o.terms) != len(self.terms):
                return False
            return core.same(o.const, self.const) and all(any(s.same(t) and core.same(c, e) for t, e in o.terms) for s, c in self.terms)
        return False

    __hash__ = None


class Symbol(Expr):
    def __init__(self, name, **k):
        self.name = name
        head = name.split("\u27e6")[0]
        if head != name:
            self.head, self.id = head, core.untoken(name[len(head):])
        else:
            h = name.rstrip("0123456789")
            self.head, self.id = h, int(name[len(h):]) if len(h) < len(name) else None
        self.terms, self.const = [(self, 1)], 0
        self.symkey = (self.head, None if self.id is None else SInt.of(self.id).key)

    def same(self, o):
        if self is o:
            return True
        if self.head != o.head or (self.id is None) != (o.id is None):
            return False
        return self.id is None or bool(SInt.of(self.id) == SInt.of(o.id))

    def __str__(self):
        return self.name

    def sym_eq(self, o):
        return isinstance(o, Symbol) and self.same(o)

    def __eq__(self, o):
        return isinstance(o, Symbol) and self.same(o)

    def __hash__(self):
        return hash(self.name)


def mk(ts, c):
    ts = [(s, k) for s, k in ts if not is0(k)]
    return Expr(ts, c)


class Eq:
    def __init__(self, lhs, rhs=0, **k):
        self.lhs = lhs if isinstance(lhs, Expr) else Expr([], num(lhs))
        self.rhs = rhs if isinstance(rhs, Expr) else Expr([], num(rhs))
        if not self.lhs.terms and not self.rhs.terms:
            raise Unsupported("equation without symbols")

    def simplify(self, *a, **k):
        """an equivalent equation; without a constant it keeps one symbol on the left only"""
        f = R.atom(f"simplify{next(_n)}", (), True)
        t = self.lhs - self.rhs
        if not t.terms:
            raise Unsupported("equation without symbols")
        r = Eq.__new__(Eq)
        if bool(R.of(t.const) == 0):
            r.lhs = mk([(s, c * f) for s, c in t.terms[:1]], 0)
            r.rhs = mk([(s, -c * f) for s, c in t.terms[1:]], 0)
        else:
            r.lhs = mk([(s, c * f) for s, c in t.terms], 0)
            r.rhs = Expr([], -t.const * f)
        return r

    def __repr__(self):
        return "Eq"


def module():
    return mod("sympy", Symbol=Symbol, Eq=Eq, Integer=lambda k: Expr([], k), Float=lambda k, *a: Expr([], k))
