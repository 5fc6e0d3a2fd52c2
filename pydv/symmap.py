"""Dictionaries with symbolically many entries."""
import z3
from . import core, ndarr
from .core import SInt, SBool, R, Unsupported, cur, isint, bany, band
from .ndarr import Piece, SColl, pieces_of, solve_piece, prod, lin


def as_sbool(f):
    return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)


def digit_vars(zs):
    return [core.digit(z) for z in zs]


class FamDict:
    """{key(d): value(d) for all digits d} with pairwise different keys"""
    sym_collection = True

    def __init__(self, pieces, length=None):
        self.ps = pieces            # elements (key, value)
        self.keyp = [Piece(p.rads, (lambda p: lambda d: p.elem(d)[0])(p), p.filt) for p in pieces]
        self.length = length
        self.checked = False

    sym_mapping = True

    def copy(self):
        return FamDict(self.ps, self.length)

    def check_keys(self):
        """keys determine digits"""
        if self.checked:
            return
        self.checked = True
        for p in self.keyp:
            if not p.rads:
                continue
            ds, facts = ndarr.fresh_digits(p.rads, "kd")

            def body():
                k = p.elem(ds)
                for f, digs in solve_piece(k, p):
                    g = z3.Implies(f, z3.And([a == b.z() for a, b in zip(digs, ds)]))
                    if not cur().entails(g):
                        raise Unsupported("dictionary keys may coincide")
                return True
            for c, kind, v, *_ in cur().cases(body, facts):
                if kind == "exc":
                    raise v
        if len(self.keyp) > 1:
            raise Unsupported("dictionary of several key families")

    def find(self, k):
        self.check_keys()
        for n, p in enumerate(self.keyp):
            for f, digs in solve_piece(k, p):
                b = as_sbool(f)
                if b is True or (b is not False and bool(b)):
                    return n, digit_vars(digs)
        return None

    def __getitem__(self, k):
        r = self.find(k)
        if r is None:
            raise KeyError(str(k))
        return self.ps[r[0]].elem(r[1])[1]

    def get(self, k, d=None):
        r = self.find(k)
        return d if r is None else self.ps[r[0]].elem(r[1])[1]

    def sym_contains(self, k):
        self.check_keys()
        return bany(as_sbool(f) for p in self.keyp for f, _ in solve_piece(k, p))

    def __contains__(self, k):
        return bool(self.sym_contains(k))

    def coll(self, kind, f):
        return SColl(kind, [p.map(f) for p in self.ps], self.length)

    def keys(self):
        return self.coll("list", lambda kv: kv[0])

    def values(self):
        return self.coll("list", lambda kv: kv[1])

    def items(self):
        return self.coll("list", lambda kv: kv)

    def to_coll(self, kind):
        c = self.keys()
        c.kind = kind
        return c

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        raise Unsupported("len of a symbolic dict by native code")

    def __bool__(self):
        raise Unsupported("truth of a symbolic dict")

    __hash__ = None


def from_pairs(coll):
    return FamDict(pieces_of(coll), coll.length if isinstance(coll, SColl) else None)
