"""Arrays as functions of their index, and collections of symbolic length."""
import itertools
import z3
from . import core, heap
from .core import SInt, SBool, R, Unsupported, isint, cur, band, bany, ball, bz, bnot


class Lz:
    """index component computed on demand"""
    __slots__ = ("fn", "v")

    def __init__(self, fn):
        self.fn, self.v = fn, None

    def get(self):
        if self.v is None:
            self.v = SInt.of(F(self.fn()))
        return self.v


def F(x):
    return x.get() if isinstance(x, Lz) else x


def prod(xs):
    p = SInt.of(1)
    for x in xs:
        p = p * x
    return p


def fold(x):
    return x.fold() if isinstance(x, SInt) else x


def known_eq(a, b):
    """are two lengths equal (forks if the path does not decide)"""
    d = SInt.of(a) - SInt.of(b)
    if d.isconst():
        return d.const() == 0
    return bool(SInt.of(a) == SInt.of(b))


def rowmajor(idx, shape):
    """flat position of idx (lazy-safe)"""
    def f():
        p = SInt.of(0)
        for i, n in zip(idx, shape):
            p = p * n + (0 if n == 1 and not isinstance(n, SInt) else F(i))
        return p
    return f


class Step:
    pass


class Affine(Step):
    """view index -> parent index; spec per parent axis: ('fix', c) or ('ax', viewaxis, start, step)"""

    def __init__(self, spec):
        self.spec = spec

    def fwd(self, idx):
        out = []
        for s in self.spec:
            if s[0] == "fix":
                out.append(s[1])
            else:
                _, ax, st, sp = s
                i = idx[ax]
                if sp == 1 and st == 0 and not isinstance(st, SInt):
                    out.append(i)
                else:
                    out.append(Lz(lambda i=i, st=st, sp=sp: SInt.of(F(i)) * sp + st))
        return tuple(out)

    def inv(self, idx, nview, vshape):
        cond = True
        v = [0] * nview
        for s, i in zip(self.spec, idx):
            i = SInt.of(F(i))
            if s[0] == "fix":
                cond = band(cond, i == s[1])
            else:
                _, ax, st, sp = s
                t = i - st
                if isinstance(sp, SInt) or sp not in (1, -1):
                    cond = band(cond, t >= 0)
                    if cond is False or not bool(cond):
                        return False, None
                    cond = True
                    q, r = core.idivmod(t, SInt.of(sp))
                    cond = band(cond, r == 0)
                    t = q
                elif sp == -1:
                    t = -t
                v[ax] = t
                cond = band(cond, band(t >= 0, t < vshape[ax]))
        return cond, tuple(v)


class Perm(Step):
    def __init__(self, axes):
        self.axes = axes          # view axis a is parent axis axes[a]

    def fwd(self, idx):
        out = [None] * len(idx)
        for a, p in enumerate(self.axes):
            out[p] = idx[a]
        return tuple(out)

    def inv(self, idx, nview, vshape):
        return True, tuple(idx[p] for p in self.axes)


class Reshape(Step):
    def __init__(self, old, new):
        self.old, self.new = old, new

    @staticmethod
    def conv(idx, a, b):
        """index in shape a -> index in shape b (same total size)"""
        # common trailing axes
        a, b, idx = list(a), list(b), list(idx)
        tail = []
        while a and b and same_len(a[-1], b[-1]):
            tail.insert(0, idx.pop())
            a.pop(), b.pop()
        if not a and not b:
            return tuple(tail)
        # drop axes of length one
        ra = [(n, i) for n, i in zip(a, idx) if not (not isinstance(n, SInt) and n == 1)]
        rb = [n for n in b if not (not isinstance(n, SInt) and n == 1)]
        if len(ra) == len(rb) and all(same_len(n, m) for (n, _), m in zip(ra, rb)):
            it = iter([i for _, i in ra])
            head = [0 if (not isinstance(n, SInt) and n == 1) else next(it) for n in b]
            return tuple(head + tail)
        pos = Lz(rowmajor([i for _, i in ra], [n for n, _ in ra]))
        out = []
        strides = []
        s = SInt.of(1)
        for n in reversed(b):
            strides.insert(0, s)
            s = s * n
        first = True
        for n, st in zip(b, strides):
            if not isinstance(n, SInt) and n == 1:
                out.append(0)
                continue
            if first:
                out.append(Lz(lambda st=st: core.idivmod(SInt.of(F(pos)), st)[0]) if not (st.isconst() and st.const() == 1) else pos)
                first = False
            elif st.isconst() and st.const() == 1:
                out.append(Lz(lambda n=n: core.idivmod(SInt.of(F(pos)), SInt.of(n))[1]))
            else:
                out.append(Lz(lambda st=st, n=n: core.idivmod(core.idivmod(SInt.of(F(pos)), st * n)[1], st)[0]))
        return tuple(out + tail)

    def fwd(self, idx):
        return self.conv(idx, self.new, self.old)

    def inv(self, idx, nview, vshape):
        return True, self.conv(idx, self.old, self.new)


def same_len(a, b):
    d = SInt.of(a) - SInt.of(b)
    return d.isconst() and d.const() == 0


SERIAL = itertools.count(1)


class Buf:
    def __init__(self, shape, fn):
        self.shape = tuple(fold(s) for s in shape)
        self.fn = fn
        self.ups = ()
        self.born = next(SERIAL)

    def push(self, up, where=None):
        old, new = self.ups, self.ups + (up,)
        heap.write(self, "ups", lambda: setattr(self, "ups", old), lambda: setattr(self, "ups", new), where)

    def reader(self):
        fn, ups = self.fn, self.ups

        def read(idx):
            for inv, val in reversed(ups):
                c, v = inv(idx)
                if c is False:
                    continue
                if c is True or bool(c):
                    return val(v)
            return fn(idx)
        return read


class Piece:
    """a family of elements: elem(digits) for all digits below rads, where filt holds"""

    def __init__(self, rads, elem, filt=None):
        self.rads = [fold(r) for r in rads]
        self.elem = elem
        self.filt = filt

    def map(self, f, filt=None):
        e, g = self.elem, self.filt
        if filt is None:
            h = g
        elif g is None:
            h = lambda d: filt(e(d))
        else:
            h = lambda d: band(g(d), filt(e(d)))
        return Piece(self.rads, lambda d: f(e(d)), h)


def expand_pieces(pieces):
    """turn small constant radices into separate pieces"""
    out = []
    for p in pieces:
        small = [n for n, r in enumerate(p.rads) if not isinstance(r, SInt)]
        if not small:
            out.append(p)
            continue
        if 1 in [0] or core.prod_int([p.rads[n] for n in small]) > 64:
            raise Unsupported("large concrete collection")
        keep = [n for n in range(len(p.rads)) if n not in small]
        for combo in itertools.product(*[range(p.rads[n]) for n in small]):
            def mk(d, combo=combo, p=p, small=small, keep=keep):
                full = [None] * len(p.rads)
                for n, c in zip(small, combo):
                    full[n] = SInt.of(c)
                for n, x in zip(keep, d):
                    full[n] = x
                return full
            out.append(Piece([p.rads[n] for n in keep], lambda d, mk=mk, p=p: p.elem(mk(d)),
                             None if p.filt is None else (lambda d, mk=mk, p=p: p.filt(mk(d)))))
    return out


def prod_int(xs):
    r = 1
    for x in xs:
        r *= x
    return r


core.prod_int = prod_int


def fresh_digits(rads, base="g"):
    """fresh integer variables and the facts 0 <= v < rad"""
    ds, facts = [], []
    for r in rads:
        v = SInt.var(cur().fresh_name(base))
        ds.append(v)
        facts.append(z3.And(v.z() >= 0, v.z() < SInt.of(r).z()))
    return ds, facts


def factor_len(n):
    """radices (slow to fast) whose product is n"""
    n = SInt.of(n)
    if n.isconst() or n.degree() <= 1:
        return [fold(n)]
    for sysm in core.radix_systems():
        for a in range(len(sysm)):
            for b in range(a + 1, len(sysm) + 1):
                if prod(sysm[a:b]).key == n.key:
                    return [fold(x) for x in reversed(sysm[a:b])]
    raise Unsupported("length %r" % n)


def pieces_of(x):
    """pieces of any collection"""
    if isinstance(x, SColl):
        return expand_pieces(x.pieces)
    if isinstance(x, NDArr):
        if x._pieces is not None:
            return expand_pieces(x._pieces)
        rads = factor_len(x.shape[0])
        snap = x.snapshot()

        def elem(d):
            i = SInt.of(0)
            for v, r in zip(d, rads):
                i = i * r + v
            return snap[i]
        return expand_pieces([Piece(rads, elem)])
    if isinstance(x, core_range()):
        return expand_pieces([Piece(factor_len(x.n), lambda d: lin(d, factor_len(x.n)) * x.step + x.start)])
    return [Piece([], lambda d, e=e: e) for e in x]


def lin(d, rads):
    i = SInt.of(0)
    for v, r in zip(d, rads):
        i = i * r + v
    return i


def core_range():
    return SRange


def as_tuple(v):
    if isinstance(v, NDArr):
        n = v.shape[0]
        if isinstance(n, SInt):
            raise Unsupported("symbolic row")
        return tuple(v[t] for t in range(n))
    return v


def member(x, coll):
    """symbolic truth of `x in coll`"""
    return bany(member_piece(x, p) for p in pieces_of(coll))


def val_eq(a, b):
    """equality of two element values as a bool / SBool"""
    if isinstance(a, NDArr):
        a = as_tuple(a)
    if isinstance(b, NDArr):
        b = as_tuple(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return ball(val_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return False
    r = a == b
    return r


def solve_piece(x, p):
    """conditions under which x is an element: list of (z3 condition, digit terms)"""
    ctx = cur()
    if not p.rads:
        c = val_eq(x, p.elem([]))
        if p.filt is not None:
            c = band(c, p.filt([]))
        return [(bz(c), [])]
    ds, facts = fresh_digits(p.rads, "m")
    names = [next(iter(d.atoms())) for d in ds]

    def body():
        if p.filt is not None:
            f = p.filt(ds)
            if f is False or (f is not True and not bool(f)):
                raise core.PathAbort()
        e = p.elem(ds)
        e = as_tuple(e)
        xs = as_tuple(x)
        if isinstance(e, tuple) != isinstance(xs, tuple) or (isinstance(e, tuple) and len(e) != len(xs)):
            raise core.PathAbort()
        es, xs = (list(e), list(xs)) if isinstance(e, tuple) else ([e], [xs])
        eqs = []          # (SInt linear in digits, z3 term)
        for a, b in zip(es, xs):
            if not (isint(a) and isint(b)):
                if isinstance(a, str) and isinstance(b, str):
                    if a != b:
                        raise core.PathAbort()
                    continue
                raise Unsupported("membership of non-integers")
            a, b = SInt.of(a), SInt.of(b)
            if a.degree() <= 1 and b.degree() <= 1:
                eqs.append((a, b.z()))
                continue
            for sysm in core.radix_systems():
                try:
                    da = core.digits(a, sysm)
                except (core.DigitError, Unsupported):
                    continue
                carry, norm = 0, []
                for u, r in zip(da[:-1], sysm[:-1]):
                    u = u + carry
                    carry = core.carry_of(u, r)
                    if carry is None:
                        break
                    norm.append(u - r * carry)
                if carry is None:
                    continue
                da = norm + [da[-1] + carry]
                nb = core.normal_digits_in(b, sysm)
                if nb is None:
                    continue
                eqs += list(zip(da, nb))
                break
            else:
                if apart(b - a) or apart(b - a.subs({v: SInt.of(r) - 1 - d for v, r, d in zip(names, p.rads, ds)})):
                    raise core.PathAbort()
                raise Unsupported(f"membership {b!r} in family {a!r}")
        return eqs
    out = []
    for conds, kind, val, _, _ in ctx.cases(body, facts):
        if kind == "exc":
            raise Unsupported("exception while enumerating a collection: %r" % (val,))
        sol = {}
        eqs = list(val)
        progress = True
        while progress and eqs:
            progress = False
            for n, (a, z) in enumerate(eqs):
                un = [v for v in names if v not in sol and a.p.get((v,), 0)]
                if len(un) == 1 and a.p[(un[0],)] in (1, -1):
                    c = a.p[(un[0],)]
                    rest = SInt({m: k for m, k in a.p.items() if m != (un[0],)})
                    t = z - sub_z(rest.z(), sol)
                    sol[un[0]] = t if c == 1 else -t
                    eqs.pop(n)
                    progress = True
                    break
        cs = []
        for a, z in eqs:
            if any(v not in sol and a.p.get((v,), 0) for v in names):
                raise Unsupported("membership equation")
            cs.append(sub_z(a.z(), sol) == z)
        free = [v for v in names if v not in sol]
        if free and any(free_in(c, free) for c in conds):
            raise Unsupported("membership with free digit")
        for v, r in zip(names, p.rads):
            rz = SInt.of(r).z()
            if v in sol:
                cs.append(z3.And(sol[v] >= 0, sol[v] < rz))
            else:
                cs.append(rz > 0)
        for c in conds:
            cs.append(sub_z(c, sol))
        out.append((z3.simplify(z3.And(cs)), [sol.get(v, z3.IntVal(0)) for v in names]))
    return out


def apart(d):
    lo, hi = core.shifted_bounds(d)
    return lo is not None and lo > 0 or hi is not None and hi < 0


def member_piece(x, p):
    return bany(SBool(c) if not (z3.is_true(c) or z3.is_false(c)) else z3.is_true(c) for c, _ in solve_piece(x, p))


def free_in(f, names):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().name() in names:
            return True
        todo.extend(t.children())
    return False


def sub_z(t, sol):
    if not sol:
        return t
    return z3.substitute(t, [(core.atom_z3(v), s) for v, s in sol.items()])


class SColl:
    """list, tuple or set of symbolic length"""
    __array_ufunc_sym__ = True

    def __init__(self, kind, pieces, length=None, at=None, ordered=True):
        self.kind, self.pieces, self.length, self.at = kind, pieces, length, at
        self.sorted = False

    def __contains__(self, x):
        return bool(member(x, self))

    def __len__(self):
        raise Unsupported("len of symbolic collection by native code")

    def __iter__(self):
        return sym_iter(self, False)

    def __getitem__(self, i):
        if self.at is None:
            raise Unsupported("indexing an unordered symbolic collection")
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic collection")
        i = SInt.of(i)
        if bool(i < 0):
            i = i + self.length
        if not bool(band(i >= 0, i < self.length)):
            raise IndexError("list index out of range")
        return self.at(i)

    def intersection(self, other):
        o = other
        return SColl(self.kind, [Piece(p.rads, p.elem, (lambda d, p=p: band(p.filt(d) if p.filt else True, contains(o, p.elem(d))))) for p in pieces_of(self)])

    def __sub__(self, other):
        return SColl(self.kind, [Piece(p.rads, p.elem, (lambda d, p=p: band(p.filt(d) if p.filt else True, bnot(contains(other, p.elem(d)))))) for p in pieces_of(self)])

    difference = __sub__
    __and__ = intersection

    def __or__(self, other):
        return SColl(self.kind, list(pieces_of(self)) + list(pieces_of(other)))

    union = __or__

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"SColl({self.kind})"


def contains(coll, x):
    """`x in coll` as bool / SBool"""
    if isinstance(coll, (SColl, NDArr, SRange)):
        return member(x, coll)
    if isinstance(coll, SSet):
        return bany(val_eq(x, e) for e in coll.items)
    if isinstance(coll, (str, bytes)):
        return x in coll
    if isinstance(coll, dict):
        return coll.sym_contains(x) if hasattr(coll, "sym_contains") else x in coll
    if isinstance(coll, (list, tuple, set, frozenset)) or hasattr(coll, "__iter__"):
        return bany(val_eq(x, e) for e in coll)
    return x in coll


class SSet:
    """a set with concretely many, possibly symbolic elements"""
    __array_ufunc_sym__ = True

    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    def _put(self, items):
        old = self.__dict__.get("items", [])
        heap.write(self, None, lambda: setattr(self, "items", old), lambda: setattr(self, "items", items))

    def add(self, x):
        if not bool(bany(val_eq(x, e) for e in self.items)):
            self._put(self.items + [x])

    def __contains__(self, x):
        return bool(bany(val_eq(x, e) for e in self.items))

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def intersection(self, o):
        return SSet([x for x in self.items if bool(contains(o, x))])

    __and__ = intersection

    def difference(self, o):
        return SSet([x for x in self.items if not bool(contains(o, x))])

    __sub__ = difference

    def union(self, *os):
        r = list(self.items)
        for o in os:
            if isinstance(o, (SColl, NDArr)):
                return SColl("set", [Piece([], lambda d, e=e: e) for e in r] + list(pieces_of(o)))
            r += list(o)
        return SSet(r)

    __or__ = union

    def issubset(self, o):
        return all(bool(contains(o, x)) for x in self.items)

    def update(self, o):
        for x in o:
            self.add(x)

    def discard(self, x):
        self._put([e for e in self.items if not bool(val_eq(e, x))])

    def copy(self):
        return SSet(self.items)

    def __eq__(self, o):
        if isinstance(o, SSet):
            return len(self) == len(o) and all(x in o for x in self.items)
        return False

    def __bool__(self):
        return bool(self.items)

    def __repr__(self):
        return "SSet(%r)" % (self.items,)

    __hash__ = None


class SRange:
    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = start, n, step

    def __iter__(self):
        return sym_iter(self, False)

    def __contains__(self, x):
        return bool(member(x, self))

    def __getitem__(self, i):
        return SInt.of(self.start) + SInt.of(i) * self.step


def sym_iter(coll, searchy):
    """a loop over a collection of symbolic length whose body only searches
    (returns, breaks or raises): either some element ends the loop, or none does"""
    if not searchy:
        raise Unsupported("loop over a symbolic collection")
    ctx = cur()
    ps = pieces_of(coll)
    loop = ("loop", ctx.pathkey())
    mode = ctx.choose(len(ps) + 1, "loop")
    if mode < len(ps):
        p = ps[mode]
        ds, facts = fresh_digits(p.rads, "w")
        for f in facts:
            ctx.assume(f)
        ctx._sync()
        if p.filt is not None:
            if not bool(p.filt(ds)):
                raise core.PathAbort()
        e = p.elem(ds)
        mark = len(ctx.pc)
        yield e
        ctx.log.setdefault(loop, []).append((mode, [next(iter(d.atoms())) for d in ds], list(ctx.pc[mark:])))
        raise core.PathAbort()
    for n, p in enumerate(ps):
        falls = [(v, c) for (m, v, c) in ctx.log.get(loop, []) if m == n]
        ds, facts = fresh_digits(p.rads, "w")
        vs = [core.atom_z3(next(iter(d.atoms()))) for d in ds]
        alts = []
        for names, conds in falls:
            f = z3.And(conds) if conds else z3.BoolVal(True)
            alts.append(z3.substitute(f, [(core.atom_z3(a), b) for a, b in zip(names, vs)]))
        body = z3.Implies(z3.And(facts), z3.Or(alts)) if facts else z3.Or(alts)
        if p.filt is not None:
            raise Unsupported("search loop over a filtered collection")
        ctx.assume(z3.ForAll(vs, body) if vs else body)
    if ctx.check(z3.BoolVal(True)) == "unsat":
        raise core.PathAbort()
    return


def broadcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for a in range(nd):
        dim = 1
        for s in shapes:
            k = a - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if not isinstance(n, SInt) and n == 1:
                continue
            if not isinstance(dim, SInt) and dim == 1:
                dim = n
            elif not same_len(dim, n) and not known_eq(dim, n):
                if isinstance(n, SInt) and bool(n == 1):
                    continue
                raise ValueError(f"operands could not be broadcast together {shapes}")
        out.append(dim)
    return tuple(out)


class NDArr:
    __array_ufunc_sym__ = True
    is_matrix = False        # np.matrix: always two-dimensional
    __array_priority__ = 2000

    def __init__(self, shape, fn=None, dtype="float", buf=None, steps=(), pieces=None):
        self.shape = tuple(fold(s) for s in shape)
        self.buf = buf if buf is not None else Buf(self.shape, fn)
        self.steps = list(steps)       # from this view down to the buffer
        self.dtype = dtype
        self._pieces = pieces
        self._blocks = None      # 1-D: concatenation of these arrays, flattened
        self._vshapes = None
        self.sorted = False

    # -- basic
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return fold(prod(self.shape))

    @property
    def T(self):
        return self.transpose()

    def _tobuf(self, idx):
        for s in self.steps:
            idx = s[0].fwd(idx)
        return idx

    def reader(self):
        rd = self.buf.reader()
        steps = list(self.steps)

        def read(idx):
            for s in steps:
                idx = s[0].fwd(idx)
            return rd(idx)
        return read

    def at(self, *idx):
        return self.reader()(tuple(idx))

    def snapshot(self):
        a = NDArr(self.shape, self.reader(), self.dtype)
        a._pieces = self._pieces
        a.sorted = self.sorted
        if self.is_matrix:
            a.is_matrix = True
        return a

    def copy(self, *a, **k):
        return self.snapshot()

    def astype(self, dt, *a, **k):
        r = self.snapshot()
        k = str(getattr(dt, "__name__", dt))
        if "int" in k and self.dtype not in ("int", "bool"):
            raise Unsupported("astype(int) of reals")
        r.dtype = "int" if "int" in k else "bool" if "bool" in k else "float"
        return r

    def view(self, shape, step, pieces=None):
        v = NDArr(shape, None, self.dtype, self.buf, [(step, tuple(fold(s) for s in shape), self.shape)] + self.steps)
        return v

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, SInt):
            raise Unsupported("len of symbolic array by native code")
        return n

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, SInt):
            return sym_iter(self, False)
        return iter([self[t] for t in range(n)])

    def __bool__(self):
        if not self.shape:
            return bool(self.at())
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    __hash__ = None

    # -- shape
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(fold(s) for s in shape)
        total = prod(self.shape)
        if any((not isinstance(s, SInt)) and s == -1 for s in shape):
            rest = prod([s for s in shape if isinstance(s, SInt) or s != -1])
            miss = quotient(total, rest, self.shape)
            shape = tuple(fold(miss) if (not isinstance(s, SInt) and s == -1) else s for s in shape)
        if prod(shape).key != total.key and not known_eq(prod(shape), total):
            raise ValueError(f"cannot reshape array of size {total} into shape {shape}")
        if len(shape) == len(self.shape) and all(same_len(a, b) for a, b in zip(shape, self.shape)):
            v = self.view(shape, Reshape(self.shape, shape))
            v._pieces = self._pieces
            return v
        v = self.view(shape, Reshape(self.shape, shape))
        v._pieces = flat_pieces(self, shape)
        if v._pieces is None and self._blocks and len(shape) == 2 and isinstance(shape[1], int) and all(same_len(b.shape[-1], shape[1]) for b in self._blocks):
            v._pieces = [block_rows(b) for b in self._blocks]
        return v

    def flatten(self, *a, **k):
        if self.is_matrix:
            r = self.reshape((1, prod(self.shape))).snapshot()
            r.is_matrix = True
            return r
        r = self.reshape(prod(self.shape)).snapshot()
        if self.ndim > 1:
            r._blocks = [self.snapshot()]
        return r

    def ravel(self, *a, **k):
        if self.is_matrix:
            return self.flatten()
        return self.reshape(prod(self.shape))

    def squeeze(self):
        return self.reshape(tuple(n for n in self.shape if isinstance(n, SInt) or n != 1))

    def transpose(self, *axes, **k):
        if k.get("axes") is not None:
            axes = k["axes"]
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        axes = tuple(axes)
        return self.view(tuple(self.shape[a] for a in axes), Perm(axes))

    # -- indexing
    def _norm_index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            n = [i for i, k in enumerate(key) if k is Ellipsis][0]
            used = len([k for k in key if k is not None and k is not Ellipsis])
            key = key[:n] + (slice(None),) * (self.ndim - used) + key[n + 1:]
        return key

    def _int_index(self, i, n):
        i = SInt.of(i)
        if i.isconst():
            if i.const() < 0:
                i = i + n
                if bool(i < 0):
                    raise IndexError("index out of bounds")
            elif bool(i >= n):
                raise IndexError("index out of bounds")
            return i
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                raise IndexError("index out of bounds")
        elif bool(i >= n):
            raise IndexError("index out of bounds")
        return i

    def _slice(self, s, n):
        step = 1 if s.step is None else s.step
        n = SInt.of(n)

        def clamp(v, lo, hi):
            v = SInt.of(v)
            if bool(v < 0):
                v = v + n
                if bool(v < 0):
                    v = SInt.of(lo)
            if bool(v > hi):
                v = SInt.of(hi)
            return v
        if isinstance(step, int) and step < 0:
            if step != -1 or s.start is not None or s.stop is not None:
                raise Unsupported("negative step slice")
            return n - 1, -1, n
        a = SInt.of(0) if s.start is None else clamp(s.start, 0, n)
        b = n if s.stop is None else clamp(s.stop, 0, n)
        if isint(step) and not isinstance(step, SInt) and step == 1:
            m = b - a
            if m.isconst():
                m = SInt.of(max(0, m.const()))
            elif not bool(m >= 0):
                m = SInt.of(0)
            return a, 1, m
        # symbolic or larger step: length only when needed
        return a, step, None

    def _select(self, key):
        """list of per-axis selectors"""
        key = self._norm_index(key)
        sel = []
        ax = 0
        for k in key:
            if k is None:
                sel.append(("new",))
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            n = self.shape[ax]
            if isinstance(k, bool) or isinstance(k, SBool):
                raise Unsupported("boolean scalar index")
            if isint(k):
                sel.append(("int", self._int_index(k, n)))
                ax += 1
            elif isinstance(k, slice):
                a, st, m = self._slice(k, n)
                sel.append(("slice", a, st, m))
                ax += 1
            elif isinstance(k, NDArr) and k.dtype == "bool":
                sel.append(("mask", k))
                ax += k.ndim
            elif isinstance(k, NDArr):
                sel.append(("arr", k))
                ax += 1
            elif isinstance(k, (list, tuple)):
                sel.append(("arr", from_list(k)))
                ax += 1
            elif isinstance(k, SColl):
                sel.append(("arr", from_coll(k)))
                ax += 1
            else:
                raise Unsupported("index of type " + type(k).__name__)
        while ax < self.ndim:
            sel.append(("slice", SInt.of(0), 1, SInt.of(self.shape[ax])))
            ax += 1
        return sel

    def __getitem__(self, key):
        sel = self._select(key)
        if all(s[0] == "int" for s in sel):
            return self.reader()(tuple(s[1] for s in sel))
        if any(s[0] == "mask" for s in sel):
            raise Unsupported("boolean mask read")
        arrs = [s for s in sel if s[0] == "arr"]
        if not arrs:
            spec, shape = [], []
            for s in sel:
                if s[0] == "int":
                    spec.append(("fix", s[1]))
                elif s[0] == "new":
                    shape.append(1)
                else:
                    if s[3] is None:
                        raise Unsupported("reading a strided slice")
                    spec.append(("ax", len(shape), fold(s[1]), s[2]))
                    shape.append(s[3])
            v = self.view(tuple(shape), Affine(spec))
            return v
        # advanced indexing: broadcast the index arrays together
        if any(s[0] == "int" for s in sel) and len(arrs) >= 1:
            sel = [("arr", NDArr((), lambda idx, v=s[1]: v, "int")) if s[0] == "int" else s for s in sel]
            arrs = [s for s in sel if s[0] == "arr"]
        pos = [n for n, s in enumerate(sel) if s[0] == "arr"]
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        bshape = broadcast([s[1].shape for s in arrs])
        rds = [bc_reader(s[1].snapshot(), bshape) for s in arrs]
        shape, plan = [], []
        place = pos[0] if contiguous else 0
        pre = 0
        for n, s in enumerate(sel):
            if n == pos[0] and contiguous:
                shape += list(bshape)
            if s[0] == "slice":
                shape.append(s[3])
            elif s[0] == "new":
                shape.append(1)
        if not contiguous:
            shape = list(bshape) + shape
        nb = len(bshape)
        src = self.reader()
        lens = list(self.shape)

        def read(idx):
            out = []
            if contiguous:
                cnt = 0
                bidx = None
                t = 0
                for n, s in enumerate(sel):
                    if n == pos[0]:
                        bidx = idx[t:t + nb]
                        t += nb
                    if s[0] == "slice" or s[0] == "new":
                        t += 1
            else:
                bidx = idx[:nb]
            t = 0 if contiguous else nb
            k = 0
            ax = 0
            for n, s in enumerate(sel):
                if contiguous and n == pos[0]:
                    t += nb
                if s[0] == "arr":
                    def comp(k=k, ax=ax, bidx=bidx):
                        v = SInt.of(rds[k](bidx))
                        if bool(v < 0):
                            v = v + lens[ax]
                        return v
                    out.append(Lz(comp))
                    k += 1
                    ax += 1
                elif s[0] == "slice":
                    i = idx[t]
                    out.append(Lz(lambda i=i, s=s: SInt.of(F(i)) * s[2] + s[1]))
                    t += 1
                    ax += 1
                else:
                    t += 1
            return src(tuple(out))
        r = NDArr(tuple(shape), read, self.dtype)
        if len(sel) == 1 and len(bshape) == 1:
            k = arrs[0][1]
            try:
                kp = pieces_of(k)
                snap = self.snapshot()
                r._pieces = [p.map(lambda v: snap[v]) for p in kp]
            except Unsupported:
                pass
        return r

    def __setitem__(self, key, value):
        sel = self._select(key)
        steps = list(self.steps)
        vshape = self.shape

        def to_view(idx):
            """buffer index -> (cond, index in this view)"""
            cond = True
            for step, vs, ps in reversed(steps):
                c, idx = step.inv(idx, len(vs), vs)
                cond = band(cond, c)
                if cond is False:
                    return False, None
            return cond, idx
        if len(sel) == 1 and sel[0][0] == "mask":
            mask = sel[0][1]
            mrd = mask.reader()
            if isinstance(value, NDArr) and value.shape:
                raise Unsupported("array assignment through a mask")

            def inv(idx):
                c, v = to_view(idx)
                if c is False:
                    return False, None
                if c is not True and not bool(c):
                    return False, None
                m = mrd(v)
                return (m if isinstance(m, SBool) else bool(m)), v
            val = conv_value(value, self.dtype)
            self.buf.push((inv, lambda v: val))
            return
        if any(s[0] == "arr" for s in sel):
            return self._set_arr(sel, value, to_view)
        # shape of the selected region
        reg = [s for s in sel if s[0] in ("slice", "new")]
        if isinstance(value, (list, tuple)):
            value = from_list(value)
        if isinstance(value, SColl):
            value = from_coll(value)
        if isinstance(value, NDArr) and value.shape:
            rshape = tuple(1 if s[0] == "new" else s[3] for s in reg)
            if any(x is None for x in rshape):
                raise Unsupported("array assignment to strided slice")
            broadcast([value.shape, rshape])
            vr = bc_reader(value.snapshot(), tuple(fold(x) for x in rshape))
        else:
            v0 = conv_value(value.at() if isinstance(value, NDArr) else value, self.dtype)
            vr = lambda idx: v0

        def inv(idx):
            c, v = to_view(idx)
            if c is False:
                return False, None
            cond = c
            out = []
            ax = 0
            for s in sel:
                if s[0] == "new":
                    out.append(0)
                    continue
                i = v[ax]
                ax += 1
                if s[0] == "int":
                    cond = band(cond, SInt.of(F(i)) == s[1])
                    if cond is False:
                        return False, None
                else:
                    _, a, st, m = s
                    t = SInt.of(F(i)) - a
                    if isinstance(st, int) and st == -1:
                        t = -t
                    elif isinstance(st, SInt) or st != 1:
                        cond = band(cond, t >= 0)
                        if cond is False or (cond is not True and not bool(cond)):
                            return False, None
                        cond = True
                        t, r = core.idivmod(t, SInt.of(st))
                        cond = band(cond, r == 0)
                    else:
                        cond = band(cond, t >= 0)
                        if m is not None:
                            cond = band(cond, t < m)
                    out.append(t)
            return cond, tuple(out)
        self.buf.push((inv, vr))

    def _set_arr(self, sel, value, to_view):
        arrs = [s for s in sel if s[0] == "arr"]
        if len(arrs) > 1:
            return self._set_arrs(sel, value, to_view)
        k = arrs[0][1]
        if k.ndim != 1:
            raise Unsupported("assignment with nd index array")
        ps = pieces_of(k)
        narr = [n for n, s in enumerate(sel) if s[0] == "arr"][0]
        isarr = isinstance(value, NDArr) and value.shape
        if isinstance(value, (list, tuple)):
            value, isarr = from_list(value), True
        if isarr:
            if value.ndim != 1 or any(s[0] == "slice" for s in sel):
                raise Unsupported("2-d assignment with index array")
            vsnap = value.snapshot()
            broadcast([value.shape, k.shape])
            one = not isinstance(value.shape[0], SInt) and value.shape[0] == 1
        else:
            val = conv_value(value, self.dtype)
        n = self.shape[narr]

        def inv(idx):
            c, v = to_view(idx)
            if c is False:
                return False, None
            cond = c
            for ax, s in enumerate(sel):
                i = v[ax]
                if s[0] == "int":
                    cond = band(cond, SInt.of(F(i)) == s[1])
                elif s[0] == "slice":
                    _, a, st, m = s
                    if st != 1:
                        raise Unsupported("strided")
                    t = SInt.of(F(i)) - a
                    cond = band(cond, band(t >= 0, t < m))
            if cond is False or (cond is not True and not bool(cond)):
                return False, None
            i = SInt.of(F(v[narr]))
            for p in ps:
                for f, digs in solve_piece(i, p):
                    if bool(SBool(f) if not (z3.is_true(f) or z3.is_false(f)) else z3.is_true(f)):
                        return True, (p, digs)
            return False, None
        if isarr:
            total = len(ps)

            def vr(w):
                p, digs = w
                if one:
                    return vsnap[0]
                if total != 1 or k._pieces is not None and not getattr(k, "_natural", False):
                    # position of the element in the index array
                    pass
                ds = []
                for z in digs:
                    ds.append(core.digit(z))
                off = SInt.of(0)
                for q in ps:
                    if q is p:
                        break
                    off = off + prod(q.rads)
                return vsnap[off + lin(ds, p.rads)]
        else:
            vr = lambda w: val
        self.buf.push((inv, vr))

    def _set_arrs(self, sel, value, to_view):
        """a[ia, ib] = v with one-dimensional index arrays (positions distinct)"""
        if any(x[0] != "arr" or x[1].ndim != 1 for x in sel):
            raise Unsupported("assignment with several index arrays")
        ks = [x[1].snapshot() for x in sel]
        bshape = broadcast([k.shape for k in ks])
        if any(not same_len(k.shape[0], bshape[0]) for k in ks):
            raise Unsupported("broadcast of index arrays")
        isarr = isinstance(value, NDArr) and value.shape
        if isinstance(value, (list, tuple)):
            value, isarr = from_list(value), True
        if isarr:
            if value.ndim == 2 and value.shape[0] == 1:
                rdv = value.reader()
                vs = NDArr((value.shape[1],), lambda idx: rdv((0, idx[0])), value.dtype)
            elif value.ndim == 1:
                vs = value.snapshot()
            else:
                raise Unsupported("2-d assignment with index arrays")
            broadcast([vs.shape, bshape])
            one = not isinstance(vs.shape[0], SInt) and vs.shape[0] == 1 and not same_len(vs.shape[0], bshape[0])
        else:
            val = conv_value(value, self.dtype)
        ps = pieces_of(ks[0])
        if len(ps) != 1 or ps[0].filt is not None:
            raise Unsupported("index array of several pieces")
        p = ps[0]

        def inv(idx):
            c, v = to_view(idx)
            if c is False or (c is not True and not bool(c)):
                return False, None
            i = SInt.of(F(v[0]))
            for f, digs in solve_piece(i, p):
                if not bool(SBool(f) if not (z3.is_true(f) or z3.is_false(f)) else z3.is_true(f)):
                    continue
                ds = []
                for z in digs:
                    ds.append(core.digit(z))
                t = lin(ds, p.rads)
                cond = True
                for k, w in zip(ks[1:], v[1:]):
                    cond = band(cond, SInt.of(k.at(t)) == SInt.of(F(w)))
                return cond, t
            return False, None
        self.buf.push((inv, (lambda t: vs[0] if one else vs[t]) if isarr else (lambda t: val)))

    # -- arithmetic
    def __rpow__(self, b):
        return self._un(lambda v: b ** v, "float")

    def _bin(self, o, op, dtype=None, rev=False):
        if isinstance(o, (list, tuple)):
            o = from_list(o)
        elif isinstance(o, SColl):
            o = from_coll(o)
        if isinstance(o, NDArr):
            shape = broadcast([self.shape, o.shape])
            a, b = bc_reader(self.snapshot(), shape), bc_reader(o.snapshot(), shape)
            dt = dtype or ("int" if self.dtype == o.dtype == "int" else "float")
        elif isinstance(o, (int, float, SInt, R, SBool)) or hasattr(o, "is_sym_expr"):
            shape = self.shape
            a = self.reader()
            b = lambda idx, o=o: o
            dt = dtype or ("int" if self.dtype == "int" and isint(o) else "float")
        else:
            return NotImplemented
        if rev:
            fn = lambda idx: op(b(idx), a(idx))
        else:
            fn = lambda idx: op(a(idx), b(idx))
        r = NDArr(shape, fn, dt)
        if self.is_matrix or (isinstance(o, NDArr) and o.is_matrix):
            r.is_matrix = True
        if self._pieces is not None and not isinstance(o, NDArr):
            ps = self._pieces
            r._pieces = [p.map((lambda v: op(o, v)) if rev else (lambda v: op(v, o))) for p in ps]
        return r

    def __add__(s, o):
        return s._bin(o, lambda a, b: num(a) + num(b))

    def __radd__(s, o):
        return s._bin(o, lambda a, b: num(a) + num(b), rev=True)

    def __sub__(s, o):
        return s._bin(o, lambda a, b: num(a) - num(b))

    def __rsub__(s, o):
        return s._bin(o, lambda a, b: num(a) - num(b), rev=True)

    def __matmul__(s, o):
        if isinstance(o, NDArr) or hasattr(o, "toarray"):
            return matmul(s, o)
        return NotImplemented

    def __mul__(s, o):
        if (s.is_matrix or getattr(o, "is_matrix", False)) and isinstance(o, NDArr):
            return matmul(s, o)
        return s._bin(o, lambda a, b: num(a) * num(b))

    def __rmul__(s, o):
        return s._bin(o, lambda a, b: num(a) * num(b), rev=True)

    def __truediv__(s, o):
        return s._bin(o, lambda a, b: rdiv(a, b), "float")

    def __rtruediv__(s, o):
        return s._bin(o, lambda a, b: rdiv(a, b), "float", rev=True)

    def __mod__(s, o):
        return s._bin(o, lambda a, b: SInt.of(a) % SInt.of(b), "int")

    def __floordiv__(s, o):
        return s._bin(o, lambda a, b: SInt.of(a) // SInt.of(b), "int")

    def __pow__(s, o):
        return s._bin(o, lambda a, b: num(a) ** b)

    def __neg__(s):
        return s._un(lambda a: -num(a))

    def __invert__(s):
        return s._un(bnot)

    def _un(s, f, dtype=None):
        rd = s.reader()
        r = NDArr(s.shape, lambda idx: f(rd(idx)), dtype or s.dtype)
        if s._pieces is not None:
            r._pieces = [p.map(f) for p in s._pieces]
        if s.is_matrix:
            r.is_matrix = True
        return r

    def __abs__(s):
        return s._un(abs)

    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        return s._bin(o, lambda a, b: a == b, "bool")

    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return True
        return s._bin(o, lambda a, b: a != b, "bool")

    def __lt__(s, o):
        return s._bin(o, lambda a, b: a < b, "bool")

    def __le__(s, o):
        return s._bin(o, lambda a, b: a <= b, "bool")

    def __gt__(s, o):
        return s._bin(o, lambda a, b: a > b, "bool")

    def __ge__(s, o):
        return s._bin(o, lambda a, b: a >= b, "bool")

    def __and__(s, o):
        return s._bin(o, band, "bool")

    def __iadd__(s, o):
        s[(slice(None),) * s.ndim] = s + o
        return s

    def __imul__(s, o):
        s[(slice(None),) * s.ndim] = s * o
        return s

    def __isub__(s, o):
        s[(slice(None),) * s.ndim] = s - o
        return s

    def __itruediv__(s, o):
        s[(slice(None),) * s.ndim] = s / o
        return s

    def __contains__(s, x):
        if s.ndim != 1:
            raise Unsupported("in on nd array")
        return bool(member(x, s))

    # -- reductions
    def cumsum(self, axis=None):
        if self.ndim != 1:
            raise Unsupported("cumsum of nd array")
        rd = self.reader()

        def fn(idx):
            return prefix_sum(rd, F(idx[0]) + 1)
        return NDArr(self.shape, fn, self.dtype)

    def sum(self, axis=None, **k):
        if axis is not None and self.ndim > 1:
            return sum_axis(self, axis)
        return array_sum(self)

    def all(self, axis=None):
        if axis is not None:
            raise Unsupported("all(axis)")
        return np_all(self)

    def any(self, axis=None):
        if axis is not None:
            raise Unsupported("any(axis)")
        return bnot(np_all(self._un(bnot)))

    def max(self, axis=None, **k):
        return extremum("max", self, axis)

    def min(self, axis=None, **k):
        return extremum("min", self, axis)

    def ptp(self, axis=None, **k):
        return extremum("max", self, axis) - extremum("min", self, axis)

    def tolist(self):
        n = self.shape[0]
        if isinstance(n, SInt):
            return SColl("list", pieces_of(self), n, lambda i: self[i])
        return [self[i].tolist() if isinstance(self[i], NDArr) else self[i] for i in range(n)]

    def __repr__(self):
        return f"NDArr{self.shape}"

    def __deepcopy__(self, memo):
        return self.snapshot()


def num(v):
    if isinstance(v, (bool, SBool)):
        return int(v)
    return v


def rdiv(a, b):
    a, b = num(a), num(b)
    if isint(a) or isinstance(a, float):
        if isint(b) or isinstance(b, float):
            return R.of(a) / R.of(b)
    return a / b


def conv_value(v, dtype):
    if isinstance(v, NDArr):
        raise Unsupported("array value")
    if getattr(v, "is_sym_expr", False):
        if v.terms:
            raise TypeError("Cannot convert expression to float")
        return v.const
    return v


def quotient(total, rest, shape):
    if rest.isconst():
        c = rest.const()
        if all(k % c == 0 for k in total.p.values()):
            return SInt({m: k // c for m, k in total.p.items()})
    # try products of a subset of axes
    n = len(shape)
    for mask in range(2 ** n):
        if prod([shape[t] for t in range(n) if mask >> t & 1]).key == rest.key:
            return prod([shape[t] for t in range(n) if not mask >> t & 1])
    raise Unsupported("reshape(-1)")


def flat_pieces(a, shape):
    """pieces along axis 0 after reshaping a to `shape` (flat, or rows)"""
    tail = list(shape[1:])
    k = len(tail)
    if a._pieces is not None and a.ndim == len(shape):
        return a._pieces
    if a.ndim <= 1 and k == 0:
        return a._pieces
    if k and not all(same_len(x, y) for x, y in zip(a.shape[-k:], tail)):
        return None
    lead = a.shape[:a.ndim - k]
    if a._pieces is not None:
        return None
    if len(shape) != 1 + k or len(lead) < 2:
        return None
    snap = a.snapshot()
    idx_axes = [n for n in range(len(lead)) if isinstance(lead[n], SInt) or lead[n] != 1]

    def elem(d):
        full = [SInt.of(0)] * len(lead)
        for n, v in zip(idx_axes, d):
            full[n] = v
        if k == 0:
            return snap.reader()(tuple(full))
        if k == 1 and not isinstance(tail[0], SInt):
            return NDArr((tail[0],), lambda idx, full=full: snap.reader()(tuple(full) + (idx[0],)), snap.dtype)
        raise Unsupported("rows")
    return [Piece([lead[n] for n in idx_axes], elem)]


def block_rows(b):
    k = b.shape[-1]
    lead = b.shape[:-1]
    rd = b.reader()
    return Piece(list(lead), lambda d: NDArr((k,), lambda idx: rd(tuple(d) + (idx[0],)), b.dtype))


def bc_reader(a, shape):
    rd = a.reader()
    off = len(shape) - len(a.shape)
    ones = [not isinstance(n, SInt) and n == 1 for n in a.shape]
    big = [isinstance(n, SInt) or n != 1 for n in shape]

    def read(idx):
        out = []
        for t in range(len(a.shape)):
            if ones[t] and big[off + t]:
                out.append(0)
            else:
                out.append(idx[off + t])
        return rd(tuple(out))
    return read


def from_list(xs):
    """np.array of a python list / tuple"""
    xs = list(xs)
    if not xs:
        return NDArr((0,), lambda idx: (_ for _ in ()).throw(IndexError()))
    if any(isinstance(x, SColl) for x in xs):
        xs = [from_coll(x) if isinstance(x, SColl) else x for x in xs]
    if isinstance(xs[0], (list, tuple, NDArr)) and not (isinstance(xs[0], NDArr) and not xs[0].shape):
        rows = [x if isinstance(x, NDArr) else from_list(x) for x in xs]
        shape = rows[0].shape
        for r in rows[1:]:
            if len(r.shape) != len(shape) or not all(known_eq(a, b) for a, b in zip(shape, r.shape)):
                raise ValueError("inhomogeneous shape")
        rds = [r.snapshot().reader() for r in rows]

        def read(idx):
            return pick(idx[0], rds)(idx[1:])
        return NDArr((len(xs),) + tuple(shape), read, rows[0].dtype)
    vals = [x.at() if isinstance(x, NDArr) else x for x in xs]
    if any(isinstance(v, str) for v in vals):
        dt = "str"
    elif all(isinstance(v, (bool, SBool)) for v in vals):
        dt = "bool"
    elif all(isint(v) for v in vals):
        dt = "int"
    else:
        dt = "float"
    r = NDArr((len(xs),), lambda idx: pick(idx[0], vals), dt)
    r._pieces = [Piece([], lambda d, v=v: v) for v in vals]
    return r


def pick(i, vals):
    i = SInt.of(F(i))
    if i.isconst():
        return vals[i.const()]
    for n in range(len(vals) - 1):
        if bool(i == n):
            return vals[n]
    return vals[-1]


def from_coll(c):
    if c.at is None:
        raise Unsupported("array of unordered collection")
    e0 = None
    at = c.at
    # element kind decided on a generic element
    ps = pieces_of(c)
    p = ps[0]

    def probe():
        ds, facts = fresh_digits(p.rads, "e")
        return p.elem(ds)
    ds, facts = fresh_digits(p.rads, "e")
    cs = cur().cases(lambda: p.elem(ds), facts)
    e0 = [v for _, k, v, _, _ in cs if k == "ok"][0]
    if isinstance(e0, (tuple, list, NDArr)):
        e = as_tuple(e0)
        r = NDArr((c.length, len(e)), lambda idx: pick(idx[1], list(as_tuple(at(F(idx[0]))))), "int" if all(isint(x) for x in e) else "float")
    else:
        r = NDArr((c.length,), lambda idx: at(F(idx[0])), "int" if isint(e0) else "bool" if isinstance(e0, (bool, SBool)) else "float")
    r._pieces = c.pieces
    return r


# ------------------------------------------------------------------ sums
def depends(r, name):
    return any(any(name in SInt.of(x).atoms() for x in a.args if isint(x)) or (a.fn == "int:" + name) or
               any(isinstance(x, R) and depends(x, name) for x in a.args) for a in r.atoms())


def PS(fn, pos, m):
    """prefix sum: sum of fn(u) for u < m"""
    m = SInt.of(m)
    if m.isconst() and 0 <= m.const() <= 3:
        t = R.of(0)
        for u in range(m.const()):
            t = t + R.atom(fn, (SInt.of(u),), pos)
        return t
    return R.atom("ps:" + fn, (m,), False, extra=pos)


def prefix_sum(rd, m):
    """sum of rd((s,)) for s < m"""
    name = cur().fresh_name("s")
    s = SInt.var(name)
    m = SInt.of(m)
    cs = cur().cases(lambda: rd((s,)), [z3.And(s.z() >= 0, s.z() < m.z())])
    if len(cs) != 1 or cs[0][1] != "ok":
        raise Unsupported("prefix sum of a piecewise array")
    e = cs[0][2]
    if isint(e):
        e = R.of(e)
    e = R.of(e)
    if depends(R(e.d), name):
        raise Unsupported("prefix sum of a quotient")
    tot = R.of(0)
    for mono, c in e.n.t.items():
        dep = [(a, k) for a, k in mono if depends(R(core.Poly.atom(a)), name)]
        co = R(core.Poly({tuple(t for t in mono if t not in dep): c})) / R(e.d)
        if not dep:
            tot = tot + co * m
            continue
        if len(dep) != 1 or dep[0][1] != 1 or len(dep[0][0].args) != 1:
            raise Unsupported("prefix sum of a product")
        a = dep[0][0]
        arg = SInt.of(a.args[0])
        if arg.p.get((name,), 0) != 1:
            raise Unsupported("prefix sum argument")
        off = arg - s
        tot = tot + co * (PS(a.fn, a.pos, m + off) - PS(a.fn, a.pos, off))
    return tot


class SumTerm:
    """sum over all digits of elem"""
    n = 0

    def __init__(self, rads, elem, filt=None):
        self.rads, self.elem, self.filt = rads, elem, filt


def make_sum(rads, elem, filt=None):
    SumTerm.n += 1
    r = R.atom("sum:%d" % SumTerm.n, (), False, extra=SumTerm(rads, elem, filt))
    a = next(iter(r.atoms()))
    known = cur().__dict__.setdefault("sums", [])
    for b in known[-6:] if all(SInt.of(n).degree() < 2 for n in rads) else []:
        if sums_equal(a, b):
            return R(core.Poly.atom(b))
    known.append(a)
    return r


def array_sum(a):
    if all(not isinstance(n, SInt) for n in a.shape):
        t = 0
        rd = a.reader()
        for idx in itertools.product(*[range(n) for n in a.shape]):
            t = t + num(rd(idx))
        return t
    if a.ndim == 1:
        ps = pieces_of(a)
        t = R.of(0)
        for p in ps:
            if not p.rads:
                t = t + num(p.elem([]))
            else:
                t = t + make_sum(p.rads, p.elem, p.filt)
        return t
    rd = a.reader()
    axes = [n for n in range(a.ndim) if isinstance(a.shape[n], SInt) or a.shape[n] != 1]

    def elem(d):
        full = [SInt.of(0)] * a.ndim
        for n, v in zip(axes, d):
            full[n] = v
        return rd(tuple(full))
    t = R.of(0)
    for p in expand_pieces([Piece([a.shape[n] for n in axes], elem)]):
        t = t + (make_sum(p.rads, p.elem) if p.rads else num(p.elem([])))
    return t


def extremum(kind, a, axis):
    """smallest or largest element: a symbol determined by the contents of the
    array (contracts state that it bounds the elements and is one of them)"""
    if axis is not None and not isinstance(axis, int):
        raise Unsupported("axis")
    if not a.shape:
        return a.at()
    axes = range(a.ndim) if axis is None else [axis % a.ndim]
    rd = a.reader()
    rest = [n for n in range(a.ndim) if n not in axes]
    if all(isinstance(a.shape[n], int) for n in axes):
        def fn(idx):
            f = core.smax if kind == "max" else core.smin
            vs = []
            for t in itertools.product(*[range(a.shape[n]) for n in axes]):
                full = dict(zip(axes, t), **{})
                full.update(zip(rest, idx))
                vs.append(rd(tuple(full[n] for n in range(a.ndim))))
            return f(*vs)
    else:
        gs = [SInt.var(f"ext#{n}") for n in range(a.ndim)]
        facts = [z3.And(g.z() >= 0, g.z() < SInt.of(s).z()) if SInt.of(s).degree() <= 1 else g.z() >= 0 for g, s in zip(gs, a.shape)]
        cs = cur().cases(lambda: rd(tuple(gs)), facts)
        if any(k != "ok" for _, k, *_ in cs):
            raise Unsupported("exception in an array element")
        v = finite_values(kind, gs, facts, cs) if not rest else None
        if v is None and not rest:
            v = sorted_ends(kind, a, rd, gs)
        if v is not None:
            return v
        if len(cs) != 1:
            raise Unsupported("extremum of a piecewise array")
        key = f"{kind}:{axis}:{a.shape}:{R.of(cs[0][2]).repr_key()}"

        def fn(idx):
            return R.atom(key, tuple(SInt.of(F(x)) for x in idx))
    if not rest:
        return fn(())
    return NDArr(tuple(a.shape[n] for n in rest), fn, a.dtype)


def finite_values(kind, gs, facts, cs):
    """the extreme of an array with finitely many different elements, each of them
    shown to be at some position"""
    mine = {x for g in gs for x in g.atoms()}
    vs = []
    for conds, _, v, *_ in cs:
        v = num(v)
        if not isinstance(v, (int, float, R, SInt)) or any(x in R.of(v).repr_key() for x in mine):
            return None
        f = z3.Exists([core.atom_z3(x) for x in mine], z3.And(list(facts) + list(conds))) if mine else z3.And(list(facts) + list(conds))
        if not cur().entails(f):
            return None
        vs.append(v)
    return core.smax(vs) if kind == "max" else core.smin(vs)


def not_negative(d):
    """d >= 0: it follows, or d adds up products of numbers that are not negative"""
    d = core.merge_atoms(R.of(d)).norm()
    if d.n.isconst() and d.d.isconst():
        return d.cval() >= 0

    def each(p):
        return all(c > 0 for c in p.t.values()) and all(a.pos or (a.fn.startswith("ps:") and a.extra is True) or (a.fn.startswith("int:") and cur().entails(core.atom_z3(a.fn[4:]) >= 0)) for a in p.atoms())
    if each(d.n) and each(d.d):
        return True
    c = d >= 0
    return c is True or (c is not False and cur().entails(bz(c)))


def sorted_ends(kind, a, rd, gs):
    """the extreme of an array along one axis each element of which is not below
    (or not above) the one before it: by induction, the extremes are at its ends"""
    ax = [n for n, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
    if len(ax) != 1 or not isinstance(a.shape[ax[0]], SInt):
        return None
    n = a.shape[ax[0]]

    def at_(i):
        return num(rd(tuple(i if t == ax[0] else SInt.of(0) for t in range(a.ndim))))
    i = gs[ax[0]]
    facts = [z3.And(i.z() >= 0, i.z() + 1 < SInt.of(n).z())]
    for up in (True, False):
        cs = cur().cases(lambda: not_negative(R.of(at_(i + 1)) - at_(i) if up else R.of(at_(i)) - at_(i + 1)), facts)
        if all(k == "ok" and c for _, k, c, *_ in cs):
            return at_(SInt.of(n) - 1 if up == (kind == "max") else SInt.of(0))
    return None


def series(n, term):
    """term(1) + ... + term(n)"""
    if not isinstance(n, SInt) and n < 20:
        return sum((term(SInt.of(t + 1)) for t in range(n)), R.of(0))
    return sum_or_zero([n], lambda d: term(SInt.of(d[0]) + 1))


def sum_or_zero(rads, elem):
    """sum over all positions; what does not depend on the position is taken out of it"""
    names = [f"bnd{next(SERIAL)}$" for _ in rads]
    ds = [SInt.var(n) for n in names]
    facts = [z3.And(d.z() >= 0, d.z() < SInt.of(r).z()) for d, r in zip(ds, rads) if SInt.of(r).degree() <= 1]
    cs = cur().cases(lambda: elem(ds), facts)
    if all(k == "ok" and is_zero(v) for _, k, v, *_ in cs):
        return R.of(0)
    if len(cs) == 2 and len(rads) == 1 and all(c[1] == "ok" for c in cs):
        # one amount at even and another at odd places
        n = ds[0] + 1
        even = n.z() % 2 == 0
        fs = list(facts)
        A, B = [z3.And(list(c[0])) for c in cs]
        for ev, od, a, b in ((A, B, 0, 1), (B, A, 1, 0)):
            if cur().entails(z3.Implies(z3.And(fs + [ev]), even)) and cur().entails(z3.Implies(z3.And(fs + [od]), z3.Not(even))):
                e, o = R.of(num(cs[a][2])), R.of(num(cs[b][2]))
                v = (e + o) / 2 + R.atom("altsign", (n,)) * (e - o) / 2
                break
        else:
            return make_sum(rads, elem)
    elif len(cs) != 1 or cs[0][1] != "ok":
        return make_sum(rads, elem)
    else:
        v = R.of(num(cs[0][2]))
    v = v.norm()
    if any(a.fn.startswith("sum:") for a in v.atoms()):
        return make_sum(rads, elem)
    P, Mono = core.Poly, tuple

    def split(m):
        i = Mono((a, e) for a, e in m if any(n in a.sk for n in names))
        return Mono(x for x in m if x not in i), i
    dens = [(*split(m), c) for m, c in v.d.t.items()]
    if len({i for o, i, c in dens}) == 1:
        d_in, d_out = P({dens[0][1]: core.Fraction(1)}), P({o: c for o, i, c in dens})
    elif len({o for o, i, c in dens}) == 1:
        d_in, d_out = P({i: c for o, i, c in dens}), P({dens[0][0]: core.Fraction(1)})
    else:
        d_in, d_out = v.d, P.const(1)
    parts = {}
    for m, c in v.n.t.items():
        o, i = split(m)
        parts.setdefault(o, {})[i] = c
    t = R.of(0)
    for o, ins in sorted(parts.items(), key=repr):
        inner = R(P(ins), d_in).norm()
        if not any(any(n in a.sk for n in names) for a in inner.atoms()):
            s = inner * R.of(prod(rads))
        else:
            # by its leading coefficient: equal sums look equal
            lead = max(inner.n.t.items(), key=lambda kv: repr(kv[0]))[1]
            unit = R(P({m: c / lead for m, c in inner.n.t.items()}), inner.d)
            s = make_sum(rads, lambda d, unit=unit: core.rename_ints(unit, dict(zip(names, d)))) * R.of(lead)
        t = t + R(P({o: core.Fraction(1)})) * s
    return t / R(d_out)


def sum_axis(a, axis):
    if axis < 0:
        axis += a.ndim
    rest = [n for n in range(a.ndim) if n != axis]
    rd = a.reader()

    def fn(idx):
        if not isinstance(a.shape[axis], SInt):
            t = 0
            for u in range(a.shape[axis]):
                full = list(idx)
                full.insert(axis, u)
                t = t + num(rd(tuple(full)))
            return t
        rads = factor_len(a.shape[axis])

        def elem(d):
            full = list(idx)
            full.insert(axis, lin(d, rads))
            return rd(tuple(full))
        if a.ndim == 2:
            t = sparse_sum(elem, rads)
            if t is not None:
                return t
        return sum_or_zero(rads, elem) if getattr(cur(), "opaque_sums", False) else make_sum(rads, elem)
    return NDArr(tuple(a.shape[n] for n in rest), fn, a.dtype)


def is_zero(v):
    if isinstance(v, NDArr) and not v.shape:
        v = v.at()
    if isinstance(v, R):
        v = v.norm()
        return v.isconst() and v.cval() == 0
    if isinstance(v, SInt):
        return v.isconst() and v.const() == 0
    return isinstance(v, (int, float)) and v == 0


def sparse_sum(elem, rads):
    """sum over all positions of a function that is zero except where its
    position equals one of finitely many expressions (found by exploring it)"""
    ctx = cur()
    ds, facts = fresh_digits(rads, "col")
    j = lin(ds, rads)
    mine = {a for d in ds for a in d.atoms()}
    core.EQLOG.append([])
    core.SUPPORT.append([])
    try:
        cs = ctx.cases(lambda: elem(ds), facts)
    finally:
        log = core.EQLOG.pop()
        told = core.SUPPORT.pop()
    if any(k == "exc" for _, k, *_ in cs):
        return None
    if not told and all(is_zero(v) for _, k, v, *_ in cs):
        return 0
    cands = []
    for c in told:
        if not (c.atoms() & mine) and not any(c.key == o.key for o in cands):
            cands.append(c)
    for q in log:
        for c in (q + j, j - q):
            if not (c.atoms() & mine) and not any(c.key == o.key for o in cands):
                cands.append(c)
    if not cands or len(cands) > 24:
        return None

    core.SUPPORT.append(None)

    def rest():
        for c in cands:
            e = j == c
            if e is True or (e is not False and bool(e)):
                return 0
        return elem(ds)
    try:
        cs = ctx.cases(rest, facts)
        if any(k == "exc" or not is_zero(v) for _, k, v, *_ in cs):
            return None
        n = prod(rads)
        total, seen = R.of(0), []
        for c in cands:
            lo, hi = c >= 0, c < n
            if not bool(lo) or not bool(hi):
                continue
            if any(bool(c == o) for o in seen):
                continue
            seen.append(c)
            total = total + num(elem(split(c, rads)))
        return total
    finally:
        core.SUPPORT.pop()


def split(c, rads):
    """digits of position c"""
    out = []
    for r in rads[:0:-1]:
        c, m = core.idivmod(SInt.of(c), SInt.of(r))
        out.append(m)
    return [SInt.of(c)] + out[::-1]


def matmul(a, b):
    if hasattr(a, "m") and not isinstance(a, NDArr):
        a = a.m
    sp = hasattr(b, "m") and not isinstance(b, NDArr)
    if sp:
        b = b.m
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim != 2 or b.ndim not in (1, 2):
        raise Unsupported("matmul of these dimensions")
    if not same_len(a.shape[1], b.shape[0]) and not known_eq(a.shape[1], b.shape[0]):
        raise ValueError("matmul: mismatch in core dimension")
    n = a.shape[1]
    ra, rb = a.reader(), b.reader()

    def entry(r, c):
        if not isinstance(n, SInt):
            t = 0
            for u in range(n):
                t = t + num(ra((r, u))) * num(rb((u,) if c is None else (u, c)))
            return t
        rads = factor_len(n)

        def elem(d):
            u = lin(d, rads)
            x = num(ra((r, u)))
            if is_zero(x):
                return 0
            return x * num(rb((u,) if c is None else (u, c)))
        t = sparse_sum(elem, rads)
        return make_sum(rads, elem) if t is None else t
    if b.ndim == 1:
        r = NDArr((a.shape[0],), lambda idx: entry(F(idx[0]), None))
    else:
        r = NDArr((a.shape[0], b.shape[1]), lambda idx: entry(F(idx[0]), F(idx[1])))
    if (a.is_matrix or b.is_matrix) and r.ndim == 2:
        r.is_matrix = True
    return r


def sums_equal(a, b):
    """are two sum terms equal by having equal elements"""
    A, B = a.extra, b.extra
    if len(A.rads) != len(B.rads) or A.filt or B.filt:
        return False
    for perm in itertools.permutations(range(len(A.rads))):
        if not all(same_len(A.rads[n], B.rads[perm[n]]) for n in range(len(perm))):
            continue
        ds, facts = fresh_digits(A.rads, "q")
        back = [None] * len(perm)
        for n, m in enumerate(perm):
            back[m] = ds[n]

        def body():
            return core.real_eq(num(A.elem(ds)), num(B.elem(back)))
        cs = cur().cases(body, facts)
        if cs and all(k == "ok" and v for _, k, v, _, _ in cs):
            return True
    return False


# ------------------------------------------------------------------ forall
def np_all(a):
    if not isinstance(a, NDArr):
        return a if isinstance(a, (bool, SBool)) else bool(a)
    if not a.shape:
        return a.at()
    ctx = cur()
    if all(not isinstance(n, SInt) for n in a.shape):
        rd = a.reader()
        return ball(rd(idx) for idx in itertools.product(*[range(n) for n in a.shape]))
    flat = a if a.ndim == 1 else a.reshape(prod(a.shape))
    ps = pieces_of(flat)
    gen = []
    for p in ps:
        ds, facts = fresh_digits(p.rads, "u")

        def body(p=p, ds=ds):
            if p.filt is not None and not bool(p.filt(ds)):
                return True
            return p.elem(ds)
        gen.append((p, ds, facts, ctx.cases(body, facts)))
    undecided = []
    for p, ds, facts, cs in gen:
        for conds, kind, v, sub, rules in cs:
            if kind != "ok":
                raise Unsupported("exception in an array element")
            if v is True:
                continue
            f = bz(v)
            if ctx.entails(z3.Implies(z3.And(list(facts) + list(conds)), f)):
                continue
            undecided.append((p, ds, facts, conds, v))
    if not undecided:
        return True
    d = ctx.choose(len(undecided) + 1, "all")
    if d == 0:
        for p, ds, facts, conds, v in undecided:
            vs = [core.atom_z3(next(iter(x.atoms()))) for x in ds]
            if isinstance(v, SBool) and v.eq is not None:
                ctx.rules.append(make_rule(v.eq, ds, facts, conds))
            else:
                if isinstance(v, SBool) and not has_real(v.f):
                    ctx.assume(z3.ForAll(vs, z3.Implies(z3.And(list(facts) + list(conds)), v.f)))
                elif v is False:
                    ctx.assume(z3.ForAll(vs, z3.Not(z3.And(list(facts) + list(conds)))))
        return True
    p, ds, facts, conds, v = undecided[d - 1]
    for f in list(facts) + list(conds):
        ctx.assume(f)
    if v is False:
        pass
    else:
        ctx.assume(z3.Not(bz(v)))
    ctx._sync()
    if str(ctx.solver.check()) == "unsat":
        raise core.PathAbort()
    ctx.witness = lin(ds, p.rads)
    return False


def has_real(f):
    todo = [f]
    while todo:
        t = todo.pop()
        if z3.is_const(t) and t.decl().name().startswith("r:"):
            return True
        todo.extend(t.children())
    return False


def make_rule(eq, ds, facts, conds):
    """forall ds (facts, conds): eq == 0, as a rewriting of one function atom"""
    names = [next(iter(d.atoms())) for d in ds]
    best = None
    for a in eq.n.atoms():
        if not a.args or a.fn.startswith("fun:") or not all(isint(x) for x in a.args):
            continue
        vs = {v for v in names for x in a.args if v in SInt.of(x).atoms()}
        if not vs:
            continue
        occ = [(m, c) for m, c in eq.n.t.items() if any(b is a for b, _ in m)]
        if len(occ) == 1 and dict(occ[0][0])[a] == 1 and all(b.pos for b, _ in occ[0][0] if b is not a):
            if best is None or len(vs) > best[1]:
                best = (a, len(vs), occ[0])
    if best is None:
        best = const_rule(eq, names, facts, conds)
        if best is None:
            return lambda atom: None
    a, nv, (m, c) = best
    rest = core.Poly({k: v for k, v in eq.n.t.items() if k != m})
    co = core.Poly({tuple(t for t in m if t[0] is not a): c})
    rhs = (-(R(rest) / R(co))).norm()
    if not nv:
        return lambda atom: rhs if atom is a else None

    def rule(atom):
        if atom.fn != a.fn or len(atom.args) != len(a.args):
            return None
        sol = {}
        todo = list(zip([SInt.of(x) for x in a.args], [SInt.of(x) for x in atom.args]))
        left = []
        progress = True
        while progress:
            progress = False
            for n, (pat, val) in enumerate(todo):
                pat2 = pat.subs(sol)
                un = [v for v in names if v not in sol and pat2.p.get((v,), 0)]
                if len(un) == 1 and pat2.p[(un[0],)] == 1:
                    rest_ = SInt({k: v for k, v in pat2.p.items() if k != (un[0],)})
                    sol[un[0]] = val - rest_
                    todo.pop(n)
                    progress = True
                    break
        ctx = cur()
        for pat, val in todo:
            d = pat.subs(sol) - val
            if d.isconst():
                if d.const():
                    return None
            elif d.degree() > 1 or not ctx.entails(d.z() == 0):
                return None
        zs = {v: t.z() for v, t in sol.items() if t.degree() <= 1}
        if any(v not in zs for v in names if any(v in SInt.of(x).atoms() for x in a.args)):
            return None
        cond = z3.And([sub_z(f, zs) for f in list(facts) + list(conds)]) if (facts or conds) else z3.BoolVal(True)
        for v in names:
            if v not in zs and free_in(cond, [v]):
                pass
        if not ctx.entails(cond):
            return None

        def f(b):
            if not b.args or not any(v in SInt.of(x).atoms() for x in b.args if isint(x) for v in names):
                return None
            return R.atom(b.fn, tuple(SInt.of(x).subs(sol) for x in b.args), b.pos, b.extra)
        out = core.subst_R(rhs, f)
        if atom in out.atoms():
            return None
        return out
    return rule


def const_rule(eq, names, facts, conds):
    """an equation that does not depend on the quantified digits: it holds when some digits meet the conditions"""
    fs = list(facts) + list(conds)
    if any(has_real(f) for f in fs) or any(v in SInt.of(x).atoms() for a in eq.n.atoms() for x in a.args if isint(x) for v in names):
        return None
    best = None
    for a in eq.n.atoms():
        occ = [(m, c) for m, c in eq.n.t.items() if any(b is a for b, _ in m)]
        if not a.fn.startswith(("fun:", "int:")) and len(occ) == 1 and dict(occ[0][0])[a] == 1 and all(b.pos for b, _ in occ[0][0] if b is not a):
            if best is None or len(a.args) < len(best[0].args):
                best = (a, 0, occ[0])
    if best is None:
        return None
    f = z3.And(fs) if fs else z3.BoolVal(True)
    if names:
        f = z3.Exists([core.atom_z3(n) for n in names], f)
    return best if cur().entails(f) else None


def at(a, *idx):
    return a.at(*idx)
