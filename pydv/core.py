"""Symbolic values, path exploration and obligations.

Integers are polynomials over integer atoms (SInt); a comparison becomes a
linear formula for z3, products of grid dimensions being eliminated by mixed
radix decomposition (digits()).  Reals are rational functions over atoms (R);
an equality of reals is decided by normalising the rational function.  Every
`if`, `and`, `in`, ... of the real code on a symbolic truth value asks z3
whether it is decided by the path condition and forks the path otherwise.
"""
import os
import itertools
import re
import time
from fractions import Fraction
import math
import z3
from . import heap
from .heap import Unsupported

z3.set_param("smt.random_seed", 1)


class PathAbort(BaseException):
    """This path is infeasible or subsumed."""


class Budget(BaseException):
    pass


# ------------------------------------------------------------------ context
_simp = {}


def simp(f):
    i = f.get_id()
    r = _simp.get(i)
    if r is None:
        if len(_simp) > 200000:
            _simp.clear()
        r = _simp[i] = (f, z3.simplify(f))
    return r[1]


FRESH = re.compile(r"(?<=[!:])\d+|\s+")
_int_only = {}


def int_only(f):
    """no real number occurs in the formula"""
    k = f.get_id()
    r = _int_only.get(k)
    if r is None:
        r, todo, seen = True, [f], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_real(t):
                r = False
                break
            todo.extend(t.children())
        r = _int_only[k] = (f, r)
    return r[1]


class Ctx:
    cur = None

    def __init__(self, prefix, memo, log):
        self.frames = [Frame(0, prefix)]
        self.nframes = 0
        self.memo = memo
        self.log = log
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.isolver = z3.Solver()      # the facts about integers only
        self.isolver.set("timeout", 10000)
        self.nassert = 0
        self.fresh = {}
        self.subst = {}      # real atom -> R
        self.rules = []      # forall facts on real atoms
        self.radices = []    # systems: list of list of SInt
        self.assumed_pos = []
        self.known = {}      # formulas decided by the path condition
        self.klog = []

    def keep(self, key, val):
        """remember a fact about the path condition until the frame is left"""
        self.known[key] = val
        self.klog.append(key)
        return val

    def know(self, f, val):
        i = f.get_id()
        if i not in self.known:
            self.known[i] = (f, val)
            self.klog.append(i)

    # -- facts
    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if isinstance(f, SBool):
            f.learn(True)
            f = f.f
        self.pc.append(f)

    def _sync(self):
        while self.nassert < len(self.pc):
            f = self.pc[self.nassert]
            self.solver.add(f)
            if int_only(f):
                self.isolver.add(f)
            self.nassert += 1

    def check(self, f, full=False):
        """is pc and f satisfiable? returns z3 result (memoised)"""
        fr = self.frames[-1]
        fr.qno += 1
        key = self.pathkey() + (fr.qno, f.get_id(), full)
        r = self.memo.get(key)
        r = r and r[0]
        if r is None:
            self._sync()
            t = time.time()
            STATS["queries"] += 1
            # a formula about integers is decided from the facts about integers
            sv = self.isolver if int_only(f) and not full and not z3.is_true(f) else self.solver
            sv.push()
            sv.add(f)
            r = str(sv.check())
            STATS["unknown"] += r == "unknown"
            sv.pop()
            STATS["solver_s"] += time.time() - t
            self.memo[key] = (r, f)
        return r

    def entails(self, f, full=False):
        f = simp(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self.check(z3.BoolVal(True)) == "unsat"
        k = self.known.get(f.get_id())
        if k is not None and k[1]:
            return True
        if self.check(z3.Not(f)) == "unsat":
            self.know(f, True)
            return True
        if full and int_only(f) and self.check(z3.Not(f), True) == "unsat":
            self.know(f, True)
            return True
        return False

    def branch(self, b):
        f = simp(b.f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = self.known.get(f.get_id())
        if k is not None:
            return k[1]
        if self.check(z3.Not(f)) == "unsat":
            self.know(f, True)
            return True
        if self.check(f) == "unsat":
            self.know(f, False)
            return False
        d = self.choose(2, f)
        self.know(f, d == 0)
        if d == 0:
            self.pc.append(f)
            b.learn(True)
            return True
        self.pc.append(z3.Not(f))
        b.learn(False)
        return False

    def fresh_name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return f"{base}!{n}" if n else base

    def pathkey(self):
        return tuple((f.fid, tuple(f.decisions)) for f in self.frames)

    @property
    def pending(self):
        return self.frames[0].pending

    def choose(self, n, why=""):
        fr = self.frames[-1]
        pos = len(fr.decisions)
        if pos < len(fr.prefix):
            d = fr.prefix[pos]
            if not same_question(fr.asked[pos], why):
                raise Unsupported(f"a path is not replayed as it was found: {str(fr.asked[pos])[:150]} / {str(why)[:150]}")
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                fr.pending.append((tuple(fr.decisions) + (alt,), tuple(fr.questions) + (why,)))
        fr.questions.append(why)
        fr.decisions.append(d)
        fr.qno = 0
        return d

    def cases(self, fn, facts=(), limit=400):
        """explore fn locally under extra facts: [(conditions, kind, value)]"""
        out = []
        self.nframes += 1
        fid = self.nframes
        base = self.nframes
        stack = [((), ())]
        n = 0
        while stack:
            n += 1
            if n > limit:
                raise Unsupported("too many local cases")
            if DEADLINE[0] and time.time() > DEADLINE[0]:
                raise Budget("time budget")
            fr = Frame(fid, stack.pop())
            self._sync()
            mark, mass = len(self.pc), self.nassert
            subst, rules = dict(self.subst), list(self.rules)
            self.nframes = base
            self.frames.append(fr)
            self.solver.push()
            self.isolver.push()
            hmark = heap.mark()
            kmark = len(self.klog)
            try:
                for f in facts:
                    self.assume(f)
                m2 = len(self.pc)
                try:
                    v = fn()
                    out.append((self.pc[m2:], "ok", v, dict(self.subst), list(self.rules)))
                except PathAbort:
                    pass
                except Exception as e:
                    out.append((self.pc[m2:], "exc", e, dict(self.subst), list(self.rules)))
            finally:
                heap.rollback(hmark)
                self.solver.pop()
                self.isolver.pop()
                self.frames.pop()
                del self.pc[mark:]
                for i in self.klog[kmark:]:
                    del self.known[i]
                del self.klog[kmark:]
                self.nassert = mass
                self.subst, self.rules = subst, rules
            stack.extend(fr.pending)
        self.nframes = base
        return out


class Frame:
    def __init__(self, fid, prefix):
        self.fid, (self.prefix, self.asked) = fid, prefix
        self.decisions, self.questions, self.pending, self.qno = [], [], [], 0


def same_question(a, b):
    """the question of a decision and of its replay (names of fresh symbols may differ)"""
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a.get_id() == b.get_id() or FRESH.sub("", str(a)) == FRESH.sub("", str(b))


STATS = {"queries": 0, "solver_s": 0.0, "paths": 0, "unknown": 0}
DEADLINE = [None]


class Outcome:
    def __init__(self, kind, value, ctx):
        self.kind, self.value, self.ctx = kind, value, ctx


def explore(fn, maxpaths=4000):
    """Run fn on every feasible path; yields Outcome('ok', value) or ('exc', e)."""
    memo, log = {}, {}
    stack = [((), ())]
    n = 0
    prev = Ctx.cur
    try:
        while stack:
            prefix = stack.pop()
            n += 1
            if n > maxpaths:
                raise Unsupported("more than %d paths" % maxpaths)
            if DEADLINE[0] and time.time() > DEADLINE[0]:
                raise Budget("time budget")
            STATS["paths"] += 1
            ctx = Ctx.cur = Ctx(prefix, memo, log)
            heap.reset()
            try:
                v = fn()
                out = Outcome("ok", v, ctx)
            except PathAbort:
                out = None
            except Exception as e:          # raised by the code under proof
                out = Outcome("exc", e, ctx)
            for p in ctx.pending:
                stack.append(p)
            if out is not None:
                yield out
    finally:
        Ctx.cur = prev


def cur():
    return Ctx.cur


# ------------------------------------------------------------------ integers
ATOMS = {}


def atom_z3(name):
    a = ATOMS.get(name)
    if a is None:
        a = ATOMS[name] = z3.Int(name)
    return a


def linear(t):
    """z3 integer term -> SInt, or None"""
    if z3.is_int_value(t):
        return SInt.of(t.as_long())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name()
        return SInt.var(nm) if nm in ATOMS else None
    k = t.decl().kind()
    xs = [linear(c) for c in t.children()]
    if any(x is None for x in xs):
        return None
    if k == z3.Z3_OP_ADD:
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r
    if k == z3.Z3_OP_SUB:
        r = xs[0]
        for x in xs[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -xs[0]
    if k == z3.Z3_OP_MUL and len(xs) == 2 and (xs[0].isconst() or xs[1].isconst()):
        return xs[0] * xs[1]
    return None


def digit(z):
    z = z3.simplify(z)
    v = linear(z)
    if v is None:
        nm = cur().fresh_name("pos")
        cur().assume(atom_z3(nm) == z)
        v = SInt.var(nm)
    return v


def isint(x):
    return isinstance(x, (int, SInt)) and not isinstance(x, bool)


_zc = {}
_ge = {}


class SInt:
    """integer polynomial; immutable"""
    __slots__ = ("p", "_k")
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p
        self._k = None

    @staticmethod
    def var(name):
        atom_z3(name)
        return SInt({(name,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return SInt({(): x} if x else {})
        raise Unsupported(f"int from {type(x).__name__}")

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.p.items()))
        return self._k

    def isconst(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const(self):
        if not self.isconst():
            raise Unsupported("concrete value of " + repr(self))
        return self.p.get((), 0)

    def cterm(self):
        return self.p.get((), 0)

    def degree(self):
        return max((len(m) for m in self.p), default=0)

    def fold(self):
        return self.const() if self.isconst() else self

    def atoms(self):
        return {a for m in self.p for a in m}

    def z(self):
        if self.degree() > 1:
            raise Unsupported("non-linear integer term " + repr(self))
        t = _zc.get(self.key)
        if t is None:
            t = z3.IntVal(self.cterm())
            for m, c in self.p.items():
                if m:
                    t = t + c * atom_z3(m[0])
            _zc[self.key] = t
        return t

    # arithmetic
    def __add__(s, o):
        if isinstance(o, (float, R)):
            return R.of(s) + o
        if not isint(o):
            return NotImplemented
        o = SInt.of(o)
        p = dict(s.p)
        for m, c in o.p.items():
            v = p.get(m, 0) + c
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        return SInt(p)

    __radd__ = __add__

    def __neg__(s):
        return SInt({m: -c for m, c in s.p.items()})

    def __pos__(s):
        return s

    def __sub__(s, o):
        if isinstance(o, (float, R)):
            return R.of(s) - o
        if not isint(o):
            return NotImplemented
        return s + (-SInt.of(o))

    def __rsub__(s, o):
        if isinstance(o, (float, R)):
            return o - R.of(s)
        if not isint(o):
            return NotImplemented
        return SInt.of(o) + (-s)

    def __mul__(s, o):
        if isinstance(o, (float, R)):
            return R.of(s) * o
        if not isint(o):
            return NotImplemented
        o = SInt.of(o)
        p = {}
        for m1, c1 in s.p.items():
            for m2, c2 in o.p.items():
                m = tuple(sorted(m1 + m2))
                v = p.get(m, 0) + c1 * c2
                if v:
                    p[m] = v
                else:
                    p.pop(m, None)
        return SInt(p)

    __rmul__ = __mul__

    def __rpow__(s, b):
        if s.isconst():
            return b ** s.const()
        if isinstance(b, (int, float)) and b in (-1, 1):
            return R.atom("altsign", (s,)) if b == -1 else 1
        raise Unsupported("symbolic exponent")

    def __pow__(s, n):
        if isinstance(n, int) and n >= 0:
            r = SInt.of(1)
            for _ in range(n):
                r = r * s
            return r
        return R.of(s) ** n

    def __truediv__(s, o):
        return R.of(s) / R.of(o)

    def __rtruediv__(s, o):
        return R.of(o) / R.of(s)

    def __abs__(s):
        return s if bool(s >= 0) else -s

    def __divmod__(s, o):
        return idivmod(s, SInt.of(o))

    def __floordiv__(s, o):
        return idivmod(s, SInt.of(o))[0]

    def __mod__(s, o):
        return idivmod(s, SInt.of(o))[1]

    def __index__(s):
        if s.isconst():
            return s.const()
        raise Unsupported("symbolic integer used where a concrete one is needed: " + repr(s))

    def __int__(s):
        return s.__index__()

    def __float__(s):
        raise Unsupported("float() of symbolic integer")

    # comparisons
    def __eq__(s, o):
        if isinstance(o, (float, R)):
            return R.of(s) == o
        if not isint(o):
            return False if not hasattr(o, "__array_ufunc_sym__") else NotImplemented
        return cmp0(s - o, "eq")

    def __ne__(s, o):
        r = s.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __lt__(s, o):
        return cmp0(s - o, "lt") if isint(o) else R.of(s) < o

    def __le__(s, o):
        return cmp0(s - o, "le") if isint(o) else R.of(s) <= o

    def __gt__(s, o):
        return cmp0(SInt.of(o) - s, "lt") if isint(o) else R.of(s) > o

    def __ge__(s, o):
        return cmp0(SInt.of(o) - s, "le") if isint(o) else R.of(s) >= o

    def __hash__(s):
        return 7919

    def __bool__(s):
        return bool(s != 0)

    def subs(s, m):
        r = SInt.of(0)
        for mono, c in s.p.items():
            t = SInt.of(c)
            for a in mono:
                t = t * (m[a] if a in m else SInt.var(a))
            r = r + t
        return r

    def __repr__(s):
        if not s.p:
            return "0"
        out = []
        for m, c in sorted(s.p.items(), key=lambda t: (-len(t[0]), t[0])):
            out.append(("*".join(((str(c),) if c != 1 or not m else ()) + m)))
        return "+".join(out).replace("+-", "-")

    def __format__(s, spec):
        if s.isconst():
            return format(s.const(), spec)
        if spec:
            raise Unsupported("format spec on symbolic integer")
        return token(s)

    __str__ = lambda s: s.__format__("")

    def __deepcopy__(s, memo):
        return s

    def __copy__(s):
        return s


TOKENS = {}


def token(v):
    for k, (w, t) in TOKENS.items():
        if type(w) is type(v) and w.key == v.key:
            return t
    t = "\u27e6%d\u27e7" % len(TOKENS)
    TOKENS[len(TOKENS)] = (v, t)
    return t


def untoken(s):
    """the value of a string that is exactly one token"""
    if s.startswith("\u27e6") and s.endswith("\u27e7") and s.count("\u27e6") == 1:
        return TOKENS[int(s[1:-1])][0]
    return None


def _synth(p, r):
    """divide polynomial p by r = x + c (x atom, c constant): (quotient, remainder)"""
    xs = [m for m in r.p if m]
    if len(xs) != 1 or len(xs[0]) != 1 or r.p[xs[0]] != 1:
        raise Unsupported("radix is not of the form atom + constant")
    x = xs[0][0]
    c = r.cterm()
    coeff = {}
    for m, v in p.p.items():
        e = m.count(x)
        rest = tuple(a for a in m if a != x)
        coeff.setdefault(e, {})[rest] = v
    top = max(coeff, default=0)
    q = SInt.of(0)
    acc = SInt.of(0)
    X = SInt.var(x)
    for e in range(top, 0, -1):
        acc = SInt(dict(coeff.get(e, {}))) + acc * (-c)
        q = q + acc * (X ** (e - 1))
    rem = SInt(dict(coeff.get(0, {}))) + acc * (-c)
    return q, rem


class DigitError(Exception):
    pass


def digits(p, radices):
    """p = d0 + R0*(d1 + R1*(d2 + ...)), linear digits d (no normalisation)"""
    out = []
    q = p
    for r in radices[:-1]:
        if r.isconst():
            if r.const() != 1:
                raise DigitError()
            out.append(SInt.of(0))
            continue
        # a digit may itself mention the radix atom; take the plain remainder
        q, d = _synth(q, r)
        out.append(d)
    out.append(q)
    if any(d.degree() > 1 for d in out):
        raise DigitError()
    return out


def radix_systems():
    return cur().radices


def bounded(ctx, d, r):
    z = d.z()
    R_ = r.z()
    return ctx.entails(z3.And(z > -2 * R_, z < 2 * R_))


def normal_digits_in(p, sysm, need_norm=True):
    """carry-normalised z3 digit terms of p in the given radix system, or None"""
    ctx = cur()
    k = ("digits", p.key, tuple(r.key for r in sysm))
    if k in ctx.known:
        return list(ctx.known[k])
    out = normal_digits_of(p, sysm)
    if out is not None:
        ctx.keep(k, tuple(out))
    return out


def normal_digits_of(p, sysm):
    ctx = cur()
    try:
        ds = digits(p, sysm)
    except (DigitError, Unsupported):
        return None
    out = []
    carry = 0
    for d, r in zip(ds[:-1], sysm[:-1]):
        e = d.z() + carry
        R_ = r.z()
        if ctx.entails(z3.And(e >= 0, e < R_)):
            out.append(e)
            carry = 0
            continue
        if not ctx.entails(z3.And(e >= -2 * R_, e < 2 * R_)):
            return None
        out.append(z3.If(e < 0, z3.If(e < -R_, e + 2 * R_, e + R_), z3.If(e >= R_, e - R_, e)))
        carry = z3.If(e < 0, z3.If(e < -R_, z3.IntVal(-2), z3.IntVal(-1)), z3.If(e >= R_, z3.IntVal(1), z3.IntVal(0)))
    out.append(ds[-1].z() + carry)
    return out


def normal_digits(p):
    """(system, z3 digit terms) of p in the first fitting radix system"""
    for sysm in radix_systems():
        out = normal_digits_in(p, sysm)
        if out is not None:
            return sysm, out
    raise Unsupported("cannot decompose " + repr(p))


def lower_bound(a):
    ctx = cur()
    k = ("lower", a)
    if k in ctx.known:
        return ctx.known[k]
    for b in (2, 1, 0):
        f = _ge.get((a, b))
        if f is None:
            f = _ge[a, b] = atom_z3(a) >= b
        if ctx.entails(f):
            return b if b < 2 else ctx.keep(k, b)
    return None


def shifted_bounds(p):
    """(lower, upper) bound of p read off after shifting every atom by its lower bound"""
    q = p
    for a in sorted(p.atoms()):
        b = lower_bound(a)
        if b is None:
            return None, None
        if b:
            q = q.subs({a: SInt.var(a) + b})
    cs = [c for m, c in q.p.items() if m]
    c0 = q.cterm()
    return (c0 if all(c >= 0 for c in cs) else None), (c0 if all(c <= 0 for c in cs) else None)


EQLOG = []
SUPPORT = []       # columns outside of which an entry is zero, announced by contracts


def cmp0(p, op):
    """truth value of p op 0"""
    if EQLOG and op == "eq":
        EQLOG[-1].append(p)
    if p.isconst():
        c = p.const()
        return {"eq": c == 0, "lt": c < 0, "le": c <= 0}[op]
    if op == "eq" and p.key[-1][1] < 0:
        p = -p
    if p.degree() <= 1:
        k = (op, p.key)
        f = _lin.get(k)
        if f is None:
            z = p.z()
            f = _lin[k] = z == 0 if op == "eq" else z < 0 if op == "lt" else z <= 0
        return SBool(f)
    c = cur()
    k = ("cmp", op, p.key)
    r = c.known.get(k)
    if r is None:
        r = c.keep(k, cmpn(p, op))
    return r if isinstance(r, bool) else SBool(r)


_lin = {}


def cmpn(p, op):
    lo, hi = shifted_bounds(p)
    if lo is not None and lo > 0:
        return False
    if hi is not None and hi < 0:
        return op != "eq"
    if op == "lt" and lo == 0:
        return False
    if op == "le" and hi == 0:
        return True
    _, ds = normal_digits(p)
    top = ds[-1]
    zero = z3.And([d == 0 for d in ds])
    if op == "eq":
        return zero
    if op == "lt":
        return top < 0
    return z3.Or(top < 0, zero)


def idivmod(p, s):
    """floor division of polynomial p by polynomial s > 0; forks on carries"""
    ctx = cur()
    if p.isconst() and s.isconst():
        a, b = divmod(p.const(), s.const())
        return SInt.of(a), SInt.of(b)
    if s.isconst() and s.const() == 1:
        return p, SInt.of(0)
    for sysm in radix_systems():
        prod = SInt.of(1)
        cut = None
        for m, r in enumerate(sysm):
            prod = prod * r
            if prod.key == s.key:
                cut = m + 1
                break
        if cut is None:
            continue
        nd = len(sysm)
        try:
            ds = digits(p, sysm if cut < nd else sysm + [SInt.of(1)])
        except (DigitError, Unsupported):
            continue
        norm = []
        carry = 0
        ok = True
        for t in range(cut):
            r = sysm[t]
            e = ds[t] + carry
            if r.isconst():
                norm.append(SInt.of(0))
                carry = e
                continue
            c = carry_of(e, r)
            if c is None:
                ok = False
                break
            norm.append(e - r * c)
            carry = c
        if not ok:
            continue
        rest = list(ds[cut:])
        rest[0] = rest[0] + carry
        q = SInt.of(0)
        rr = list(sysm[cut:]) + [SInt.of(1)]
        for d, r in zip(reversed(rest), reversed(rr[:len(rest)])):
            q = q * r + d
        rem = SInt.of(0)
        for t in range(cut - 1, -1, -1):
            rem = rem * sysm[t] + norm[t]
        return q, rem
    # linear fallback: is the quotient 0 or -1 or 1 on this path?
    if p.degree() <= 1 and s.degree() <= 1:
        c = carry_of(p, s)
        if c is not None:
            return SInt.of(c), p - s * c
    if s.isconst() and p.degree() <= 1:
        k = s.const()
        name = ctx.fresh_name("quot")
        q = SInt.var(name)
        ctx.assume(z3.And(p.z() - k * q.z() >= 0, p.z() - k * q.z() < k))
        return q, p - q * k
    if s.isconst() and s.const() > 1 and p.degree() > 1:
        k = s.const()
        u, v = SInt.of(0), SInt.of(0)
        for m, c in p.p.items():
            t = SInt.of(1)
            for a in m:
                t = t * SInt.var(a)
            u, v = u + t * (c // k), v + t * (c % k)
        if v.degree() <= 1:
            q, r = idivmod(v, s)
            return u + q, r
    g = 0
    for c in s.p.values():
        g = math.gcd(g, c)
    if g > 1 and not s.isconst():
        # floor(p / gD) = floor(floor(p / g) / D)
        u, v = SInt.of(0), SInt.of(0)
        for m, c in p.p.items():
            t = SInt.of(1)
            for a in m:
                t = t * SInt.var(a)
            u, v = u + t * (c // g), v + t * (c % g)
        D = SInt.of(0)
        for m, c in s.p.items():
            t = SInt.of(c // g)
            for a in m:
                t = t * SInt.var(a)
            D = D + t
        q1, r1 = idivmod(v, SInt.of(g))
        q, m = idivmod(u + q1, D)
        return q, m * g + r1
    raise Unsupported(f"division of {p!r} by {s!r}")


def carry_of(e, r):
    """the c in {0,-1,1,-2} with c*r <= e < (c+1)*r on this path (forks)"""
    if e.isconst() and r.isconst():
        return e.const() // r.const()
    if e.degree() > 1:
        return None
    ctx = cur()
    z, R_ = e.z(), r.z()
    if not ctx.entails(z3.And(z >= -2 * R_, z < 2 * R_)):
        return None
    if bool(SBool(z >= 0)):
        return 0 if bool(SBool(z < R_)) else 1
    return -1 if bool(SBool(z >= -R_)) else -2


def smax(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    if not any(isinstance(x, (SInt, R)) for x in xs):
        return max(xs)
    if any(isinstance(x, R) for x in xs):
        m = xs[0]
        for x in xs[1:]:
            if bool(x > m):
                m = x
        return m
    xs = [SInt.of(x) for x in xs]
    v = SInt.var(cur().fresh_name("max"))
    cur().assume(z3.And([v.z() >= x.z() for x in xs] + [z3.Or([v.z() == x.z() for x in xs])]))
    return v


def smin(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    if not any(isinstance(x, (SInt, R)) for x in xs):
        return min(xs)
    m = xs[0]
    for x in xs[1:]:
        if bool(x < m):
            m = x
    return m


# ------------------------------------------------------------------ booleans
class SBool:
    __slots__ = ("f", "l", "eq")

    def __init__(self, f, learn=None, eq=None):
        self.f = f
        self.l = learn
        self.eq = eq      # polynomial whose vanishing this states

    def learn(self, val):
        if self.l is not None:
            self.l(val)

    def __bool__(self):
        return cur().branch(self)

    def __and__(s, o):
        return band(s, o)

    __rand__ = __and__

    def __or__(s, o):
        return bor(s, o)

    __ror__ = __or__

    def __invert__(s):
        return bnot(s)

    def __eq__(s, o):
        if isinstance(o, (bool, SBool)):
            return SBool(s.f == bz(o))
        return NotImplemented

    def __ne__(s, o):
        if isinstance(o, (bool, SBool)):
            return SBool(s.f != bz(o))
        return NotImplemented

    def __hash__(s):
        return 7907

    def __int__(s):
        return 1 if bool(s) else 0

    def __mul__(s, o):
        return int(s) * o

    __rmul__ = __mul__

    def __repr__(s):
        return f"SBool({s.f})"

    def __deepcopy__(s, memo):
        return s


def bz(b):
    return b.f if isinstance(b, SBool) else z3.BoolVal(bool(b))


def bnot(b):
    if isinstance(b, SBool):
        l = b.l
        return SBool(z3.Not(b.f), (lambda v: l(not v)) if l else None)
    return not b


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a

    def learn(v):
        if v:
            a.learn(True)
            b.learn(True)
    return SBool(z3.And(bz(a), bz(b)), learn)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a

    def learn(v):
        if not v:
            a.learn(False)
            b.learn(False)
    return SBool(z3.Or(bz(a), bz(b)), learn)


def ball(bs):
    r = True
    for b in bs:
        r = band(r, b)
    return r


def bany(bs):
    r = False
    for b in bs:
        r = bor(r, b)
    return r


# ------------------------------------------------------------------ reals
ROOTS = [False]


def unroot(d):
    """monomial with fourth roots: root4(P)**4 = P"""
    out = Poly.const(1)
    keep = {}
    for a, e in d.items():
        if a.fn == "fun:root4" and e >= 4:
            base = a.args[0].n
            for _ in range(e // 4):
                out = out.mul(base)
            e %= 4
        if e:
            keep[a] = e
    return out.mul(Poly({tuple(sorted(keep.items(), key=_akey)): Fraction(1)}))


def primes(n):
    f, d = {}, 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def root_poly(P, p):
    """P**(p/4) for a positive polynomial (canonical), p > 0"""
    import math
    num = den = 0
    common = None
    for m, c in P.t.items():
        num, den = math.gcd(num, c.numerator), (den * c.denominator // math.gcd(den, c.denominator) if den else c.denominator)
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    c0 = Fraction(num, den)
    Q = {}
    for m, c in P.t.items():
        d = {a: e - common.get(a, 0) for a, e in m}
        Q[tuple(sorted(((a, e) for a, e in d.items() if e), key=_akey))] = c / c0
    out = R(Poly.const(1))

    def put(atom_poly, k):
        nonlocal out
        q, r = divmod(k, 4)
        b = R(atom_poly)
        if q:
            out = out * b ** q
        if r:
            ROOTS[0] = True
            out = out * R(Poly.atom(Atom("fun:root4", (b.norm(),), True))) ** r
    for n, sg in ((c0.numerator, 1), (c0.denominator, -1)):
        for pr, e in sorted(primes(n).items()):
            if sg > 0:
                put(Poly.const(pr), e * p)
            else:
                q, r = divmod(-e * p, 4)
                out = out * R(Poly.const(Fraction(1, pr ** -q) if q < 0 else pr ** q))
                if r:
                    put(Poly.const(pr), r)
    for a, e in sorted(common.items(), key=_akey):
        put(Poly.atom(a), e * p)
    if not (len(Q) == 1 and () in Q):
        put(Poly(Q), p)
    return out


def rpow4(x, p):
    """x**(p/4) of a value whose sign is clearly positive, else None"""
    x = R.of(x).norm()
    sn, sd = sign_of_poly(x.n), sign_of_poly(x.d)
    if not sn or sn != sd:
        return None
    n, d = (x.n, x.d) if sn > 0 else (Poly({m: -c for m, c in x.n.t.items()}), Poly({m: -c for m, c in x.d.t.items()}))
    return (root_poly(n, p) / root_poly(d, p)).norm()


class Poly:
    """polynomial over real atoms with rational coefficients"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def add(s, o, sign=1):
        t = dict(s.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + sign * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def mul(s, o):
        if len(s.t) * len(o.t) > 60000:
            raise Unsupported("polynomial too large")
        t = {}
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                if ROOTS[0] and any(e >= 4 and a.fn == "fun:root4" for a, e in d.items()):
                    for m3, c3 in unroot(d).t.items():
                        v = t.get(m3, 0) + c1 * c2 * c3
                        if v:
                            t[m3] = v
                        else:
                            t.pop(m3, None)
                    continue
                m = tuple(sorted(d.items(), key=_akey))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def isconst(s):
        return not s.t or (len(s.t) == 1 and () in s.t)

    def cval(s):
        if not s.isconst():
            raise Unsupported("value of a symbolic real")
        return s.t.get((), Fraction(0))

    def atoms(s):
        return {a for m in s.t for a, _ in m}

    def key(s):
        return tuple(sorted(s.t.items(), key=repr))


def _akey(t):
    return (t[0].sk, t[1])


class Atom:
    """an opaque real: constant symbol, function of integer arguments, function
    of a real, prefix sum, ..."""
    __slots__ = ("fn", "args", "sk", "pos", "extra")
    pool = {}

    def __new__(cls, fn, args=(), pos=False, extra=None):
        sk = fn + "(" + ",".join(_argkey(a) for a in args) + ")"
        a = Atom.pool.get(sk)
        if a is None:
            a = object.__new__(cls)
            a.fn, a.args, a.sk, a.pos, a.extra = fn, tuple(args), sk, pos, extra
            Atom.pool[sk] = a
        return a

    def __init__(self, *a, **k):
        pass

    def __hash__(self):
        return hash(self.sk)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.sk

    def __deepcopy__(self, memo):
        return self

    def z(self):
        return z3.Real("r:" + self.sk)


def _argkey(a):
    if isinstance(a, (int, SInt)):
        return repr(SInt.of(a))
    if isinstance(a, R):
        return "{" + a.repr_key() + "}"
    return str(a)


def frac(x):
    if isinstance(x, int):
        return Fraction(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("nan or inf")
    return Fraction(repr(float(x)))


class R:
    """rational function num/den over atoms"""
    __slots__ = ("n", "d")
    __array_priority__ = 1000

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else Poly.const(1)

    @staticmethod
    def atom(fn, args=(), pos=False, extra=None):
        return R(Poly.atom(Atom(fn, args, pos, extra)))

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, SInt):
            p = Poly({})
            for m, c in x.p.items():
                t = Poly.const(c)
                for a in m:
                    t = t.mul(Poly.atom(Atom("int:" + a)))
                p = p.add(t)
            return R(p)
        if isinstance(x, SBool):
            return R.of(int(x))
        if isinstance(x, bool):
            return R.of(int(x))
        if isinstance(x, (int, float, Fraction)):
            return R(Poly.const(x if isinstance(x, Fraction) else frac(x)))
        raise Unsupported(f"real from {type(x).__name__}")

    def isconst(s):
        return s.n.isconst() and s.d.isconst()

    def cval(s):
        return s.n.cval() / s.d.cval()

    def repr_key(s):
        a = s.norm()
        return repr(a.n.key()) + "/" + repr(a.d.key())

    def norm(s):
        """divide out the common monomial and the leading coefficient of den"""
        if not s.n.t:
            return R(Poly({}), Poly.const(1))
        common = None
        for m in list(s.n.t) + list(s.d.t):
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                break
        n, dd = s.n, s.d
        if common:
            def red(p):
                t = {}
                for m, c in p.t.items():
                    d = {a: e - common.get(a, 0) for a, e in m}
                    t[tuple(sorted(((a, e) for a, e in d.items() if e), key=_akey))] = c
                return Poly(t)
            n, dd = red(n), red(dd)
        lead = max(dd.t.items(), key=lambda kv: repr(kv[0]))[1]
        if lead != 1:
            n = Poly({m: c / lead for m, c in n.t.items()})
            dd = Poly({m: c / lead for m, c in dd.t.items()})
        return R(n, dd)

    @staticmethod
    def lift(o):
        if isinstance(o, (R, SInt, int, float, Fraction, SBool)):
            return R.of(o)
        return None

    def __add__(s, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        if s.d.t == o.d.t:
            return R(s.n.add(o.n), s.d)
        return R(s.n.mul(o.d).add(o.n.mul(s.d)), s.d.mul(o.d)).norm()

    __radd__ = __add__

    def __neg__(s):
        return R(Poly({m: -c for m, c in s.n.t.items()}), s.d)

    def __pos__(s):
        return s

    def __sub__(s, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        return s + (-o)

    def __rsub__(s, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        return o + (-s)

    def __mul__(s, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        return R(s.n.mul(o.n), s.d.mul(o.d)).norm()

    __rmul__ = __mul__

    def __truediv__(s, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        if o.isconst() and o.cval() == 0:
            raise ZeroDivisionError("division by zero")
        return R(s.n.mul(o.d), s.d.mul(o.n)).norm()

    def __rtruediv__(s, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        return o / s

    def __pow__(s, n):
        if isinstance(n, SInt) and n.isconst():
            n = n.const()
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return R.of(1) / (s ** (-n))
            r = R.of(1)
            for _ in range(n):
                r = r * s
            return r
        if isinstance(n, (float, Fraction)) and n * 4 == int(n * 4):
            r = rpow4(s, abs(int(n * 4)))
            if r is not None:
                return r if n > 0 else R.of(1) / r
        if isinstance(n, (float, Fraction)) and n == 0.5:
            return rfun("sqrt", s)
        if isinstance(n, (float, Fraction)):
            return rfun("pow%s" % Fraction(repr(n) if isinstance(n, float) else n), s)
        raise Unsupported("power")

    def __abs__(s):
        return s if bool(s >= 0) else -s

    def z(s):
        zs = []
        for p in (s.n, s.d):
            t = z3.RealVal(0)
            for m, c in p.t.items():
                u = z3.RealVal(str(c))
                for a, e in m:
                    for _ in range(e):
                        u = u * atom_real_z(a)
                t = t + u
            zs.append(t)
        return zs

    def cmp(s, o, op):
        d = resolve(s - R.of(o))
        if d.isconst():
            c = d.cval()
            return {"eq": c == 0, "lt": c < 0, "le": c <= 0}[op]
        dd = sign_of_poly(d.d)
        dn = strict_sign(d.n) if dd else 0
        if dn:
            sg = dn * dd
            return {"eq": False, "lt": sg < 0, "le": sg < 0}[op]
        if op != "eq" and getattr(cur(), "opaque_sums", False) and any(a.fn.startswith("sum:") for a in d.atoms()):
            return opaque_cmp(d, op)
        n, den = d.z()
        if op == "eq":
            f = n == 0
            dn = d.n

            def learn(v):
                if v:
                    learn_zero(dn)
            return SBool(f, learn, d)
        if dd == 0:
            n = n * den
        elif dd < 0:
            n = -n
        return SBool({"lt": n < 0, "le": n <= 0}[op])

    def __eq__(s, o):
        o2 = R.lift(o)
        if o2 is None:
            return False if not hasattr(o, "__array_ufunc_sym__") else NotImplemented
        return s.cmp(o2, "eq")

    def __ne__(s, o):
        r = s.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __lt__(s, o):
        return s.cmp(o, "lt") if R.lift(o) is not None else NotImplemented

    def __le__(s, o):
        return s.cmp(o, "le") if R.lift(o) is not None else NotImplemented

    def __gt__(s, o):
        return R.of(o).cmp(s, "lt") if R.lift(o) is not None else NotImplemented

    def __ge__(s, o):
        return R.of(o).cmp(s, "le") if R.lift(o) is not None else NotImplemented

    def __bool__(s):
        return bool(s != 0)

    def __hash__(s):
        return 7901

    def __float__(s):
        if s.isconst():
            return float(s.cval())
        raise Unsupported("float() of a symbolic real by native code")

    def __repr__(s):
        def pp(p):
            if not p.t:
                return "0"
            out = []
            for m, c in p.t.items():
                f = [str(c)] if c != 1 or not m else []
                f += [a.sk + (f"^{e}" if e > 1 else "") for a, e in m]
                out.append("*".join(f))
            return " + ".join(out[:12]) + (" + ..." if len(out) > 12 else "")
        a = s.norm()
        if a.d.isconst() and a.d.cval() == 1:
            return pp(a.n)
        return f"({pp(a.n)}) / ({pp(a.d)})"

    def __format__(s, spec):
        if spec:
            return "<real>"
        return token(s)

    @property
    def key(s):
        return s.repr_key()

    def __str__(s):
        return s.__format__("")

    def atoms(s):
        return s.n.atoms() | s.d.atoms()

    def __deepcopy__(s, memo):
        return s

    def __copy__(s):
        return s

    def __round__(s, n=None):
        raise Unsupported("round of a symbolic real")

    def conjugate(s):
        return s

    def sqrt(s):
        return rfun("sqrt", s)


_real_z = {}


def atom_real_z(a):
    z = _real_z.get(a.sk)
    if z is None:
        if a.fn.startswith("int:"):
            z = z3.ToReal(atom_z3(a.fn[4:]))
        else:
            z = z3.Real("r:" + a.sk)
        _real_z[a.sk] = z
    return z


def integer_multiple(x, y):
    """x is y times a (symbolic) integer"""
    q = (x / y).norm()
    k = exact_div(q.n, q.d)
    return k is not None and all(c.denominator == 1 for c in k.t.values()) and all(a.fn.startswith("int:") for a in k.atoms())


def opaque_cmp(d, op):
    """d op 0 where d contains sums: d is a variable of its own to the solver, the same
    for numbers that differ by a constant on this path (an abstraction: what follows
    holds whatever the sums are)"""
    reps = cur().__dict__.setdefault("sumreps", [])
    for k, r in enumerate(reps):
        for sign in (1, -1):
            c = d - r if sign == 1 else d + r
            if not c.isconst():
                c = resolve(merge_atoms(c)).norm()
                q = c.n if c.d.isconst() else exact_div(c.n, c.d)
                c = R(q) if q is not None and q.isconst() and not c.d.isconst() else c
            if c.isconst():
                z = z3.Real(f"rep#{k}") * sign + z3.RealVal(str(c.cval()))
                return SBool(z < 0 if op == "lt" else z <= 0)
    reps.append(d)
    z = z3.Real(f"rep#{len(reps) - 1}")
    return SBool(z < 0 if op == "lt" else z <= 0)


def exact_div(n, d):
    """the polynomial n / d, or None if d does not divide n"""
    order = sorted(n.atoms() | d.atoms(), key=lambda a: a.sk)
    pos = {a: t for t, a in enumerate(order)}

    def key(m):
        e = [0] * len(order)
        for a, x in m:
            e[pos[a]] = x
        return e

    def lead(p):
        return max(p.t.items(), key=lambda mc: key(mc[0]))
    if not d.t:
        return None
    md, cd = lead(d)
    q, steps = Poly({}), 0
    while n.t:
        mn, cn = lead(n)
        e = dict(mn)
        for a, x in md:
            e[a] = e.get(a, 0) - x
        if any(x < 0 for x in e.values()) or steps > 200:
            return None
        t = Poly({tuple(sorted(((a, x) for a, x in e.items() if x), key=_akey)): cn / cd})
        q, n, steps = q.add(t), n.add(t.mul(d), -1), steps + 1
    return q


def rfun(name, x):
    x = R.of(x)
    if name in ("sqrt", "root4"):
        r = rpow4(x, 2 if name == "sqrt" else 1)
        if r is not None:
            return r
    if name in ("sin", "exp") and not x.n.t:
        return R.of(0 if name == "sin" else 1)
    if name == "sin" and "pi" in {a.fn for a in x.atoms()}:
        if integer_multiple(x, R.atom("pi", (), True)):
            return R.of(0)          # sin(k pi)
    return R.atom("fun:" + name, (x.norm(),), pos=name in ("exp", "sqrt"))


def sign_of_poly(p):
    """+1/-1 when the sign is clear from positive atoms, 0 otherwise"""
    if not p.t:
        return 0
    s = set()
    for m, c in p.t.items():
        if not all(a.pos or e % 2 == 0 for a, e in m):
            return 0
        s.add(1 if c > 0 else -1)
    return s.pop() if len(s) == 1 else 0


def strict_sign(p):
    """+1/-1 when the value cannot be zero either"""
    s = sign_of_poly(p)
    if s and any(all(a.pos for a, e in m) for m in p.t):
        return s
    return 0


def learn_zero(p):
    """the path assumes polynomial p == 0: use it as a substitution if possible"""
    ctx = cur()
    for a in sorted(p.atoms(), key=lambda a: (a.pos, len(a.sk), a.sk)):
        occ = [(m, c) for m, c in p.t.items() if any(b is a for b, _ in m)]
        if len(occ) != 1:
            continue
        m, c = occ[0]
        e = dict(m)[a]
        others = [x for x in m if x[0] is not a]
        if e == 1 and all(b.pos for b, _ in others):
            rest = Poly({k: v for k, v in p.t.items() if k is not m and k != m})
            co = Poly({tuple(others): c})
            ctx.subst[a] = (-(R(rest) / R(co))).norm()
            return


def subst_R(r, f):
    """replace atoms by f(atom) (None: keep)"""
    m = {}
    for a in r.atoms():
        v = f(a)
        if v is not None:
            m[a] = v
    if not m:
        return r

    def ev(p):
        t = R.of(0)
        for mono, c in p.t.items():
            u = R(Poly.const(c))
            for a, e in mono:
                b = m.get(a)
                u = u * ((b if b is not None else R(Poly.atom(a))) ** e)
            t = t + u
        return t
    return ev(r.n) / ev(r.d)


def rename_ints(r, m):
    """replace integer variables, in the arguments of functions too"""
    def f(a):
        if a.fn.startswith("int:"):
            return R.of(SInt.of(m[a.fn[4:]])) if a.fn[4:] in m else None
        if a.fn.startswith("sum:"):
            raise Unsupported("renaming in a sum")
        if not any(n in a.sk for n in m):
            return None
        args = tuple(rename_ints(x, m) if isinstance(x, R) else SInt.of(x).subs(m) for x in a.args)
        if a.fn.startswith("fun:"):
            return rfun(a.fn[4:], args[0])
        if a.fn.startswith("ps:"):
            from . import ndarr
            return ndarr.PS(a.fn[3:], a.extra, args[0])
        return R.atom(a.fn, args, a.pos, a.extra)
    return subst_R(r, f)


def resolve(r):
    """apply the path's equalities between real atoms"""
    ctx = cur()
    for _ in range(8):
        def f(a):
            if a in ctx.subst:
                return ctx.subst[a]
            for rule in ctx.rules:
                v = rule(a)
                if v is not None:
                    return v
            if a.fn.startswith("int:"):
                return None
            if a.fn.startswith("fun:"):
                x = resolve(a.args[0])
                if x.repr_key() != a.args[0].repr_key():
                    return rfun(a.fn[4:], x)
            return None
        s = subst_R(r, f)
        if s.repr_key() == r.repr_key():
            return s.norm()
        r = s
    return r.norm()


def int_arg_eq(a, b):
    """are the integer arguments equal on this path?"""
    d = SInt.of(a) - SInt.of(b)
    if d.isconst():
        return d.const() == 0
    if d.degree() > 1:
        return False
    return cur().entails(d.z() == 0)


def merge_sums(r):
    """identify equal sums; express prefix sums of one function by the shortest one"""
    from . import ndarr
    rep = {}
    sums = sorted((a for a in r.atoms() if a.fn.startswith("sum:")), key=lambda a: a.sk)
    for n, a in enumerate(sums):
        for b in sums[:n]:
            if b not in rep and ndarr.sums_equal(a, b):
                rep[a] = R(Poly.atom(b))
                break
    groups = {}
    for a in sorted((a for a in r.atoms() if a.fn.startswith("ps:")), key=lambda a: a.sk):
        m = SInt.of(a.args[0])
        if m.degree() <= 1 and cur().entails(m.z() <= 0):
            rep[a] = R.of(0)
            continue
        if m.degree() <= 1 and cur().entails(m.z() == 1):
            rep[a] = R.atom(a.fn[3:], (SInt.of(0),), a.extra)
            continue
        for base, bm in groups.setdefault(a.fn, []):
            d = m - bm
            v = None
            if d.isconst():
                v = d.const()
            elif d.degree() <= 1:
                for t in range(-3, 4):
                    if cur().entails(d.z() == t):
                        v = t
                        break
            if v is not None and abs(v) <= 8:
                t = R(Poly.atom(base))
                fn = a.fn[3:]
                for u in range(v):
                    t = t + R.atom(fn, (bm + u,), a.extra)
                for u in range(-v):
                    t = t - R.atom(fn, (bm - 1 - u,), a.extra)
                rep[a] = t
                break
        else:
            groups[a.fn].append((a, m))
    return subst_R(r, lambda a: rep.get(a)) if rep else r


def merge_atoms(r):
    """identify function atoms whose arguments are equal on this path"""
    if any(a.fn.startswith(("sum:", "ps:")) for a in r.atoms()):
        r = merge_sums(r)
    ats = sorted((a for a in r.atoms() if a.args and (a.fn.startswith("fun:") or all(isint(x) for x in a.args))), key=lambda a: a.sk)
    rep = {}
    for n, a in enumerate(ats):
        for b in ats[:n]:
            if b in rep or a.fn != b.fn or len(a.args) != len(b.args):
                continue
            if a.fn.startswith("fun:"):
                same = real_eq(a.args[0], b.args[0])
            else:
                same = all(int_arg_eq(x, y) for x, y in zip(a.args, b.args))
            if same:
                rep[a] = R(Poly.atom(b))
                break
    return subst_R(r, lambda a: rep.get(a)) if rep else r


def real_eq(a, b):
    """decide a == b on the current path: True, or False (= not shown)"""
    d = resolve(R.of(a) - R.of(b))
    if not d.n.t:
        return True
    d = merge_atoms(d)
    d = resolve(d)
    if not d.n.t:
        return True
    # integer atoms fixed by the path
    sub = {}
    for x in d.atoms():
        if x.fn.startswith("int:"):
            v = int_value(x.fn[4:])
            if v is not None:
                sub[x] = R.of(v)
    if sub:
        d = subst_R(d, lambda x: sub.get(x))
        if not d.n.t:
            return True
    n, den = d.z()
    s = z3.Solver()
    s.set("timeout", 3000)
    for f in cur().pc:
        s.add(f)
    for x in d.atoms():
        if x.pos:
            s.add(atom_real_z(x) > 0)
    s.add(n != 0)
    t = time.time()
    r = s.check()
    STATS["unknown"] += r == z3.unknown
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t
    return r == z3.unsat


def int_value(name):
    ctx = cur()
    ctx._sync()
    s = ctx.isolver
    if s.check() != z3.sat:
        return None
    v = s.model().eval(atom_z3(name), model_completion=True)
    if ctx.entails(atom_z3(name) == v):
        return v.as_long()
    return None


def same(a, b):
    """structural/semantic equality used by obligations: bool (shown or not)"""
    from . import ndarr
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a == b and type(a) is type(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return cur().entails(bz(a) == bz(b))
    if isint(a) and isint(b):
        e = SInt.of(a) == SInt.of(b)
        return e if isinstance(e, bool) else cur().entails(e.f)
    if isinstance(a, (int, float, Fraction, R, SInt)) and isinstance(b, (int, float, Fraction, R, SInt)):
        return real_eq(a, b)
    return False
