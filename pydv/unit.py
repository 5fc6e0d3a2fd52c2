"""Proof units: run the real code on all paths and discharge the ensures clauses."""
import random
import time
import traceback
import zlib
from fractions import Fraction
import z3
from . import core, fakes, ndarr
from .core import SInt, SBool, R, cur, explore, Unsupported, Budget, PathAbort, bz, bnot, isint

MODEL_ERRORS = (z3.Z3Exception, AttributeError, NameError, NotImplementedError, RecursionError, ImportError)


class Unit:
    def __init__(self, name, fn, covers=()):
        self.name, self.fn, self.covers = name, fn, tuple(covers)


class U:
    """collects the obligations of one unit"""

    def __init__(self, name):
        self.name = name
        self.obs = {}
        self.hint_names = ()

    def note(self, label, ok, detail="", refuted=False, hint=None):
        o = self.obs.setdefault(label, {"label": label, "checks": 0, "status": "proved", "detail": "", "hint": None})
        o["checks"] += 1
        if not ok and o["status"] != "refuted":
            o["status"] = "refuted" if refuted else "failed"
            o["detail"] = detail[:1500]
            o["hint"] = hint

    # ---- ensures
    def holds(self, label, cond):
        """cond: bool or SBool that must follow from the path condition"""
        if isinstance(cond, bool):
            if cond:
                return self.note(label, True)
            hint = self.model_hint(z3.BoolVal(True))
            return self.note(label, False, "false on this path", hint is not None and self.int_pc(), hint)
        f = cond.f
        if cur().entails(f, True):
            return self.note(label, True)
        hint = self.model_hint(z3.Not(f))
        self.note(label, False, f"not entailed: {f}", hint is not None and self.int_pc() and not ndarr.has_real(f), hint)

    def le(self, label, a, b):
        """a <= b (the concrete runs allow for rounding)"""
        self.holds(label, a <= b)

    def eq(self, label, got, want):
        """got == want (values, tuples/lists, arrays elementwise)"""
        try:
            pairs = list(self.flat(got, want))
        except Mismatch as e:
            hint = self.model_hint(z3.BoolVal(True))
            return self.note(label, False, str(e), hint is not None and self.int_pc(), hint)
        for g, w, facts in pairs:
            if facts:
                for cond, kind, v, *_ in cur().cases(lambda: self.eq1(label, g, w), facts):
                    if kind == "exc":
                        raise v
            else:
                self.eq1(label, g, w)

    def eq1(self, label, g, w):
        if callable(g):
            g = g()
        if callable(w):
            w = w()
        if isinstance(g, ndarr.NDArr) and not g.shape:
            g = g.at()
        if isinstance(g, (tuple, list)) and isinstance(w, (tuple, list)):
            return self.eq(label, g, w)
        if core.same(g, w) or g is w is fakes.NAN:
            return self.note(label, True)
        refuted, hint = self.refute(g, w)
        self.note(label, False, f"got {g!r} want {w!r}", refuted, hint)

    def flat(self, g, w):
        if isinstance(g, (tuple, list)) and isinstance(w, (tuple, list)):
            if isinstance(g, tuple) != isinstance(w, tuple):
                raise Mismatch(f"got {type(g).__name__} want {type(w).__name__}: {g!r}")
            if len(g) != len(w):
                raise Mismatch(f"length {len(g)} want {len(w)}: got {g!r} want {w!r}")
            for x, y in zip(g, w):
                yield from self.flat(x, y)
        else:
            yield g, w, ()

    def same_array(self, label, arr, shape, want):
        """arr has this shape and its generic element is want(*index)"""
        if not isinstance(arr, ndarr.NDArr):
            return self.note(label, False, f"not an array: {arr!r}")
        if len(arr.shape) != len(shape):
            hint = self.model_hint(z3.BoolVal(True))
            return self.note(label + ".shape", False, f"shape {arr.shape} want {shape}", hint is not None and self.int_pc(), hint)
        self.eq(label + ".shape", tuple(arr.shape), tuple(shape))
        def axes(shape):
            if not shape:
                yield [], []
                return
            s, rest = shape[0], shape[1:]
            s = ndarr.fold(s)
            if isinstance(s, int):
                opts = [(t, []) for t in range(s)]
            else:
                rads = ndarr.factor_len(s)
                ds, f = ndarr.fresh_digits(rads, "e")
                opts = [(ndarr.lin(ds, rads), f)]
            for v, f in opts:
                for vs, fs in axes(rest):
                    yield [v] + vs, f + fs
        for idx, facts in axes(tuple(shape)):
            for cond, kind, v, *_ in cur().cases(lambda: self.eq1(label, lambda: arr.at(*idx), lambda: want(*idx)), facts):
                if kind == "exc":
                    raise v

    def raises(self, label, types, fn):
        try:
            v = fn()
        except types as e:
            if isinstance(e, TypeError) and not isinstance(e, fakes.RealTypeError):
                raise Unsupported(f"TypeError in the model: {e}")
            return self.note(label, True)
        hint = self.model_hint(z3.BoolVal(True))
        self.note(label, False, f"accepted, returned {v!r}", hint is not None and self.int_pc(), hint)

    # ---- refutation
    def int_pc(self):
        return not any(ndarr.has_real(f) for f in cur().pc) and not cur().rules

    def model(self, f):
        s = z3.Solver()
        s.set("timeout", 5000)
        for p in cur().pc:
            s.add(p)
        s.add(f)
        small = [z3.And(core.atom_z3(n) <= 4) for n in self.hint_names if n in core.ATOMS]
        if small:
            s.push()
            s.add(*small)
            if s.check() == z3.sat:
                return s.model()
            s.pop()
        if s.check() == z3.sat:
            return s.model()
        return None

    def hint_of(self, m):
        h = {}
        for n, z in core.ATOMS.items():
            v = m.eval(z)
            if z3.is_int_value(v):
                h[n] = v.as_long()
        return h

    def model_hint(self, f):
        m = self.model(f)
        return None if m is None else self.hint_of(m)

    def refute(self, g, w):
        if isint(g) and isint(w):
            e = SInt.of(g) == SInt.of(w)
            if isinstance(e, bool):
                h = self.model_hint(z3.BoolVal(True))
                return h is not None and self.int_pc(), h
            h = self.model_hint(z3.Not(e.f))
            return h is not None and self.int_pc(), h
        if isinstance(g, (bool, SBool)) and isinstance(w, (bool, SBool)):
            h = self.model_hint(bz(g) != bz(w))
            return h is not None and self.int_pc() and not ndarr.has_real(z3.And(bz(g), bz(w))), h
        num = (int, float, Fraction, R, SInt)
        if isinstance(g, num) and isinstance(w, num) and not isinstance(g, bool):
            m = self.model(z3.BoolVal(True))
            if m is None:
                return False, None
            h = self.hint_of(m)
            if not self.int_pc():
                return False, h
            try:
                a, b = core.resolve(R.of(g)), core.resolve(R.of(w))
                ev = Eval(m)
                return ev.r(a) != ev.r(b), h
            except (Unsupported, ZeroDivisionError):
                return False, h
        h = self.model_hint(z3.BoolVal(True))
        return type(g) is not type(w) and (isinstance(g, (str, type(None))) or isinstance(w, (str, type(None)))) and h is not None and self.int_pc(), h


class Mismatch(Exception):
    pass


class Eval:
    """value of a real term under an integer model; atoms are hashed by their evaluated arguments"""

    def __init__(self, m):
        self.m = m

    def i(self, x):
        x = SInt.of(x)
        t = 0
        for mono, c in x.p.items():
            u = c
            for a in mono:
                v = self.m.eval(core.atom_z3(a), model_completion=True)
                u = u * v.as_long()
            t = t + u
        return t

    def atom(self, a):
        if a.fn.startswith("int:"):
            return Fraction(self.m.eval(core.atom_z3(a.fn[4:]), model_completion=True).as_long())
        if a.fn.startswith(("ps:", "sum:")):
            raise Unsupported("sum in refutation")
        args = [self.r(x) if isinstance(x, R) else self.i(x) if isint(x) else x for x in a.args]
        h = zlib.crc32(repr((a.fn, args)).encode())
        return Fraction(h % 9973 + 17, 991) * (1 if a.pos else (-1) ** (h & 1))

    def r(self, x):
        v = []
        for p in (x.n, x.d):
            t = Fraction(0)
            for m, c in p.t.items():
                u = Fraction(c)
                for a, e in m:
                    u *= self.atom(a) ** e
                t += u
            v.append(t)
        return v[0] / v[1]


def run_unit(unit, budget=None):
    """returns {"unit","status","obligations":[...],"paths","error","wall_s"}"""
    t0 = time.time()
    u = U(unit.name)
    q0, s0, k0 = core.STATS["queries"], core.STATS["solver_s"], core.STATS["unknown"]
    core.DEADLINE[0] = time.time() + budget if budget else None
    paths = 0
    err = None

    def body():
        fakes.reset_caches()
        fakes.WARNED.clear()
        unit.fn(u)
    try:
        for o in explore(body):
            paths += 1
            if o.kind == "exc":
                e = o.value
                if isinstance(e, TypeError) and not isinstance(e, fakes.RealTypeError) or isinstance(e, MODEL_ERRORS):
                    err = "engine: " + "".join(traceback.format_exception(e)[-4:])[-1500:]
                    break
                core.Ctx.cur, prev = o.ctx, core.Ctx.cur
                try:
                    h = u.model_hint(z3.BoolVal(True))
                    u.note("no exception", False, "".join(traceback.format_exception(e)[-3:])[-1200:], h is not None and u.int_pc(), h)
                finally:
                    core.Ctx.cur = prev
            else:
                u.note("no exception", True)
    except Unsupported as e:
        err = "unsupported: " + str(e) + " @ " + where(e)
    except Budget as e:
        err = "budget: " + str(e)
    core.DEADLINE[0] = None
    obs = list(u.obs.values())
    if err:
        status = "undecided"
    elif any(o["status"] != "proved" for o in obs):
        status = "failed"
    elif len(obs) < 2 or paths == 0:
        status = "vacuous"
    else:
        status = "proved"
    return {"unit": unit.name, "status": status, "obligations": obs, "paths": paths, "error": err, "unknown": core.STATS["unknown"] - k0,
            "queries": core.STATS["queries"] - q0, "solver_s": round(core.STATS["solver_s"] - s0, 3), "wall_s": round(time.time() - t0, 3), "covers": list(unit.covers)}


def where(e):
    fr = traceback.extract_tb(e.__traceback__)
    own = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in fr[-4:]]
    rf = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno} {f.name}" for f in fr if "reservoirflow" in f.filename]
    return " < ".join(rf[-2:]) + " | " + " ".join(own)
