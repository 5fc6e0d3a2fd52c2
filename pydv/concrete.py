"""Run the contract units on the real code with concrete values.

The contract modules (pydv/contracts) are executed unchanged; the symbolic
layer is replaced by stand-ins that draw numbers: every SInt variable gets the
value of the verifier's counter-model (or a random one satisfying the
preconditions), every real symbol a pseudo-random number.  Used to replay
counter-models, and as bounded stand-in for units the verifier cannot decide.

/opt/venv/bin/python pydv/concrete.py --property C01 --unit NAME [--model FILE] [--seed N] [--n N] [--budget S]
"""
import argparse
import importlib
import itertools
import json
import os
import random
import sys
import time
import types
import traceback
import warnings
import zlib

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
REPO = os.environ.get("PYDV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class Reject(BaseException):
    pass


class Fail(Exception):
    pass


class Unsupported(BaseException):
    pass


class State:
    model, rng, salt, vals, maxv = {}, random.Random(0), 0, {}, 6


S = State()


class SInt(int):
    @staticmethod
    def var(name):
        if name not in S.vals:
            if name in S.model:
                S.vals[name] = int(S.model[name])
            else:
                S.vals[name] = S.rng.randint(0, S.maxv) if name[0] != "q" else S.rng.randint(-3, S.maxv + 3)
        return S.vals[name]

    @staticmethod
    def sample(name, lo, hi=None):
        if name not in S.vals and name not in S.model:
            lo = int(lo)
            S.vals[name] = S.rng.randint(lo, max(lo, S.maxv - 1 if hi is None else int(hi)))
        return SInt.var(name)

    @staticmethod
    def forget(*names):
        for n in names:
            if n not in S.model:
                S.vals.pop(n, None)

    @staticmethod
    def of(x):
        return int(x)


class R(float):
    @staticmethod
    def atom(fn, args=(), pos=False, extra=None):
        h = zlib.crc32(repr((fn, [int(a) for a in args], S.salt)).encode())
        v = (h % 99991 + 700) / 40000.0
        return v if pos or h >> 17 & 1 else -v

    @staticmethod
    def of(x):
        return float(x)


class Cur:
    radices = []

    def assume(self, c):
        if not c:
            raise Reject()

    def fresh_name(self, b):
        return b


CUR = Cur()


SOLVE = {}


def exact(A, b):
    import numpy as np
    A = np.asarray(A.todense()) if hasattr(A, "todense") else np.asarray(A)
    try:
        x = np.linalg.solve(A, np.asarray(b).reshape(-1))
    except np.linalg.LinAlgError:
        raise Reject()
    if not np.all(np.isfinite(x)) or np.linalg.cond(A) > 1e7:
        raise Reject()
    return x


def dispatchers():
    """solvers answer as the contract in force (SOLVE) says"""
    import scipy.linalg
    import scipy.sparse.linalg

    def wrap(m, name):
        real = getattr(m, name)

        def f(A, b, *a, **k):
            h = SOLVE.get(name)
            return real(A, b, *a, **k) if h is None else h(A, b, *a, **k)
        f.__name__ = name
        setattr(m, name, f)
    wrap(scipy.linalg, "solve")
    for name in ("spsolve", "bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"):
        wrap(scipy.sparse.linalg, name)


def install():
    import numpy as np
    dispatchers()
    import reservoirflow
    import importlib as il
    for sub in ("grids.regular_cartesian", "models.black_oil", "solutions.compiler", "solutions.numerical.fdm", "solutions.numerical.solvers",
                "solutions.analytical.d1p1", "scalers.minmax", "scalers.dummy", "fluids.single_phase", "wells.single_cell"):
        il.import_module("reservoirflow." + sub)

    def m(name, **kw):
        x = types.ModuleType(name)
        x.__dict__.update(kw)
        sys.modules[name] = x
        return x
    pk = m("pydv")
    pk.__path__ = [HERE]

    def tobool(x):
        return bool(x)
    core = m("pydv.core", SInt=SInt, R=R, cur=lambda: CUR, band=lambda a, b: bool(a) and bool(b), bor=lambda a, b: bool(a) or bool(b),
             bnot=lambda a: not a, ball=lambda xs: all(xs), bany=lambda xs: any(xs), SBool=tobool, bz=lambda b: bool(b), isint=lambda x: isinstance(x, (int, np.integer)) and not isinstance(x, bool),
             rfun=lambda name, x: float(getattr(np, name)(x)), smax=max, smin=min, Unsupported=Unsupported, iff=lambda a, b: bool(a) == bool(b))

    def NDArr(shape, fn, dtype="float"):
        shape = tuple(int(s) for s in shape)
        a = np.empty(shape, dtype={"float": float, "int": int, "bool": bool}[dtype])
        for idx in itertools.product(*[range(s) for s in shape]):
            a[idx] = fn(idx)
        return a

    def PS(fn, pos, n):
        return sum(R.atom(fn, (t,), pos) for t in range(int(n)))
    ndarr = m("pydv.ndarr", NDArr=NDArr, F=lambda x: x, pick=lambda q, v: v[int(q)], PS=PS, array_sum=lambda a: float(np.sum(a)), series=lambda n, f: sum(f(t + 1) for t in range(int(n))), at=lambda a, *i: a[tuple(int(x) for x in i)])

    class Dyn(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Unsupported("concrete stand-in of " + k)
    core.__class__ = Dyn
    ndarr.__class__ = Dyn
    fakes = m("pydv.fakes", h_in=h_in, b_len=len, RealTypeError=TypeError, WARNED=WARNED, NAN=float("nan"), PI=float(np.pi))
    fakes.__class__ = Dyn
    m("pydv.fakesparse", SOLVE=SOLVE, exact=exact).__class__ = Dyn
    m("pydv.load", load=lambda: reservoirflow)

    warnings.warn = lambda *a, **k: WARNED.append(a)

    class Unit:
        def __init__(self, name, fn, covers=()):
            self.name, self.fn, self.covers = name, fn, covers
    m("pydv.unit", Unit=Unit)
    return np


WARNED = []


def h_in(x, y):
    import numpy as np
    if isinstance(y, np.ndarray) and isinstance(x, tuple):
        return any(tuple(r) == x for r in y)
    return x in y


def native(x):
    import numpy as np
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(a, b):
    import numpy as np
    a, b = native(a), native(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and not a.shape:
        a = a.item()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return False
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) and isinstance(a, (bool, int)) and isinstance(b, (bool, int))
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a is b or a == b
    if a != a and b != b:
        return True
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)


class U:
    concrete = True

    def __init__(self):
        self.checks = 0
        self.labels = set()
        self.hint_names = ()

    def ok(self, label, c, msg):
        self.checks += 1
        self.labels.add(label)
        if not c:
            raise Fail(f"{label}: {msg}"[:1500])

    def holds(self, label, cond):
        self.ok(label, bool(cond), "does not hold")

    def le(self, label, a, b):
        self.ok(label, a <= b + 1e-9 * (1 + abs(a) + abs(b)), f"{a!r} is above {b!r}")

    def eq(self, label, got, want):
        if callable(got):
            got = got()
        if callable(want):
            want = want()
        self.ok(label, same(got, want), f"got {got!r} want {want!r}")

    def same_array(self, label, arr, shape, want):
        import numpy as np
        self.ok(label, isinstance(arr, np.ndarray), f"not an array: {arr!r}")
        shape = tuple(int(s) for s in shape)
        self.ok(label + ".shape", tuple(arr.shape) == shape, f"shape {arr.shape} want {shape}")
        for idx in itertools.product(*[range(s) for s in shape]):
            w = want(*idx)
            self.ok(label, same(arr[idx], w), f"at {idx}: got {arr[idx]!r} want {w!r}")

    def raises(self, label, types_, fn):
        try:
            v = fn()
        except types_:
            return self.ok(label, True, "")
        self.ok(label, False, f"accepted, returned {v!r}")


def once(unit, model, salt, rng, maxv=6):
    S.model, S.salt, S.rng, S.vals, S.maxv = model, salt, rng, {}, maxv
    import reservoirflow.utils.helpers as h
    u = U()
    del WARNED[:]
    SOLVE.clear()
    clear_caches()
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(record=True):
        warnings.simplefilter("ignore")
        try:
            unit.fn(u)
        except Reject:
            return "reject", None, u
        except Fail as e:
            return "fail", str(e), u
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
            return "fail", f"raised {type(e).__name__}: {str(e)[:600]} at {where}", u
    return "ok", None, u


def clear_caches():
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--unit", action="append")
    ap.add_argument("--jobs-file", help="json list of {unit, models:[...]}")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=3)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, REPO)
    install()
    import reservoirflow
    assert os.path.realpath(reservoirflow.__file__).startswith(os.path.realpath(REPO)), reservoirflow.__file__
    cm = importlib.import_module("pydv.contracts." + a.property.lower())
    units = {u.name: u for u in cm.units()}
    t0 = time.time()
    res = dict(property=a.property, runs=0, checks=0, failures=[], unsupported=[], units=0)
    if a.replay:
        r = json.load(open(a.replay))
        jobs = [dict(unit=r["unit"], models=[r["model"]], salts=[r.get("salt", 0)])]
    elif a.jobs_file:
        jobs = json.load(open(a.jobs_file))
    else:
        jobs = [dict(unit=n, models=[]) for n in units if not a.unit or any(x in n for x in a.unit)]
    for job in jobs:
        un = units.get(job["unit"])
        if un is None:
            continue
        if time.time() - t0 > a.budget:
            res["truncated"] = True
            break
        res["units"] += 1
        rng = random.Random(zlib.crc32(repr((a.seed, un.name)).encode()))
        todo = [(m, s, 6) for m in job.get("models", []) for s in job.get("salts", [0, 1])]
        if not a.replay:
            todo += [(None, k, rng.choice([4, 4, 5, 6])) for k in range(job.get("n", a.n))]
        for model, salt, maxv in todo:
            st = "reject"
            t1 = time.time()
            for attempt in range(3000 if model is None else 1):
                if attempt and time.time() - t0 > a.budget:
                    res["truncated"] = True
                    break
                if attempt and time.time() - t1 > a.budget / 10:
                    break
                try:
                    st, msg, u = once(un, model or {}, salt, rng, maxv)
                except Unsupported as e:
                    st = "unsupported"
                    res["unsupported"].append([un.name, str(e)])
                    break
                if st != "reject":
                    break
            if st == "unsupported":
                break
            if st == "reject":
                res.setdefault("no_input_found", []).append(un.name)
                continue
            res["runs"] += 1
            res["checks"] += u.checks
            if st == "fail":
                res["failures"].append(dict(unit=un.name, model={k: v for k, v in S.vals.items()}, salt=salt, message=msg))
                break
        if len(res["failures"]) >= 4:
            break
    res["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    print(json.dumps(res, indent=1)[:4000])


if __name__ == "__main__":
    main()
