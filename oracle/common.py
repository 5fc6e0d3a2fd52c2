"""Independent concrete specification of reservoirflow's grids (plain loops).

Runs under /opt/venv/bin/python against the working tree of /repo.  Used to
replay failed proof obligations on the real code and as the *bounded*
stand-in for functions that the verifier cannot reach.
"""
import itertools, json, os, sys, warnings, io, contextlib

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
REPO = os.environ.get("PYDV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402


class Mismatch(Exception):
    pass


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def rf():
    import reservoirflow
    return reservoirflow


def require(cond, msg, *vals):
    if not cond:
        raise Mismatch(msg + "".join(f" | {v!r}"[:300] for v in vals))


def close(a, b, rtol=1e-9, atol=1e-12):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def raises(fn, *a, **k):
    """True if the call is rejected with an exception."""
    try:
        quiet(fn, *a, **k)
    except Exception:
        return True
    return False


class Ref:
    """Reference numbering: id = i + NX*(j + NY*k)."""

    def __init__(self, nx, ny, nz):
        self.n3 = (nx, ny, nz)
        self.flow = "".join(c for c, n in zip("xyz", self.n3) if n > 1)
        self.N = tuple(n + 2 if n > 1 else n for n in self.n3)
        NX, NY, NZ = self.N
        self.coords = [(i, j, k) for k in range(NZ) for j in range(NY) for i in range(NX)]
        self.ids = list(range(len(self.coords)))
        self.interior = [c for c, x in enumerate(self.coords) if self.inside(x)]
        self.boundary = [c for c, x in enumerate(self.coords) if not self.inside(x)]

    def inside(self, x):
        return all(n == 1 or 0 < v < n + 1 for v, n in zip(x, self.n3))

    def id(self, x):
        return x[0] + self.N[0] * (x[1] + self.N[1] * x[2])

    def valid(self, x):
        return all(0 <= v < n for v, n in zip(x, self.N))

    def faces(self, c):
        """{axis: [adjacent ids]} over all cells (including boundary)."""
        x = self.coords[c]
        out = {}
        for a, s in enumerate("xyz"):
            lst = []
            if s in self.flow:
                for dlt in (-1, 1):
                    y = list(x)
                    y[a] += dlt
                    if self.valid(y):
                        lst.append(self.id(y))
            out[s] = lst
        return out

    def interior_faces(self, c):
        ins = set(self.interior)
        return {s: [b for b in v if b in ins] for s, v in self.faces(c).items()}

    def fshape(self, boundary, unify):
        n = self.N if boundary else self.n3
        if unify or len(self.flow) == 3:
            return (n[2], n[1], n[0])
        if not self.flow:
            return (1,)
        return tuple(n["xyz".index(s)] for s in reversed(self.flow))

    def icoords(self, x, unify):
        if unify or len(self.flow) == 3:
            return tuple(reversed(x))
        return tuple(x["xyz".index(s)] for s in reversed(self.flow))


SHAPES = [s for s in itertools.product((1, 2, 3), repeat=3) if max(s) > 1]
EXTRA = [(4, 1, 1), (1, 5, 1), (1, 1, 6), (4, 2, 1), (2, 5, 1), (5, 1, 3), (1, 4, 5), (2, 3, 4), (4, 3, 2), (5, 2, 3), (3, 5, 2)]
C = {"field": 0.001127, "metric": 0.0864, "lab": 1.0}


def grid_spec(rng, shape, unify, style=None, unit="field"):
    """A random grid description; JSON serialisable."""
    ref = Ref(*shape)
    n = len(ref.ids)
    style = style or rng.choice(["uniform", "irregular", "hetero", "layered", "all", "near"])
    g = dict(shape=list(shape), unify=bool(unify), style=str(style), unit=unit)
    d = []
    for a in range(3):
        base = float(np.round(rng.uniform(10, 400), 3))
        if shape[a] > 1 and style in ("irregular", "all"):
            d.append([float(v) for v in np.round(rng.uniform(10, 400, ref.N[a]), 3)])
        elif shape[a] > 1 and style == "near":
            v = [base] * ref.N[a]
            v[int(rng.integers(ref.N[a]))] = base * 1.5
            d.append(v)
        else:
            d.append(base)
    g["d"] = d
    for nm in ("kx", "ky", "kz"):
        base = float(np.round(rng.uniform(1, 300), 3))
        if style in ("hetero", "all"):
            g[nm] = [float(v) for v in np.round(rng.uniform(1, 300, n), 3)]
        elif style == "layered":
            g[nm] = [base * (1 + ref.coords[c][2] + 2 * ref.coords[c][1] + ref.coords[c][0] * (nm == "ky")) for c in ref.ids]
        elif style == "near":
            v = [base] * n
            v[int(rng.integers(n))] = base * 2
            g[nm] = v
        else:
            g[nm] = base
    g["phi"] = float(np.round(rng.uniform(0.05, 0.4), 4)) if style in ("uniform", "irregular") else [float(v) for v in np.round(rng.uniform(0.05, 0.4, n), 4)]
    g["z"] = 0.0 if style in ("uniform", "irregular") else [float(v) for v in np.round(rng.uniform(0, 90, n), 3)]
    g["comp"] = float(rng.choice([0, 1e-6]))
    return g


def build_grid(g):
    def arr(v):
        return np.array(v, dtype=float) if isinstance(v, list) else v
    return quiet(rf().grids.RegularCartesian, *g["shape"], *[arr(v) for v in g["d"]],
                 kx=arr(g["kx"]), ky=arr(g["ky"]), kz=arr(g["kz"]), phi=arr(g["phi"]),
                 z=arr(g["z"]), comp=g["comp"], unit=g.get("unit", "field"), unify=g["unify"])


class GridRef(Ref):
    def __init__(self, g):
        super().__init__(*g["shape"])
        self.g = g
        n = len(self.ids)
        self.dd = []
        for a in range(3):
            v = g["d"][a]
            self.dd.append(list(v) if isinstance(v, list) else [v] * self.N[a])
        self.props = {}
        for nm in ("kx", "ky", "kz", "phi", "z"):
            v = g[nm]
            self.props[nm] = np.array(v, dtype=float) if isinstance(v, list) else np.full(n, float(v))
        self.c = C[g.get("unit", "field")]

    def size(self, c, a):
        return self.dd[a][self.coords[c][a]]

    def area(self, c, a):
        o = [b for b in range(3) if b != a]
        return self.size(c, o[0]) * self.size(c, o[1])

    def volume(self, c):
        return self.size(c, 0) * self.size(c, 1) * self.size(c, 2)

    def center(self, c):
        return [sum(self.dd[a][: self.coords[c][a]]) + self.size(c, a) / 2 for a in range(3)]

    def G(self, c, b):
        for a, s in enumerate("xyz"):
            if b in self.faces(c)[s]:
                k = self.props["k" + s]
                return 2 * self.c / (self.size(c, a) / (self.area(c, a) * k[c]) + self.size(b, a) / (self.area(b, a) * k[b]))
        return 0.0

    def axis(self, c, b):
        for a, s in enumerate("xyz"):
            if b in self.faces(c)[s]:
                return a
        return None


def tolist(x):
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (tuple, list, np.ndarray)):
        return [tolist(v) for v in x]
    return x


def tup(x):
    return tuple(int(v) for v in x)
