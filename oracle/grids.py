"""Concrete oracles of C01-C05."""
from common import *


def _shapes(rng, tier):
    lst = list(SHAPES) + list(EXTRA)
    if tier == "thorough":
        for _ in range(60):
            s = [int(v) for v in rng.integers(1, 7, 3)]
            if max(s) > 1:
                lst.append(tuple(s))
    return lst


def grid_cases(rng, tier, reps=1, styles=None):
    for r in range(reps if tier == "quick" else reps * 3):
        for t, s in enumerate(_shapes(rng, tier)):
            for u in (True, False):
                st = styles[(t + u + r) % len(styles)] if styles else None
                g = grid_spec(rng, s, u, st)
                g["perm"] = int(rng.integers(1 << 30))
                yield dict(grid=g)


# ---------------------------------------------------------------- C01
class C01:
    rule = "every grid shape in {1,2,3}^3 plus larger unequal ones x both shape conventions x order of queries; a case is non-trivial if the grid has a flow direction"

    @staticmethod
    def cases(rng, tier):
        yield from grid_cases(rng, tier)

    @staticmethod
    def check(case):
        gs = case["grid"]
        g = build_grid(gs)
        R = Ref(*gs["shape"])
        u = gs["unify"]
        rng = np.random.default_rng(gs.get("perm", 0))
        probes = []

        def add(f):
            probes.append(f)

        D = len(R.flow)
        add(lambda: require(g.get_D() == D and g.D == D, "dimension", g.get_D(), D))
        add(lambda: require(g.get_fdir() == (R.flow or "-"), "flow directions", g.get_fdir(), R.flow))
        for b in (True, False):
            N = R.N if b else R.n3
            n = int(np.prod(N))
            idl = R.ids if b else R.interior
            add(lambda b=b, N=N: require(tup(g.get_shape(b)) == tuple(N), "shape", g.get_shape(b), N))
            add(lambda b=b, n=n: require(int(g.get_n(b)) == n, "number of cells", g.get_n(b), n))
            add(lambda b=b, N=N: require(int(g.get_n_max(b)) == max(N), "largest shape", g.get_n_max(b)))
            add(lambda b=b: require(tup(g.get_fshape(b, False)) == R.fshape(b, u), "flow shape", g.get_fshape(b, False), R.fshape(b, u)))
            add(lambda b=b: require(tup(g.get_fshape(b, True)) == R.fshape(b, u) + (3,), "flow shape of points"))
            for fs in (False, True):
                def order(b=b, fs=fs, idl=idl):
                    o = g.get_order("natural", b, fs)
                    require(tolist(np.asarray(o).reshape(-1)) == idl, "natural order", tolist(o))
                    if fs:
                        require(tuple(o.shape) == R.fshape(b, u), "order shape", o.shape)
                add(order)

                def cid(b=b, fs=fs, idl=idl):
                    for fmt in (("array",) if fs else ("array", "list", "tuple", "set")):
                        o = g.get_cells_id(b, fs, fmt)
                        if fmt == "set":
                            require(isinstance(o, set) and o == set(idl) and len(o) == len(idl), "ids (set)", o)
                        elif fmt == "array":
                            require(isinstance(o, np.ndarray) and tolist(o.reshape(-1)) == idl, "ids", o)
                            require(tuple(o.shape) == (R.fshape(b, u) if fs else (len(idl),)), "ids shape", o.shape)
                        else:
                            require(isinstance(o, {"list": list, "tuple": tuple}[fmt]) and tolist(o) == idl, "ids " + fmt, o)
                add(cid)

                def ci(b=b, fs=fs, n=n):
                    o = g.get_cells_i(b, fs)
                    require(tolist(np.asarray(o).reshape(-1)) == list(range(n)), "cells_i", o)
                    if fs:
                        require(tuple(o.shape) == R.fshape(b, u), "cells_i shape")
                add(ci)

                def cc(b=b, fs=fs, idl=idl):
                    want = [R.coords[c] for c in idl]
                    for fmt in (("array",) if fs else ("array", "list", "tuple", "set")):
                        o = g.get_cells_coords(b, fs, fmt)
                        if fmt == "array":
                            require([tup(x) for x in o.reshape(-1, 3)] == want, "coords", o)
                            require(tuple(o.shape) == ((R.fshape(b, u) if fs else (len(idl),)) + (3,)), "coords shape", o.shape)
                        elif fmt == "set":
                            require({tup(x) for x in o} == set(want) and len(o) == len(want), "coords set", o)
                        else:
                            require(isinstance(o, {"list": list, "tuple": tuple}[fmt]) and [tup(x) for x in o] == want, "coords " + fmt, o)
                add(cc)

            def ic(b=b, idl=idl):
                want = [R.icoords(R.coords[c], u) for c in idl]
                o = g.get_cells_icoords(b, False, "tuple")
                require([tuple(int(v) for v in np.atleast_1d(x)) for x in o] == want, "icoords", o)
            add(ic)

        def bnd():
            for fmt in ("tuple", "list", "set", "array"):
                o = g.get_boundaries("id", fmt)
                if fmt == "set":
                    require(o == set(R.boundary), "boundaries set", o)
                else:
                    require(tolist(list(o)) == R.boundary, "boundary ids " + fmt, tolist(o), R.boundary)
                o = g.get_boundaries("coords", fmt)
                got = [tup(x) for x in o]
                require(len(got) == len(R.boundary) and set(got) == {R.coords[c] for c in R.boundary}, "boundary coords " + fmt, got)
        if D:
            add(bnd)

        def ids():
            picks = R.ids if len(R.ids) <= 24 else [R.ids[0], R.ids[-1], *[int(v) for v in rng.choice(R.ids, 18, False)]]
            for c in picks:
                x = R.coords[c]
                require(int(g.get_cell_id(x)) == c, "coords -> id", x, g.get_cell_id(x))
                require(tup(g.get_cell_coords(c)) == x, "id -> coords", c, g.get_cell_coords(c))
                require(tuple(int(v) for v in g.get_cell_icoords(x)) == R.icoords(x, u), "icoords", x, g.get_cell_icoords(x))
                require(int(g.get_order("natural", True, True)[g.get_cell_icoords(x)]) == c, "icoords select the cell", x)
            xs = tuple(R.coords[c] for c in picks[:5])
            require(tolist(g.get_cell_id(xs)) == picks[:5], "list of coords -> ids")
            require([tup(x) for x in g.get_cell_coords(tuple(picks[:5]))] == list(xs), "list of ids -> coords")
            bad = tuple(R.N)
            require(raises(g.get_cell_icoords, bad), "coords out of range accepted", bad)
        add(ids)

        def strip():
            v = rng.integers(1, 1000, len(R.ids)).astype(float)
            require(tolist(g.remove_boundaries(v.copy(), False, "both")) == [v[c] for c in R.interior], "remove_boundaries flat")
            w = g.remove_boundaries(v.copy().reshape(R.fshape(True, u)), False, "both")
            require(tuple(w.shape) == R.fshape(False, u) and tolist(w.reshape(-1)) == [v[c] for c in R.interior], "remove_boundaries shaped")
            if D:
                e = g.extract_boundaries(v.copy(), False, "tuple")
                require(list(e) == sorted(v[c] for c in R.boundary), "extract_boundaries")
        add(strip)
        add(lambda: require(tolist(g.cells_id) == R.interior, "cells_id attribute"))
        idx = rng.permutation(len(probes))
        for t in idx:
            quiet(probes[t])
        for t in idx[:4]:
            quiet(probes[t])


# ---------------------------------------------------------------- C02
class C02:
    rule = C01.rule + "; neighbours and boundaries of every cell, by id and by coordinates, all formats"

    @staticmethod
    def cases(rng, tier):
        yield from grid_cases(rng, tier)

    @staticmethod
    def check(case):
        gs = case["grid"]
        g = build_grid(gs)
        R = Ref(*gs["shape"])
        rng = np.random.default_rng(gs.get("perm", 0))
        B = set(R.boundary)
        picks = [int(c) for c in rng.permutation(R.ids)]
        if len(picks) > 40:
            picks = picks[:40]
        seen = {}
        for c in picks:
            x = R.coords[c]
            want = R.interior_faces(c)
            modes = [("id", False), ("coords", False)] + ([("id", True), ("coords", True)] if c not in B else [])
            for t in rng.permutation(len(modes)):
                by, b = modes[t]
                w = R.faces(c) if b else want
                if by == "id":
                    got = quiet(g.get_cell_neighbors, c, None, b, "dict")
                    got = {s: sorted(int(v) for v in got[s]) for s in "xyz"}
                    flat = quiet(g.get_cell_neighbors, id=c, boundary=b, fmt=str(rng.choice(["list", "tuple", "set", "array"])))
                    require(sorted(int(v) for v in flat) == sorted(sum(w.values(), [])), "neighbours (flat) of", c, flat, w)
                else:
                    got = quiet(g.get_cell_neighbors, None, x, b, "dict")
                    for s in "xyz":
                        require(all(R.valid(y) for y in got[s]), "neighbour coordinates out of the grid", x, got)
                    got = {s: sorted(R.id(y) for y in got[s]) for s in "xyz"}
                require(got == {s: sorted(w[s]) for s in "xyz"}, f"neighbours by {by} (boundary={b}) of cell", c, got, w)
            seen[c] = want
            if c in B:
                require(raises(g.get_cell_neighbors, c, None, True, "dict"), "neighbours incl. boundary of a boundary cell accepted", c)
                require(raises(g.get_cell_boundaries, id=c), "boundaries of a boundary cell accepted", c)
                require(raises(g.get_cell_boundaries, coords=x), "boundaries of a boundary cell accepted", x)
            else:
                wb = {s: sorted(b for b in v if b in B) for s, v in R.faces(c).items()}
                gb = quiet(g.get_cell_boundaries, id=c, fmt="dict")
                require({s: sorted(int(v) for v in gb[s]) for s in "xyz"} == wb, "boundaries of", c, gb, wb)
                gb = quiet(g.get_cell_boundaries, coords=x, fmt="dict")
                require({s: sorted(R.id(y) for y in gb[s]) for s in "xyz"} == wb, "boundaries by coords of", x, gb, wb)
                fl = quiet(g.get_cell_boundaries, id=c, fmt="tuple")
                require(sorted(int(v) for v in fl) == sorted(sum(wb.values(), [])), "boundaries (flat)", c, fl)


# ---------------------------------------------------------------- C03
class C03:
    rule = C01.rule + "; scalar and per-position sizes"

    @staticmethod
    def cases(rng, tier):
        yield from grid_cases(rng, tier, 1, ["irregular", "uniform", "all", "near"])

    @staticmethod
    def check(case):
        gs = case["grid"]
        g = build_grid(gs)
        R = GridRef(gs)
        u = gs["unify"]
        rng = np.random.default_rng(gs.get("perm", 0))
        names = "xyz"
        d = [np.array([R.size(c, a) for c in R.ids]) for a in range(3)]
        A = [np.array([R.area(c, a) for c in R.ids]) for a in range(3)]
        V = np.array([R.volume(c) for c in R.ids])
        ctr = np.array([R.center(c) for c in R.ids])
        P = []
        for b in (True, False):
            sel = R.ids if b else R.interior
            for fs in (True, False):
                sh = R.fshape(b, u) if fs else (len(sel),)
                for a in range(3):
                    P.append(lambda a=a, b=b, fs=fs, sel=sel, sh=sh: require(close(g.get_cells_d(names[a], b, fs), d[a][sel].reshape(sh)), f"cell sizes d{names[a]} boundary={b} fshape={fs}"))
                    P.append(lambda a=a, b=b, fs=fs, sel=sel, sh=sh: require(close(getattr(g, "get_cells_d" + names[a])(b, fs), d[a][sel].reshape(sh)), f"get_cells_d{names[a]}"))
                    P.append(lambda a=a, b=b, fs=fs, sel=sel, sh=sh: require(close(g.get_cells_A(names[a], b, fs), A[a][sel].reshape(sh)), f"areas A{names[a]} boundary={b} fshape={fs}"))
                    P.append(lambda a=a, b=b, fs=fs, sel=sel, sh=sh: require(close(getattr(g, "get_cells_A" + names[a])(b, fs), A[a][sel].reshape(sh)), f"get_cells_A{names[a]}"))
                P.append(lambda b=b, fs=fs, sel=sel, sh=sh: require(close(g.get_cells_V(b, fs, False), V[sel].reshape(sh)), f"volumes boundary={b} fshape={fs}"))
                P.append(lambda b=b, fs=fs, sel=sel, sh=sh: require(close(g.get_cells_center(b, fs, False), ctr[sel].reshape(sh + (3,))), f"centers boundary={b} fshape={fs}"))
            P.append(lambda b=b, sel=sel: require(close(g.get_Vt(b), V[sel].sum()), f"total volume boundary={b}", g.get_Vt(b), V[sel].sum()))
            P.append(lambda b=b, sel=sel: require(close(g.get_Vt(b, True), V[sel].sum(), 1e-4), f"total volume (pyvista) boundary={b}"))
            P.append(lambda b=b, sel=sel: require(close(g.get_cells_V(b, False, True), V[sel], 1e-4), f"volumes (pyvista) boundary={b}"))
            P.append(lambda b=b, sel=sel: require(close(g.get_cells_center(b, False, True), ctr[sel], 1e-4, 1e-3), f"centers (pyvista) boundary={b}"))
        picks = [int(c) for c in rng.permutation(R.ids)[:20]]
        for c in picks:
            x = R.coords[c]
            for a in range(3):
                P.append(lambda a=a, c=c, x=x: require(close(g.get_cell_d(names[a], c), d[a][c]) and close(g.get_cell_d(names[a], None, x), d[a][c]) and close(getattr(g, "get_cell_d" + names[a])(c, None), d[a][c]), f"size d{names[a]} of cell", c))
                P.append(lambda a=a, c=c, x=x: require(close(g.get_cell_A(names[a], c), A[a][c]) and close(g.get_cell_A(names[a], None, x), A[a][c]) and close(getattr(g, "get_cell_A" + names[a])(None, x), A[a][c]), f"area A{names[a]} of cell", c))
            P.append(lambda c=c, x=x: require(close(g.get_cell_V(c), V[c]) and close(g.get_cell_V(None, x), V[c]), "volume of cell", c))
            P.append(lambda c=c, x=x: require(close(g.get_cell_center(c), ctr[c]) and close(g.get_cell_center(None, x), ctr[c]), "center of cell", c, g.get_cell_center(c), ctr[c]))
        P.append(lambda: require(all(close(g.d[s], d[a]) and close(g.A[s], A[a]) for a, s in enumerate(names)) and close(g.V, V), "d, A, V attributes"))
        P.append(lambda: require(all(close(g.get_cells_d("dict")[s], d[a]) and close(g.get_cells_A("dict")[s], A[a]) for a, s in enumerate(names)), "sizes and areas as dict"))
        idx = rng.permutation(len(P))
        for t in idx:
            quiet(P[t])
        for t in idx[:10]:
            quiet(P[t])


# ---------------------------------------------------------------- C04
class C04:
    rule = C01.rule + "; uniform / irregular / heterogeneous / layered / single-deviation sizes and permeabilities, all unit systems"

    @staticmethod
    def cases(rng, tier):
        st = ["all", "uniform", "near", "irregular", "hetero", "layered"]
        for t, c in enumerate(grid_cases(rng, tier, 2, st)):
            if t % 3 == 0:
                c["grid"]["unit"] = ["field", "metric", "lab"][(t // 3) % 3]
            c["mu"], c["B"] = float(rng.uniform(0.3, 3)), float(rng.uniform(0.8, 1.5))
            yield c

    @staticmethod
    def check(case):
        gs = case["grid"]
        g = build_grid(gs)
        R = GridRef(gs)
        rng = np.random.default_rng(gs.get("perm", 0))
        F = quiet(rf().fluids.SinglePhase, mu=case["mu"], B=case["B"], rho=50, comp=1e-6, unit=gs["unit"])
        m = quiet(rf().models.BlackOil, g, F, pi=4000, unit=gs["unit"])
        muB = case["mu"] * case["B"]
        n = len(R.ids)
        W = np.zeros((n, n))
        for c in R.ids:
            for b in sum(R.faces(c).values(), []):
                W[c, b] = R.G(c, b)
        I = R.interior
        Wi = W[np.ix_(I, I)]
        den = lambda M: M.toarray() if hasattr(M, "toarray") else np.asarray(M)
        P = []
        for sp in (True, False):
            P.append(lambda sp=sp: require(close(den(g.get_cells_G(False, sp)), Wi), f"geometry factor matrix sparse={sp}"))
            P.append(lambda sp=sp: require(close(den(g.get_cells_G(True, sp)), W), f"geometry factor matrix with boundary sparse={sp}"))
            for v in (True, False):
                P.append(lambda sp=sp, v=v: require(close(den(m.get_cells_trans(False, sp, v)), Wi / muB), f"transmissibility matrix sparse={sp} vectorize={v}"))
                def mb(sp=sp, v=v):
                    M = den(m.get_cells_trans(True, sp, v))
                    require(M.shape == (n, n) and close(M[np.ix_(I, I)], Wi / muB), f"transmissibility matrix with boundary sparse={sp} vectorize={v}")
                P.append(mb)
        def dg():
            offs = {1: 1, 2: R.n3["xyz".index(R.flow[0])] if len(R.flow) > 1 else 0}
            if len(R.flow) == 3:
                offs[3] = R.n3[0] * R.n3[1]
            for q in range(1, len(R.flow) + 1):
                require(close(m.get_cells_trans_diag(False, q), np.diag(Wi, offs[q]) / muB), f"transmissibility diagonal {q}")
        P.append(dg)
        picks = [int(c) for c in rng.permutation(R.ids)[:14]]
        for c in picks:
            def cell(c=c):
                x = R.coords[c]
                inn = [b for b in sum(R.interior_faces(c).values(), [])]
                cases = [(False, inn)] + ([(True, sum(R.faces(c).values(), []))] if c in I else [])
                for b, lst in cases:
                    o = g.get_cell_G(c, None, b)
                    require({int(k) for k in o} == set(lst) and all(close(o[k], W[c, k]) for k in o), f"geometry factors of cell (boundary={b})", c, o)
                    o = g.get_cell_G(None, x, b)
                    require({R.id(k) for k in o} == set(lst) and all(close(v, W[c, R.id(k)]) for k, v in o.items()), f"geometry factors by coords (boundary={b})", x, o)
                    o = m.get_cell_trans(c, None, b)
                    require({int(k) for k in o} == set(lst) and all(close(o[k], W[c, k] / muB) for k in o), f"transmissibilities of cell (boundary={b})", c, o)
                    for k in lst:
                        if k in I or not b:
                            back = g.get_cell_G(k, None, False) if c in I else None
                            if back is not None:
                                require(close(back[c], o[k] * muB), "symmetry", c, k)
            P.append(cell)
        for t in rng.permutation(len(P)):
            quiet(P[t])


# ---------------------------------------------------------------- C05
class C05:
    rule = "random histories of property changes (all cells, by id, by coordinates) and queries; non-trivial if at least one change follows a query"

    @staticmethod
    def cases(rng, tier):
        st = ["uniform", "hetero", "irregular", "near"]
        for t, c in enumerate(grid_cases(rng, tier, 1, st)):
            R = Ref(*c["grid"]["shape"])
            ops = []
            for _ in range(10):
                nm = str(rng.choice(["kx", "ky", "kz", "phi", "z"]))
                how = str(rng.choice(["all", "id", "coords", "array", "query", "query"]))
                val = float(np.round(rng.uniform(0.1, 300), 3))
                cell = int(rng.choice(R.ids))
                ops.append([how, nm, val, cell, str(rng.choice(["set_prop", "set_props"]))])
                if how in ("id", "coords"):
                    ops.append(["all", nm, val, 0, "set_props"]) if rng.random() < 0.1 else None
            c["ops"] = ops
            yield c

    @staticmethod
    def check(case):
        gs = case["grid"]
        g = build_grid(gs)
        R = GridRef(gs)
        u = gs["unify"]
        I = R.interior

        def compare(full):
            for nm in ("kx", "ky", "kz", "phi", "z"):
                v = R.props[nm]
                require(close(g.get_prop(nm, True, False), v), f"property {nm}", g.get_prop(nm, True, False), v)
                require(close(g.get_prop(nm, False, True), v[I].reshape(R.fshape(False, u))), f"property {nm} without boundary")
                require(close(np.array(g.get_prop(nm, True, False, "list")), v), f"property {nm} as list")
                require(close(getattr(g, nm), v), f"attribute {nm}")
            for s in "xyz":
                v = R.props["k" + s]
                require(close(g.k[s], v), f"grid.k[{s}]")
                require(close(g.get_cells_k(s, True, True), v.reshape(R.fshape(True, u))), f"get_cells_k({s})")
                for c in full:
                    require(close(g.get_cell_k(s, c), v[c]) and close(g.get_cell_k(s, None, R.coords[c]), v[c]) and close(getattr(g, "get_cell_k" + s)(c), v[c]) and close(g.get_cell_k(s, id=c), v[c]) and close(g.get_cell_k(dir=s, coords=R.coords[c]), v[c]) and close(getattr(g, "get_cell_k" + s)(coords=R.coords[c]), v[c]), f"k{s} of cell", c)
            hom = bool(np.all(R.props["phi"][I] == R.props["phi"][I][0]))
            iso = all(np.all(R.props["k" + s] == R.props["k" + s][0]) for s in "xyz")
            require(bool(g.is_homogeneous) == hom and bool(g.is_heterogeneous) == (not hom), "uniformity of porosity", hom)
            require(bool(g.is_isotropic) == iso and bool(g.is_anisotropic) == (not iso), "uniformity of permeability", iso)
            for c in full:
                o = g.get_cell_G(c, None, False)
                for b, v in o.items():
                    require(close(v, R.G(c, int(b))), "geometry factor after change", c, b)
            M = g.get_cells_G(False, True).toarray()
            W = np.array([[R.G(c, b) for b in I] for c in I])
            require(close(M, W), "geometry factor matrix after change")

        def run():
            rng = np.random.default_rng(gs.get("perm", 0))
            for how, nm, val, cell, fn in case["ops"]:
                full = sorted({cell, *[int(v) for v in rng.choice(R.ids, 3)]})
                if how == "query":
                    compare(full)
                    continue
                if how == "array":
                    v = np.round(val * (1 + np.arange(len(R.ids)) % 7), 3)
                    kw = {}
                    R.props[nm] = v.copy()
                elif how == "all":
                    v, kw = val, {}
                    R.props[nm] = np.full(len(R.ids), val)
                else:
                    v = val
                    kw = dict(id=cell) if how == "id" else dict(coords=R.coords[cell])
                    R.props[nm] = R.props[nm].copy()
                    R.props[nm][cell] = val
                if fn == "set_prop":
                    g.set_prop(nm, v, **kw)
                else:
                    g.set_props(**{nm: v}, **kw)
            compare(R.ids[:6])
            require(raises(g.set_prop, "unknown property", 1), "unknown property accepted")
        quiet(run)
