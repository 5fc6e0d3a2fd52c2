"""Loops over collections of symbolic length.

The body is run once per family of elements (a generic element, all its paths),
its writes are collected from the journal, and it is checked that iterations do
not depend on each other: every location written in the loop is either
  - written by one element only (injective in the element) and accessed only by
    that element, or
  - a number to which every element adds an amount that does not depend on what
    is stored in any location written by the loop.
Both are checked with those locations havocked. Then the state after the loop is
a function of the state before it, and a location read later is obtained by
running the body again for the element(s) that write to it, in the state before
the loop. Bodies that leave the loop: either no element leaves it, or some
element does, all elements of an arbitrary set (those before it) having been
processed and no other."""
import itertools
import z3
from . import core, heap, ndarr
from .core import linear, digit, SInt, SBool, R, Unsupported, PathAbort, cur, isint, band
from .ndarr import F, Piece, Buf, num, prod

_n = itertools.count()


class Poison:
    """value of a variable or attribute that a summarised loop left undetermined"""

    def __init__(self, what):
        self.__dict__["what"] = what

    def _no(self, *a, **k):
        raise Unsupported("value after a loop over a symbolic collection: " + self.__dict__["what"])
    __getattr__ = __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __contains__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __int__ = __float__ = __index__ = __str__ = __format__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __pow__ = __matmul__ = _no

    def __repr__(self):
        return "Poison(%s)" % self.__dict__["what"]


UNBOUND = object()


def solve(x, p):
    """[(condition, digits)] for the elements of the family p that equal x"""
    out = []
    for f, digs in ndarr.solve_piece(x, p):
        f = z3.simplify(f)
        if z3.is_false(f):
            continue
        out.append((True if z3.is_true(f) else SBool(f), [digit(z) for z in digs]))
    return out


def true(c):
    return c is True or (c is not False and bool(c))


def pred(name, args):
    """an uninterpreted relation of integers"""
    zs = [SInt.of(a).z() for a in args]
    if not zs:
        return SBool(z3.Bool(name))
    return SBool(z3.Function(name, *[z3.IntSort()] * len(zs), z3.BoolSort())(*zs))


def hav(x):
    if isinstance(x, (tuple, list)):
        return any(hav(v) for v in x)
    if isinstance(x, (R, SInt)):
        s = repr(x)
        return "hav:" in s
    return "hav:" in repr(x)


class Watch:
    """accesses to keyed objects during one run of a body"""

    def __init__(self):
        self.seen = []

    def __enter__(self):
        heap.WATCH.append(self)
        return self

    def __exit__(self, *a):
        heap.WATCH.remove(self)


def access(obj, key):
    for w in heap.WATCH:
        w.seen.append((obj, key))


class SymLoop:
    def __init__(self, coll):
        self.coll = coll

    def __iter__(self):
        if isinstance(self.coll, ndarr.NDArr) and not isinstance(self.coll.shape[0], SInt):
            return iter(self.coll)
        raise Unsupported("loop over a symbolic collection")

    def __len__(self):
        return len(self.coll)


def is_sym(x):
    return isinstance(x, SymLoop)


class Loop:
    def __init__(self, coll, body, names):
        self.pieces = ndarr.pieces_of(coll)
        self.body = body
        free = body.__code__.co_freevars
        self.cells = {n: body.__closure__[free.index(n)] for n in names if n in free}
        self.stamp = heap.stamp()
        self.before = None
        self.start = {}
        for n, c in self.cells.items():
            try:
                self.start[n] = c.cell_contents
            except ValueError:
                self.start[n] = UNBOUND

    # ---- running the body
    def put(self, vals):
        for n, c in self.cells.items():
            v = vals[n]
            if v is UNBOUND:
                try:
                    del c.cell_contents
                except ValueError:
                    pass
            else:
                c.cell_contents = v

    def now(self):
        out = {}
        for n, c in self.cells.items():
            try:
                out[n] = c.cell_contents
            except ValueError:
                out[n] = UNBOUND
        return out

    def exec(self, n, d):
        """run the body for one element; the locals are left as it leaves them"""
        self.put(self.start)
        return self.body(self.pieces[n].elem(d))

    def after(self, n, d, read):
        """read() in the state after the body was run for this element only, from the state before the loop"""
        saved = self.now()
        with heap.at(self.stamp):
            try:
                if self.before is None or true(self.before(n, d)):
                    try:
                        r = self.exec(n, d)
                    except Exception:
                        raise PathAbort()       # this path has an element leave the loop, or none
                    if r is not None:
                        raise PathAbort()
                return read()
            finally:
                self.put(saved)

    def wheres(self, n, d, obj):
        """the locations of obj written for this element"""
        saved = self.now()
        with heap.at(self.stamp):
            try:
                if self.before is not None and not true(self.before(n, d)):
                    return []
                m = heap.mark()
                try:
                    r = self.exec(n, d)
                except Exception:
                    raise PathAbort()
                if r is not None:
                    raise PathAbort()
                return distinct([e for e in heap.LOG[m:] if owner(e) is obj])
            finally:
                self.put(saved)

    # ---- analysis
    def generic(self, n, prepare=None):
        p = self.pieces[n]
        ds, facts = ndarr.fresh_digits(p.rads, "e")

        def fn():
            if p.filt is not None and not true(p.filt(ds)):
                raise PathAbort()
            marks = prepare() if prepare else None
            m, c0 = heap.mark(), heap.clock()
            with Watch() as w:
                try:
                    r = self.exec(n, ds)
                except Exception as e:
                    r = ("raise", e)
            return self.summary(m, c0, marks), r, self.now(), w.seen
        saved = self.now()
        try:
            cs = cur().cases(fn, facts)
        finally:
            self.put(saved)
        for conds, kind, v, *_ in cs:
            if kind == "exc":
                raise v
        return ds, facts, cs

    def summary(self, m, c0, marks):
        """locations of older objects written since the mark, with their values"""
        out = []
        byobj = {}
        for e in heap.LOG[m:]:
            if isinstance(e.loc, tuple) and e.loc[0] == "memo":
                continue
            o = owner(e)
            if getattr(o, "born", 0) > c0:
                continue
            byobj.setdefault(id(o), (o, []))[1].append(e)
        for o, es in byobj.values():
            if isinstance(o, Buf):
                for w in distinct(es):
                    out.append((o, w, buf_value(o, w)))
            elif hasattr(o, "keyed"):
                for w in distinct(es):
                    out.append((o, w, o.keyed(w)))
            else:
                for nm in sorted({e.loc[1] for e in es if isinstance(e.loc, tuple) and e.loc[0] == "attr"}):
                    out.append((o, ("attr", nm), o.__dict__.get(nm)))
                if any(not (isinstance(e.loc, tuple) and e.loc[0] == "attr") for e in es):
                    raise Unsupported("loop changes " + type(o).__name__)
        return out

    def run(self):
        ctx = cur()
        # which locations are written
        objs, attrs = {}, {}
        exits = False
        keep = set(self.cells)
        for rnd in range(4):
            for n in range(len(self.pieces)):
                ds, facts, cs = self.generic(n)
                for conds, kind, (ws, r, loc, seen), *_ in cs:
                    for o, w, v in ws:
                        if isinstance(w, tuple) and w and w[0] == "attr":
                            attrs[(id(o), w[1])] = o
                        else:
                            objs[id(o)] = o
                    if r is None:
                        for nm in list(keep):
                            if not unchanged(self.start[nm], loc[nm]):
                                keep.discard(nm)
            lost = [nm for nm in self.cells if nm not in keep and self.start[nm] is not UNBOUND and not isinstance(self.start[nm], Poison)]
            if not lost:
                break
            for nm in lost:
                self.start[nm] = Poison("variable " + nm)
        for nm in self.cells:
            if nm not in keep and self.start[nm] is UNBOUND:
                pass
        # the same with those locations havocked
        serial = next(_n)
        ints = {k: o for k, o in attrs.items() if isint(o.__dict__.get(k[1])) and not isinstance(o.__dict__.get(k[1]), bool)}
        counts = {}

        def prepare():
            for t, o in enumerate(objs.values()):
                if isinstance(o, Buf):
                    o.push(havoc_up(f"hav:{serial}.{t}"), None)
            for (i, nm), o in attrs.items():
                if (i, nm) in ints:
                    heap.setattr_(o, nm, SInt.var(f"hav:{serial}.{nm}"))
                else:
                    heap.setattr_(o, nm, Poison("attribute " + nm))
        modes = {}
        slots = {}
        keys = {}
        for n in range(len(self.pieces)):
            ds, facts, cs = self.generic(n, prepare)
            for conds, kind, (ws, r, loc, seen), *_ in cs:
                if any("hav:" in str(c) for c in conds):
                    raise Unsupported("an iteration depends on what another one wrote")
                if r is not None:
                    exits = True
                    if hav(r[1:]):
                        raise Unsupported("an iteration depends on what another one wrote")
                else:
                    for nm in keep:
                        if not unchanged(self.start[nm], loc[nm]):
                            raise Unsupported("loop variable " + nm)
                cnt = {}
                seen_attrs = set()
                for o, w, v in ws:
                    if isinstance(w, tuple) and w and w[0] == "attr":
                        k = (id(o), w[1])
                        if k not in attrs:
                            raise Unsupported("writes of a loop")
                        seen_attrs.add(k)
                        if k in ints and r is None:
                            d = v - SInt.var(f"hav:{serial}.{w[1]}") if isint(v) else None
                            d = SInt.of(d) if d is not None else None
                            if d is None or not d.isconst() or counts.setdefault(k, d.const()) != d.const():
                                ints.pop(k)
                        continue
                    if id(o) not in objs:
                        raise Unsupported("writes of a loop")
                    cnt[id(o)] = cnt.get(id(o), 0) + 1
                    if hav(w):
                        raise Unsupported("location depends on what another iteration wrote")
                    if isinstance(o, Buf):
                        for at, val, old in v:
                            if not hav(val):
                                kd = "set"
                            else:
                                delta = num(val) - num(old)
                                if hav(delta) or any(a.fn.startswith(("sum:", "ps:")) for a in R.of(delta).atoms()):
                                    raise Unsupported("an iteration depends on what another one wrote")
                                kd = "add"
                                if isinstance(delta, (int, float)) and delta == 0 or isinstance(delta, R) and ndarr.is_zero(delta):
                                    kd = None
                            if kd and modes.setdefault(id(o), kd) != kd:
                                raise Unsupported("a location is both set and added to")
                    else:
                        if hav(v):
                            raise Unsupported("an iteration depends on what another one wrote")
                if r is None:
                    for k in list(ints):
                        if k not in seen_attrs:
                            if counts.setdefault(k, 0) != 0:
                                ints.pop(k)
                for i, c in cnt.items():
                    slots[i] = max(slots.get(i, 0), c)
                for o, k in seen:
                    if id(o) in objs and not isinstance(o, Buf):
                        if k is None:
                            raise Unsupported("all of a mapping is used in a loop that changes it")
                        kk = o.lockey(k)
                        old = keys.setdefault((id(o), n), (o, ds, facts, conds, kk, k))
                        if old[4] != kk:
                            raise Unsupported("a loop that changes a mapping uses several of its keys")
        for (i, n), (o, ds, facts, conds, kk, k) in keys.items():
            self.injective(n, ds, facts, k, o)
        if sum(1 for o in objs.values() if not isinstance(o, Buf)) and len(self.pieces) > 1:
            self.disjoint(keys)
        for i, o in objs.items():
            if isinstance(o, Buf) and modes.get(i) == "set":
                self.buf_injective(o, slots[i])
            elif isinstance(o, Buf) and slots[i] > 1:
                raise Unsupported("several locations are added to by one element")
        # leaving the loop
        mode, star = 0, None
        if exits:
            mode = ctx.choose(1 + len(self.pieces), "loop exit")
            if mode:
                n = mode - 1
                p = self.pieces[n]
                star, facts = ndarr.fresh_digits(p.rads, "x")
                for f in facts:
                    ctx.assume(f)
                if p.filt is not None and not true(p.filt(star)):
                    raise PathAbort()
                nm = f"before{next(_n)}"
                self.before = lambda k, d: pred(f"{nm}.{k}", d)
                ctx.assume(core.bnot(self.before(n, star)))
        # the state after it
        for i, o in objs.items():
            if isinstance(o, Buf):
                if modes.get(i) == "set":
                    o.push(SetLayer(self, o, slots[i]).up(), None)
                elif modes.get(i) == "add":
                    o.push(AddLayer(self, o, slots[i]), None)
            else:
                o.add_layer(self)
        total = None
        for (i, nm), o in attrs.items():
            v = Poison("attribute " + nm)
            if (i, nm) in ints and self.before is None:
                if any(p.filt is not None for p in self.pieces):
                    v = Poison("attribute " + nm)
                else:
                    k = counts.get((i, nm), 0)
                    total = SInt.of(0)
                    for p in self.pieces:
                        total = total + prod(p.rads)
                    v = o.__dict__[nm] + k * total
            heap.setattr_(o, nm, v)
        end = {}
        for nm in self.cells:
            end[nm] = self.start[nm] if nm in keep else Poison("variable " + nm)
        if star is None:
            self.put(end)
            return None
        r = self.exec(mode - 1, star)
        if r is None:
            raise PathAbort()
        return r

    def injective(self, n, ds, facts, k, o):
        """different elements have different keys"""
        if not ds:
            return
        ctx = cur()
        p = self.pieces[n]
        names = [next(iter(d.atoms())) for d in ds]
        es, f2 = ndarr.fresh_digits(p.rads, "e")
        rename = dict(zip(names, es))

        def key(d):
            m = dict(zip(names, d))
            return subst(k, m)
        fam = Piece(p.rads, key)

        def body():
            for f, digs in ndarr.solve_piece(key(es), fam):
                if not ctx.entails(z3.Implies(f, z3.And([a == b.z() for a, b in zip(digs, es)]))):
                    raise Unsupported("elements of a loop may use the same key")
        for c, kind, v, *_ in ctx.cases(body, f2):
            if kind == "exc":
                raise v

    def disjoint(self, keys):
        ks = list(keys.items())
        for a in range(len(ks)):
            for b in range(a):
                (ia, na), (o, ds, facts, conds, kk, k) = ks[a]
                (ib, nb), (o2, ds2, facts2, conds2, kk2, k2) = ks[b]
                if ia != ib or na == nb:
                    continue
                names = [next(iter(d.atoms())) for d in ds2]
                fam = Piece(self.pieces[nb].rads, lambda d: subst(k2, dict(zip(names, d))), self.pieces[nb].filt)

                def body():
                    if self.pieces[na].filt is not None and not true(self.pieces[na].filt(ds)):
                        raise PathAbort()
                    for f, digs in ndarr.solve_piece(k, fam):
                        if not cur().entails(z3.Not(f)):
                            raise Unsupported("elements of a loop may use the same key")
                for c, kind, v, *_ in cur().cases(body, facts):
                    if kind == "exc":
                        raise v

    def buf_injective(self, o, nslots):
        """different elements set different locations"""
        ctx = cur()
        for n, p in enumerate(self.pieces):
            if not p.rads and len(self.pieces) == 1:
                continue
            ds, facts = ndarr.fresh_digits(p.rads, "e")

            def body():
                if p.filt is not None and not true(p.filt(ds)):
                    raise PathAbort()
                ws = self.wheres(n, ds, o)
                for w in ws:
                    for m, q in enumerate(self.pieces):
                        for s in range(nslots):
                            for cond, digs in solve_where(self, o, m, s, w):
                                if m == n and ds:
                                    g = z3.And([a.z() == b.z() for a, b in zip(digs, ds)])
                                elif m == n:
                                    g = z3.BoolVal(True)
                                else:
                                    g = z3.BoolVal(False)
                                if not ctx.entails(z3.Implies(core.bz(cond), g)):
                                    raise Unsupported("elements of a loop may set the same location")
            for c, kind, v, *_ in ctx.cases(body, facts):
                if kind == "exc":
                    raise v


def subst(k, m):
    if isinstance(k, tuple):
        return tuple(subst(x, m) for x in k)
    if isinstance(k, SInt):
        return k.subs(m)
    return k


def solve_where(loop, obj, n, slot, idx):
    """elements of piece n whose slot-th location of obj may be idx (None: any)"""
    p = loop.pieces[n]

    def elem(d):
        ws = loop.wheres(n, d, obj)
        if slot >= len(ws):
            raise PathAbort()
        w = ws[slot]
        return tuple(a for a, b in zip(w, idx) if a is not None and b is not None)

    def want():
        return tuple(SInt.of(F(b)) for b in idx)
    ws = set()
    # which axes are fixed by the writes
    ds, facts = ndarr.fresh_digits(p.rads, "e")

    def probe():
        if p.filt is not None and not true(p.filt(ds)):
            raise PathAbort()
        w = loop.wheres(n, ds, obj)
        if slot < len(w):
            ws.add(tuple(x is not None for x in w[slot]))
    for c, kind, v, *_ in cur().cases(probe, facts):
        if kind == "exc":
            raise v
    if not ws:
        return []
    if len(ws) > 1:
        raise Unsupported("locations of several shapes")
    fixed = ws.pop()
    x = tuple(SInt.of(F(b)) for a, b in zip(fixed, idx) if a and b is not None)
    return solve(x, Piece(p.rads, elem, p.filt))


class AddLayer:
    """every element of a loop adds to one location"""

    def __init__(self, loop, obj, slots):
        self.loop, self.obj, self.slots = loop, obj, slots

    def delta(self, idx):
        t = 0
        for n in range(len(self.loop.pieces)):
            for s in range(self.slots):
                for cond, digs in solve_where(self.loop, self.obj, n, s, idx):
                    if true(cond):
                        t = t + self.loop.after(n, digs, lambda: num(self.obj.reader()(idx))) - self.loop.at0(lambda: num(self.obj.reader()(idx)))
        return t


def at0(self, read):
    with heap.at(self.stamp):
        return read()


Loop.at0 = at0


class SetLayer:
    """every element of a loop sets locations of its own"""

    def __init__(self, loop, obj, slots):
        self.loop, self.obj, self.slots = loop, obj, slots

    def up(self):
        def inv(idx):
            for n in range(len(self.loop.pieces)):
                for s in range(self.slots):
                    for cond, digs in solve_where(self.loop, self.obj, n, s, idx):
                        if true(cond):
                            return True, (n, digs, idx)
            return False, None

        def val(w):
            n, digs, idx = w
            return self.loop.after(n, digs, lambda: self.obj.reader()(idx))
        return inv, val


def havoc_up(name):
    return (lambda idx: (True, idx), lambda idx: R.atom(name, tuple(SInt.of(F(i)) for i in idx)))


def owner(e):
    return getattr(e.obj, "store", e.obj)


def distinct(es):
    """the distinct locations of journal entries"""
    out, seen = [], set()
    for e in es:
        w = e.extra[1] if isinstance(e.extra, tuple) and e.extra and e.extra[0] == "where" else None
        if w is None:
            raise Unsupported("a loop over a symbolic collection changes " + type(e.obj).__name__)
        k = repr([x.key if isinstance(x, SInt) else x for x in w])
        if k not in seen:
            seen.add(k)
            out.append(w)
    return out


def buf_value(o, w):
    """[(index, value, value before)] for a location (None: any position of that axis)"""
    idx = []
    for ax, x in enumerate(w):
        if x is None:
            ds, facts = ndarr.fresh_digits(ndarr.factor_len(o.shape[ax]), "h")
            for f in facts:
                cur().assume(f)
            idx.append(ndarr.lin(ds, ndarr.factor_len(o.shape[ax])))
        else:
            idx.append(x)
    idx = tuple(idx)
    ups = o.ups
    k = next((t for t in range(len(ups) - 1, -1, -1) if type(ups[t]) is tuple and getattr(ups[t][1], "__name__", "") == "<lambda>" and ups[t][1].__qualname__.startswith("havoc_up")), -1)
    new = o.reader()(idx)
    old = new if k < 0 else ups[k][1](idx)
    return [(idx, new, old)]


def unchanged(a, b):
    if a is b:
        return True
    if a is UNBOUND or b is UNBOUND or isinstance(a, Poison) or isinstance(b, Poison):
        return False
    if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.key == b.key
    return False


def loop(it, body, names):
    """the whole loop; None, or how it was left"""
    r = Loop(it.coll, body, names).run()
    if r is not None and r[0] == "raise":
        raise r[1]
    return r


# ------------------------------------------------------------------ accumulation
def accumulate(coll, body, names):
    """A loop every iteration of which adds an amount of its own to some numbers and
    arrays (whole arrays), and does nothing else that lasts: afterwards they are what
    they were before plus the sum of the amounts. Checked with their contents
    havocked: the amount may not depend on them."""
    ctx = cur()
    if isinstance(coll, ndarr.NDArr):
        if len(coll.shape) != 1:
            raise Unsupported("loop over rows")
        snap = coll.snapshot()
        pieces = [Piece([coll.shape[0]], lambda d: snap[d[0]])]
    else:
        pieces = ndarr.pieces_of(coll)
    if any(p.filt is not None for p in pieces):
        raise Unsupported("loop over a filtered symbolic collection")
    born = next(ndarr.SERIAL)
    free = body.__code__.co_freevars
    cells = {n: body.__closure__[free.index(n)] for n in names if n in free}

    def now():
        out = {}
        for n, c in cells.items():
            try:
                out[n] = c.cell_contents
            except ValueError:
                out[n] = UNBOUND
        return out

    def put(vals):
        for n, c in cells.items():
            if vals[n] is UNBOUND:
                try:
                    del c.cell_contents
                except ValueError:
                    pass
            else:
                c.cell_contents = vals[n]
    start, stamp = now(), heap.stamp()

    def old_bufs(m):
        out = []
        for e in heap.LOG[m:]:
            if isinstance(e.loc, tuple) and e.loc[0] == "memo":
                continue
            if not isinstance(e.obj, Buf):
                raise Unsupported("a loop over a symbolic collection changes " + type(e.obj).__name__)
            if e.obj.born < born and not any(e.obj is b for b in out):
                out.append(e.obj)
        return out

    def generic(p, fn):
        ds, facts = ndarr.fresh_digits(p.rads, "e")
        try:
            cs = ctx.cases(lambda: fn(ds), facts)
        finally:
            put(start)
        for conds, kind, v, *_ in cs:
            if kind == "exc":
                raise v
        return cs
    # what is changed
    bufs, vals = [], {}
    for p in pieces:
        def first(ds):
            m = heap.mark()
            body(p.elem(ds))
            return old_bufs(m), now()
        for conds, kind, (bs, after), *_ in generic(p, first):
            bufs += [b for b in bs if not any(b is x for x in bufs)]
            for n, v in after.items():
                if v is not start[n] and not unchanged(start[n], v):
                    vals[n] = True
                    if isinstance(v, ndarr.NDArr) and isinstance(start[n], (R, SInt, int, float)) and not isinstance(start[n], bool):
                        # a number to which arrays are added
                        start[n] = ndarr.NDArr(v.shape, lambda idx, c=start[n]: R.of(c))
    temps = [n for n in vals if not (isinstance(start[n], (R, SInt, int, float, ndarr.NDArr)) and not isinstance(start[n], bool))]
    accs = [n for n in vals if n not in temps]
    serial = next(_n)
    hav0 = dict(start)
    for n in accs:
        v = start[n]
        if isinstance(v, ndarr.NDArr):
            hav0[n] = ndarr.NDArr(v.shape, (lambda n: lambda idx: R.atom(f"hav:{serial}.{n}", tuple(SInt.of(F(i)) for i in idx)))(n))
        else:
            hav0[n] = R.atom(f"hav:{serial}.{n}")
    for n in temps:
        hav0[n] = UNBOUND

    def havocked(p, ds, read):
        """read() after the body was run for one element with everything it changes arbitrary"""
        for t, b in enumerate(bufs):
            b.push(havoc_up(f"hav:{serial}.buf{t}"))
        put({n: h.copy() if n in accs and isinstance(h, ndarr.NDArr) else h for n, h in hav0.items()})
        m = heap.mark()
        body(p.elem(ds))
        if any(not any(b is x for x in bufs) for b in old_bufs(m)):
            raise Unsupported("writes of a loop")
        return read()

    def amount(k, idx):
        """what was added to location idx of accumulator k"""
        if isinstance(k, int):
            b = bufs[k]
            d = num(b.reader()(idx)) - R.atom(f"hav:{serial}.buf{k}", tuple(SInt.of(F(i)) for i in idx))
        else:
            v = cells[k].cell_contents
            h = hav0[k]
            d = num(v.at(idx) if isinstance(v, ndarr.NDArr) and False else v[idx] if isinstance(v, ndarr.NDArr) and v.shape else v) - (h[idx] if isinstance(h, ndarr.NDArr) and h.shape else h)
        d = R.of(d)
        if "hav:" in repr(d.norm()) or any(a.fn.startswith("sum:") for a in d.atoms()):
            raise Unsupported("an iteration of a loop depends on what others did")
        return d
    shapes = {k: b.shape for k, b in enumerate(bufs)}
    for n in accs:
        shapes[n] = start[n].shape if isinstance(start[n], ndarr.NDArr) else ()
    for p in pieces:
        def second(ds):
            def read():
                after = now()
                for n in cells:
                    if n in vals or after[n] is start[n] or unchanged(start[n], after[n]):
                        continue
                    raise Unsupported("variable of a loop")
                for n in accs:
                    if isinstance(start[n], ndarr.NDArr) and not (isinstance(after[n], ndarr.NDArr) and len(after[n].shape) == len(start[n].shape) and all(ndarr.same_len(x, y) for x, y in zip(after[n].shape, start[n].shape))):
                        raise Unsupported("variable of a loop")
                for k, sh in shapes.items():
                    idx, fs = ndarr.fresh_digits(list(sh), "h") if sh else ([], [])
                    for f in fs:
                        ctx.assume(f)
                    amount(k, tuple(idx))
            return havocked(p, ds, read)
        cs = generic(p, second)
        if len(cs) != 1 and any(len(c[0]) and "hav:" in str(c[0]) for c in cs):
            raise Unsupported("an iteration of a loop depends on what others did")

    def total(k, idx):
        t = R.of(0)
        for p in pieces:
            def elem(d):
                saved = now()
                try:
                    with heap.at(stamp):
                        return havocked(p, d, lambda: amount(k, idx))
                finally:
                    put(saved)
            t = t + ndarr.sum_or_zero(p.rads, elem)
        return t
    end = dict(start)
    for n in temps:
        end[n] = Poison("variable " + n)
    for n in accs:
        if isinstance(start[n], ndarr.NDArr):
            old = start[n].snapshot()
            end[n] = ndarr.NDArr(old.shape, (lambda n, old: lambda idx: num(old[idx] if old.shape else old.at()) + total(n, idx))(n, old))
        else:
            end[n] = start[n] + total(n, ())
    ups = []
    for k, b in enumerate(bufs):
        rd = b.reader()
        ups.append((b, (lambda idx: (True, idx), (lambda k, rd: lambda idx: num(rd(idx)) + total(k, idx))(k, rd))))
    for b, up in ups:
        b.push(up)
    put(end)
