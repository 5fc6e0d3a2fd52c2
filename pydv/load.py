"""Loads the real sources of reservoirflow from /repo, mechanically rewritten so
that loops, comprehensions, membership tests and displays go through the
engine; nothing else of the code is changed or dropped (docstrings aside)."""
import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import os
import sys
import types
from . import core, fakes, heap

REPO = os.environ.get("PYDV_REPO", "/repo")


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        node = self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_ImportFrom(self, node):
        if node.module == "functools":
            node.module = "pydv_fake_functools"
        elif node.module == "collections":
            node.module = "pydv_fake_collections"
        elif node.module == "concurrent.futures":
            node.module = "pydv_fake_futures"
        return node

    def visit_Import(self, node):
        for a in node.names:
            if a.name == "warnings":
                a.asname = a.asname or "warnings"
                a.name = "pydv_fake_warnings"
        return node

    def visit_For(self, node):
        searchy = self.searchy(node)
        node = self.generic_visit(node)
        node.iter = ast.Call(ast.Name("__pydv_iter__", ast.Load()), [node.iter, ast.Constant(searchy)], [])
        return node if searchy else self.as_body(node)

    def as_body(self, node):
        """for t in it: B  ->  it' = it; if it' is symbolic: (the loop rules, with B as a function) else: for t in it': B"""
        if not self.fn or node.orelse or any(isinstance(d, (ast.Global,)) for d in ast.walk(self.fn[-1])):
            return node
        names, bad = set(), []

        def scan(n, top):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Return, ast.Nonlocal)):
                bad.append(n)
            if isinstance(n, (ast.Break, ast.Continue)) and top:
                bad.append(n)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                return
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                names.update((a.asname or a.name).split(".")[0] for a in n.names)
            if isinstance(n, ast.Lambda):
                return
            for c in ast.iter_child_nodes(n):
                scan(c, top and not isinstance(n, (ast.For, ast.While)))
        scan(node.target, False)
        for b in node.body:
            scan(b, True)
        if bad or any(n.startswith("__") for n in names):
            return node
        self.k = getattr(self, "k", 0) + 1
        it, fn = f"_pydv_it{self.k}", f"_pydv_body{self.k}"
        names = sorted(names)
        body = ast.FunctionDef(fn, args(["_pydv_elem"]), [ast.Nonlocal(names), ast.Assign([node.target], ast.Name("_pydv_elem", ast.Load()))] + copy.deepcopy(node.body), [], None)
        call = ast.Expr(ast.Call(ast.Name("__pydv_loop__", ast.Load()), [ast.Name(it, ast.Load()), ast.Name(fn, ast.Load()), ast.Constant(tuple(names))], []))
        plain = copy.copy(node)
        plain.iter = ast.Name(it, ast.Load())
        return [ast.Assign([ast.Name(it, ast.Store())], node.iter),
                ast.If(ast.Call(ast.Name("__pydv_is_loop__", ast.Load()), [ast.Name(it, ast.Load())], []), [body, call], [plain])]

    def searchy(self, loop):
        """the body neither stores nor accumulates: it only tests and leaves"""
        stores = set()
        for n in ast.walk(ast.Module(loop.body + loop.orelse, [])):
            if isinstance(n, (ast.AugAssign, ast.Delete, ast.Global, ast.Nonlocal, ast.Yield, ast.With, ast.Import)):
                return False
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.add(n.id)
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "add", "update", "pop", "insert", "remove", "clear", "setdefault"):
                return False
        if stores and self.fn:
            inside = sum(1 for n in ast.walk(ast.Module(loop.body + loop.orelse, [])) if isinstance(n, ast.Name) and n.id in stores)
            total = sum(1 for n in ast.walk(self.fn[-1]) if isinstance(n, ast.Name) and n.id in stores)
            if total > inside:
                # a flag set before leaving the loop (found = True; break) is fine
                leaves = [n for n in loop.body if isinstance(n, ast.If) and n.body and isinstance(n.body[-1], (ast.Break, ast.Return)) and not n.orelse]
                if not (len(loop.body) == 1 and len(leaves) == 1):
                    return False
        return True

    def comp(self, node, kind, elt):
        node = self.generic_visit(node)
        elt = [node.key, node.value] if isinstance(node, ast.DictComp) else node.elt
        if isinstance(elt, list):
            elt = ast.Tuple(elt, ast.Load())
        if len(node.generators) != 1 or node.generators[0].is_async:
            for g in node.generators:
                g.iter = ast.Call(ast.Name("__pydv_iter__", ast.Load()), [g.iter, ast.Constant(False)], [])
            return node
        g = node.generators[0]

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args([g.target.id]), body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(args([e.id for e in g.target.elts]), body)
                return ast.Lambda(args(["__t"]), ast.Call(inner, [ast.Starred(ast.Name("__t", ast.Load()), ast.Load())], []))
            return None
        f = lam(elt)
        if f is None:
            g.iter = ast.Call(ast.Name("__pydv_iter__", ast.Load()), [g.iter, ast.Constant(False)], [])
            return node
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return ast.Call(ast.Name("__pydv_comp__", ast.Load()), [ast.Constant(kind), g.iter, f, cond], [])

    def visit_ListComp(self, n):
        return self.comp(n, "list", n.elt)

    def visit_SetComp(self, n):
        return self.comp(n, "set", n.elt)

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen", n.elt)

    def visit_DictComp(self, n):
        return self.comp(n, "dict", None)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if node.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in node.keys):
            return ast.Call(ast.Name("__pydv_jdict__", ast.Load()), [node], [])
        if any(k is None for k in node.keys):
            return node
        return ast.Call(ast.Name("__pydv_dict__", ast.Load()), [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())], [])

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.Call(ast.Name("__pydv_set__", ast.Load()), [ast.List(node.elts, ast.Load())], [])

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name("__pydv_list__", ast.Load()), [node], [])
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "__pydv_in__" if isinstance(node.ops[0], ast.In) else "__pydv_notin__"
            return ast.Call(ast.Name(name, ast.Load()), [node.left, node.comparators[0]], [])
        return node

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name("Exception", ast.Load())
        return node


def args(names):
    return ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])


SKIP = {"reservoirflow.utils.profme"}


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg, name):
        self.path, self.ispkg, self.name = path, ispkg, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__.update(fakes.OVERRIDES)
        module.__dict__.update(fakes.HOOKS)
        if self.name in SKIP:
            module.cProfiler = None
            return
        if self.name == "reservoirflow.utils.pyvista":
            module.show_grid = module.show_model = module.save_gif = lambda *a, **k: (_ for _ in ()).throw(core.Unsupported("plotting"))
            return
        src = open(self.path, encoding="utf-8").read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, self.path)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        exec(compile(tree, self.path, "exec"), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "reservoirflow" and not name.startswith("reservoirflow."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            p, ispkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            p, ispkg = base + ".py", False
        else:
            return None
        return importlib.machinery.ModuleSpec(name, Loader(p, ispkg, name), origin=p, is_package=ispkg)


_loaded = {}


def load():
    """import the package; returns the reservoirflow module"""
    if "rf" in _loaded:
        return _loaded["rf"]
    saved = {}
    from . import fakelibs
    for name, m in fakelibs.modules().items():
        saved[name] = sys.modules.get(name)
        sys.modules[name] = m
    sys.meta_path.insert(0, Finder())
    import reservoirflow as rf
    import importlib
    for sub in ("grids.regular_cartesian", "models.black_oil", "solutions.compiler", "solutions.numerical.fdm", "solutions.numerical.solvers",
                "solutions.analytical.d1p1", "scalers.minmax", "scalers.dummy", "fluids.single_phase", "wells.single_cell"):
        importlib.import_module("reservoirflow." + sub)
    # corner points only feed pyvista, whose contract is assumed (see fakes.ExplicitStructuredGrid)
    rf.grids.RegularCartesian.get_corners = lambda self, boundary=True: ("corners", boundary)
    for name, m in saved.items():
        if m is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = m
    for name, m in fakelibs.modules().items():
        # imports executed lazily inside functions still need the models
        sys.modules.setdefault(name, m)
    heap.journal_classes([v for n, m in list(sys.modules.items()) if m is not None and n.startswith("reservoirflow") for v in vars(m).values()
                          if isinstance(v, type) and v.__module__.startswith("reservoirflow")])
    _loaded["rf"] = rf
    return rf
