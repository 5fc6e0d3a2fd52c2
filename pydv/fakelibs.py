"""The fake modules installed while the sources are imported."""
import types
from . import core, fakes, ndarr
from .fakes import FakeModule, Recorder, mod

_cache = {}


def modules():
    if _cache:
        return _cache
    np = fakes.make_numpy()
    c = _cache
    c["numpy"] = np
    c["pyvista"] = mod("pyvista", ExplicitStructuredGrid=fakes.ExplicitStructuredGrid)
    try:
        from . import fakesparse
        c.update(fakesparse.modules())
    except ImportError:
        c["scipy"] = mod("scipy")
        c["scipy.sparse"] = mod("scipy.sparse")
        c["scipy.linalg"] = mod("scipy.linalg")
        c["scipy.sparse.linalg"] = mod("scipy.sparse.linalg")
        c["scipy"].sparse = c["scipy.sparse"]
        c["scipy"].linalg = c["scipy.linalg"]
        c["scipy.sparse"].linalg = c["scipy.sparse.linalg"]
    try:
        from . import fakesympy
        c["sympy"] = fakesympy.module()
    except ImportError:
        c["sympy"] = mod("sympy")
    try:
        from . import fakepandas
        c["pandas"] = fakepandas.module()
    except ImportError:
        c["pandas"] = mod("pandas")
    plt = mod("matplotlib.pyplot")
    c["matplotlib"] = mod("matplotlib", pyplot=plt)
    c["matplotlib.pyplot"] = plt

    class Bar:
        def __init__(self, it, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def sym_loop(self, searchy):
            return fakes.h_iter(self.it, searchy)

        def set_description(self, *a):
            pass
    c["tqdm"] = mod("tqdm", tqdm=Bar)
    c["tabulate"] = mod("tabulate", tabulate=lambda *a, **k: "")
    ff = types.ModuleType("pydv_fake_functools")
    import functools
    ff.__dict__.update({k: getattr(functools, k) for k in ("wraps", "partial", "reduce", "update_wrapper", "total_ordering")})
    ff.lru_cache = fakes.lru_cache
    ff.cache = lambda f: fakes.CachedFn(f)
    ff.cached_property = functools.cached_property
    c["pydv_fake_functools"] = ff
    fc = types.ModuleType("pydv_fake_collections")
    import collections
    fc.__dict__.update({k: getattr(collections, k) for k in ("namedtuple", "deque", "Counter", "OrderedDict")})
    fc.defaultdict = fakes.SDefaultDict
    fc.OrderedDict = fakes.SDict
    c["pydv_fake_collections"] = fc
    fu = mod("pydv_fake_futures")

    class TPE:
        """executor.map is modelled by calls in order (assumed: no interference between threads)"""

        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def map(self, f, *xs):
            return fakes.comp("list", xs[0], f, None)
    fu.ThreadPoolExecutor = TPE
    c["pydv_fake_futures"] = fu
    w = types.ModuleType("pydv_fake_warnings")
    w.warn = lambda *a, **k: fakes.WARNED.append(a)
    c["pydv_fake_warnings"] = w
    return c
