"""C06: units, hydrostatic gradient, compressibility."""
from fractions import Fraction
from .common import *
from ..symstr import unknown

SYSTEMS = ("field", "metric", "lab")
FACT = {
    "field": {"gravitational acceleration": 32.174, "transmissibility conversion": 0.001127, "gravity conversion": 0.21584e-3, "volume conversion": 5.614583},
    "metric": {"gravitational acceleration": 9.806635, "transmissibility conversion": 0.0864, "gravity conversion": 0.001, "volume conversion": 1},
    "lab": {"gravitational acceleration": 980.6635, "transmissibility conversion": 1, "gravity conversion": 0.986923e-6, "volume conversion": 1},
}
NAMES = {'field': {'transmissibility': 'stb/(day.psi)',
           'error': 'stb/day',
           'pressure': 'psia',
           'potential': 'psia',
           'time': 'days',
           'rate': 'stb/day',
           'length': 'ft',
           'area': 'ft^2',
           'volume': 'ft^3',
           'permeability': 'md',
           'viscosity': 'cp',
           'gas formation volume factor': 'bbl/scf',
           'liquid formation volume factor': 'bbl/stb',
           'solution gas oil ratio': 'scf/stb',
           'phase gravity': 'psi/ft',
           'gas flow rate': 'scf/day',
           'liquid flow rate': 'stb/day',
           'volumetric velocity': 'bbl/(day.ft^2)',
           'density': 'lbm/ft^3',
           'compressibility': 'psi^{-1}',
           'compressibility factor': 'dimensionless',
           'temperature': 'R',
           'porosity': 'fraction',
           'saturation': 'fraction',
           'relative permeability': 'fraction',
           'angle': 'rad',
           'gravitational acceleration': 'ft/(sec^2)',
           'transmissibility conversion': 'dimensionless',
           'gravity conversion': 'dimensionless',
           'volume conversion': 'dimensionless'},
 'metric': {'transmissibility': 'm^3/(day.bar)',
            'error': 'm^3/day',
            'pressure': 'kpa',
            'potential': 'kpa',
            'time': 'days',
            'rate': 'm^3/day',
            'length': 'm',
            'area': 'm^2',
            'volume': 'm^3',
            'permeability': 'm^2',
            'viscosity': 'mpa.sec',
            'gas formation volume factor': 'm^3/(std\\,m^3)',
            'liquid formation volume factor': 'm^3/(std\\,m^3)',
            'solution gas oil ratio': '(std\\,m^3)/(std\\,m^3)',
            'phase gravity': 'kpa/m',
            'gas flow rate': '(std\\,m^3)/day',
            'liquid flow rate': '(std\\,m^3)/day',
            'volumetric velocity': 'm/day',
            'density': 'kg/m^3',
            'compressibility': 'kpa^{-1}',
            'compressibility factor': 'dimensionless',
            'temperature': 'K',
            'porosity': 'fraction',
            'saturation': 'fraction',
            'relative permeability': 'fraction',
            'angle': 'rad',
            'gravitational acceleration': 'm/(sec^2)',
            'transmissibility conversion': 'dimensionless',
            'gravity conversion': 'dimensionless',
            'volume conversion': 'dimensionless'},
 'lab': {'transmissibility': 'cm^3/(sec.atm)',
         'error': 'cm^3/sec',
         'pressure': 'atm',
         'potential': 'atm',
         'time': 'sec',
         'rate': 'cm^3/sec',
         'length': 'cm',
         'area': 'cm^2',
         'volume': 'cm^3',
         'permeability': 'darcy',
         'viscosity': 'cp',
         'gas formation volume factor': 'cm^3/(std\\,cm^3)',
         'liquid formation volume factor': 'cm^3/(std\\,cm^3)',
         'solution gas oil ratio': '(std\\,cm^3)/(std\\,cm^3)',
         'phase gravity': 'atm/cm',
         'gas flow rate': '(std\\,cm^3)/day',
         'liquid flow rate': '(std\\,cm^3)/day',
         'volumetric velocity': 'cm/day',
         'density': 'g/cm^3',
         'compressibility': 'atm^{-1}',
         'compressibility factor': 'dimensionless',
         'temperature': 'K',
         'porosity': 'fraction',
         'saturation': 'fraction',
         'relative permeability': 'fraction',
         'angle': 'rad',
         'gravitational acceleration': 'cm/(sec^2)',
         'transmissibility conversion': 'dimensionless',
         'gravity conversion': 'dimensionless',
         'volume conversion': 'dimensionless'}}


def grav(unit, rho):
    f = FACT[unit]
    return R.of(f["gravity conversion"]) * R.of(f["gravitational acceleration"]) * rho


def check_units(u, o, unit, what):
    u.eq(f"{what}: unit", o.unit, unit)
    for k, v in FACT[unit].items():
        u.eq(f"{what}: factor {k}", o.factors[k], v)
    for k, v in NAMES[unit].items():
        u.eq(f"{what}: unit name {k}", o.units[k], v)


def objects(unit):
    rf = load.load()
    f = rf.fluids.SinglePhase(mu=R.atom("MU", (), True), B=R.atom("FVF", (), True), rho=R.atom("RHO", (), True), comp=0, unit=unit)
    g = grid("x", True, units=unit)
    m = blackoil(g, f, unit=unit)
    return dict(fluid=f, grid=g.obj, model=m)


def mkunits(unit):
    def units_(u):
        rf = load.load()
        for what, o in objects(unit).items():
            check_units(u, o, unit, what)
            for other in SYSTEMS:
                o.set_units(other)
                check_units(u, o, other, what + " after set_units")
                u.raises(f"{what}: unknown unit system", ValueError, lambda: o.set_units(unknown(u, "imperial")))
                check_units(u, o, other, what + " after a rejected system")
        u.raises("unknown unit system of a fluid", ValueError, lambda: rf.fluids.SinglePhase(mu=1, B=1, unit=unknown(u)))
        u.raises("unknown unit system of a grid", ValueError, lambda: rf.grids.RegularCartesian(3, 1, 1, 1, 1, 1, unit=unknown(u)))
        b = rf.base.Base(unit, "double", False)
        check_units(u, b, unit, "base")
        a = rf.base.Base("field", "double", False)
        b.set_units("lab")
        check_units(u, a, "field", "another object")
    return units_


def mkgrav(unit):
    def gravity(u):
        rf = load.load()
        r1, r2, r3 = (R.atom(x, ()) for x in ("RHO1", "RHO2", "RHO3"))
        mu, B = R.atom("MU", (), True), R.atom("FVF", (), True)
        f = rf.fluids.SinglePhase(mu=mu, B=B, rho=r1, unit=unit)
        u.eq("g", (f.mu, f.B, f.rho, f.g), (mu, B, r1, grav(unit, r1)))
        f.set_rho(r2)
        u.eq("g after set_rho", (f.mu, f.B, f.rho, f.g), (mu, B, r2, grav(unit, r2)))
        f.set_props(rho=r3)
        u.eq("g after set_props", (f.mu, f.B, f.rho, f.g), (mu, B, r3, grav(unit, r3)))
        f.set_props(mu=r1, B=r2)
        u.eq("g kept by other properties", (f.mu, f.B, f.rho, f.g), (r1, r2, r3, grav(unit, r3)))
        for other in SYSTEMS:
            f.set_units(other)
            u.eq("g after set_units", (f.mu, f.B, f.rho, f.g), (r1, r2, r3, grav(other, r3)))
        f.set_mu(mu)
        f.set_B(B)
        u.eq("g kept by set_mu, set_B", (f.mu, f.B, f.rho, f.g), (mu, B, r3, grav("lab", r3)))
        d = rf.fluids.SinglePhase(mu=mu, B=B, unit=unit)
        u.eq("default density", (d.rho, d.g), (0, 0))
    return gravity


def classify(u, o, v, what):
    """set_comp(v) on o: rejected iff negative, classified otherwise"""
    if v < 0:
        return u.raises(f"{what}: negative compressibility", ValueError, lambda: o.set_comp(v))
    o.set_comp(v)
    u.eq(f"{what}: comp", o.comp, v)
    u.eq(f"{what}: type", o.comp_type, "incompressible" if v == 0 else "compressible")


def mkcomp(which):
    def comp(u):
        rf = load.load()
        if which == "fluid":
            mk = lambda **k: rf.fluids.SinglePhase(mu=1, B=1, **k)
        elif which == "grid":
            mk = lambda **k: grid("x", True, k="scalar", **k).obj
        else:
            mk = lambda **k: blackoil(grid("x", True, k="scalar"), fluid())
        o = mk()
        u.eq("default comp", o.comp, 0)
        u.eq("default type", o.comp_type, "incompressible")
        for v in (0, R.atom("CA", ()), R.atom("CB", ()), 0, R.atom("CC", ())):
            classify(u, o, v, "set_comp")
        if which == "model":
            return
        c = R.atom("CD", ())
        for v in (c, 0):
            if v < 0:
                u.raises("constructor: negative compressibility", ValueError, lambda: mk(comp=v))
            else:
                o = mk(comp=v)
                u.eq("constructor: comp", o.comp, v)
                u.eq("constructor: type", o.comp_type, "incompressible" if v == 0 else "compressible")
        if not c < 0:
            o = mk()
            o.set_props(comp=c)
            u.eq("set_props: comp", o.comp, c)
            u.eq("set_props: type", o.comp_type, "incompressible" if c == 0 else "compressible")
            o.set_props()
            u.eq("set_props keeps comp", o.comp, c)
            u.eq("set_props keeps type", o.comp_type, "incompressible" if c == 0 else "compressible")
    return comp


def total_comp(u, flow, un):
    """the compressibility of a model is the sum of those of its fluid and grid"""
    cf, cr = R.atom("CF", ()), R.atom("CR", ())
    if cf < 0:
        return u.note("precondition", True) if hasattr(u, "note") else u.holds("precondition", True)
    if cr < 0:
        return u.note("precondition", True) if hasattr(u, "note") else u.holds("precondition", True)
    g = grid(flow, un, comp=cr)
    f = fluid(comp=cf)
    m = blackoil(g, f)
    u.eq("sum", m.comp, cf + cr)
    u.eq("type", m.comp_type, "incompressible" if bool(cf == 0) and bool(cr == 0) else "compressible")
    for a, b in ((0, cr), (cf, 0), (0, 0)):
        m = blackoil(grid(flow, un, k="scalar", comp=b), fluid(comp=a))
        u.eq("sum, zero part", m.comp, a + b)
        u.eq("type, zero part", m.comp_type, "incompressible" if bool((a + b) == 0) else "compressible")


def units():
    out = []
    for s in SYSTEMS:
        out.append(Unit(f"units[{s}]", mkunits(s), ("set_units", "__init__")))
        out.append(Unit(f"gravity[{s}]", mkgrav(s), ("set_rho", "set_props", "set_units", "set_mu", "set_B")))
    for w in ("fluid", "grid", "model"):
        out.append(Unit(f"compressibility[{w}]", mkcomp(w), ("Fluid.set_comp", "Grid.set_comp", "Model.set_comp")))
    out += per_config("total compressibility", total_comp, ("BlackOil.__calc_comp",))
    return out
