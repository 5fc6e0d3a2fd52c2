"""Per-property settings and the statement of what is trusted."""
TRUSTED = [
    "pydv itself: the mechanical rewriting of the sources (loops, comprehensions, displays and membership tests go through the engine), the symbolic semantics of Python and of the numpy operations used, and the obligation generator",
    "z3 4.x through its python binding",
    "machine arithmetic is treated as mathematical: integers are unbounded, floats are exact reals (no rounding, overflow or nan)",
    "functools.lru_cache is a memo table keyed by arguments and keyword shape, without eviction",
]
GRID_ASSUME = [
    "grid preconditions: every flow direction has at least 2 cells (1 otherwise), sizes positive, one size per position of a flow axis",
    "pyvista.ExplicitStructuredGrid.cell_id/cell_coords follow natural order (assumed contract of the dependency, exercised by the bounded runs); get_corners is not verified",
]
SIM_ASSUME = GRID_ASSUME + [
    "models have at most two wells and two boundary conditions per unit, each in an arbitrary symbolic cell of a grid of arbitrary symbolic size; more of them, and all combinations, only in the bounded runs",
    "the geometry factors of grid and wells satisfy their contracts (C04, C07) and enter as arbitrary positive numbers per face and well",
    "grid properties and boundary conditions are not changed after the model is created, conditions not after it is compiled",
    "scipy.sparse matrices mean the dense matrix they represent (assumed contract of the dependency)",
]
STEP_ASSUME = SIM_ASSUME + [
    "a solver answers with some pressures of its own choosing (nothing is assumed about them but that the same values are stored and used); that its answer satisfies the system it is given is the assumed contract of scipy",
    "the assembly is replaced by its contract (C08, C09) where a step is verified: some system, made for the step and the controls at the call",
    "every well has a rate or a bottom-hole pressure, and a well without a pressure has the limit 0, as the code documents",
]
TECHNIQUE = "contract-based deductive verification: obligations generated from the real Python source by symbolic execution, discharged by z3"
NOTE = ("Every obligation of the contract units is discharged for all inputs and sizes within the stated preconditions, from the sources as they are on each run. "
        "Trusted: the engine pydv (semantics of Python/numpy operations used), z3, exact reals instead of floats. A unit the engine cannot decide falls back to a bounded concrete run and is reported as undecided in the evidence, not as discharged.")
NA = {}
P = {
    "C01": dict(assumptions=GRID_ASSUME),
    "C02": dict(assumptions=GRID_ASSUME),
    "C03": dict(assumptions=GRID_ASSUME + ["pyvista variants (pyvista=True) of volumes and centers are outside the contracts"]),
    "C04": dict(assumptions=GRID_ASSUME + ["scipy.sparse matrices mean the dense matrix they represent (assumed contract of the dependency)", "the quick tier discharges the matrix units with one size and permeability per cell; uniform sizes or permeabilities (scalars) are added in the thorough tier"]),
    "C05": dict(assumptions=GRID_ASSUME + ["the retention of values handed out earlier is not part of the property: arrays returned by get_prop are views of the property", "quick tier: geometry factors after a single-cell change are discharged for one and two flow directions; three directions in the thorough tier"]),
    "C06": dict(assumptions=["an unknown unit system is any string that is none of field, metric, lab; names of the tables of units and factors are those recorded in the contract"]),
    "C07": dict(assumptions=GRID_ASSUME + ["flow directions x, xy, xyz (the code rejects wells in the others) and field units", "a radius is given with every new well; numpy.log is an uninterpreted function; fractional powers of positive values are exact"]),
    "C08": dict(assumptions=SIM_ASSUME),
    "C09": dict(oracle_budget=100, concrete_budget=30, assumptions=SIM_ASSUME + ["sympy: the coefficients of an expression are those of the linear function it is (assumed contract of the dependency)", "the loop over all cells that puts the equations into the system is verified for grids of 2 to 18 cells with arbitrary equations (get_cell_eq by contract); the equation of a cell is verified for grids of every size"]),
    "C10": dict(concrete_budget=30, assumptions=STEP_ASSUME + ["set_all_boundaries is decided in the bounded runs only"]),
    "C12": dict(concrete_budget=30, lemmas=["lemmas/Balance.lean"], assumptions=STEP_ASSUME + ["that the sum over all cells of fluxes that cancel pairwise is zero, and that the sum over cells of the rates at their wells and faces is the sum of all reported rates, is the finite-sum lemma of lemmas/Balance.lean (each boundary touches at most one interior cell, each well lies in one: C02, C07)"]),
    "C11": dict(assumptions=STEP_ASSUME, concrete_budget=20),
    "C13": dict(concrete_budget=20, assumptions=STEP_ASSUME + ["runs of 0 to 3 steps; longer runs follow from the contract of one step, which holds from every state (every step number, all pressures and rates)"]),
    "C18": dict(concrete_budget=30, assumptions=STEP_ASSUME + ["solution classes that are not implemented are replaced by probes when names are checked; sparse is a bool"]),
    "C17": dict(concrete_budget=30, assumptions=GRID_ASSUME[:1] + ["a homogeneous reservoir (one permeability, the same along all axes, and one porosity) with not all given pressures equal, boundary pressures set before compiling, solution pressures as compiled", "cell centers enter by their contract (C03) for grids with a size per cell; grids with one size are verified through get_cells_center itself", "numpy.sin, numpy.exp and pi: sin of an integer multiple of pi is 0, sin 0 is 0, exp 0 is 1; otherwise uninterpreted functions", "sums are linear and their factors that do not depend on the term can be taken out; the extremes of an array whose elements increase are at its ends (induction)", "field units (the factors of the other systems: C06; bounded runs)"]),
    "C15": dict(concrete_budget=30, assumptions=GRID_ASSUME[:1] + ["pandas by contract (pydv/fakepandas.py): a table of columns is what it was made from, concat(axis=1) of tables over the same rows puts them side by side, dropna and loc keep in order the rows or columns for which their condition holds, the s-th date of date_range is its start moved by s frequencies", "a scaled table is decided for scalers that are linear maps (C16)", "tables of well columns only are asked of models with wells; saving to a file is outside the contracts"]),
    "C14": dict(concrete_budget=30, assumptions=STEP_ASSUME + ["any interleaving is a sequence of single operations; each is shown to leave the grid, the fluid, arrays handed out, the other models and the other solutions as they were (induction over the sequence)", "caches never forget an entry (an entry that was forgotten is computed again)", "a second solution of a model with a rate well is covered while the well was not held at its limit (otherwise: the known finding)"]),
    "C16": dict(assumptions=["numpy min, max and ptp along an axis: every element lies between the extremes of its column (or of the array); that an extreme is attained is used by no obligation"]),
}


def of(prop, tier):
    d = dict(prove=True, lemmas=[], level="proof", trusted=[], assumptions=[], explanation="", jobs=7, unit_budget=100, prove_deadline=240, oracle_budget=40,
             oracle_shards=1, cross=1, fallback=12, concrete_budget=60)
    if tier == "thorough":
        d.update(unit_budget=300, prove_deadline=480, oracle_budget=200, oracle_shards=3, cross=6, fallback=60, concrete_budget=120)
    d.update(P.get(prop, {}))
    if tier == "thorough" and "thorough" in d:
        d.update(d["thorough"])
    return d
