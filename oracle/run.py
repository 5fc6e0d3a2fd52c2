"""python run.py --property C01 --tier quick --seed 1 --out OUT.json [--replay FILE] [--budget S] [--hint FILE]"""
import argparse, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *


def table():
    import grids
    t = {k: getattr(grids, k) for k in ("C01", "C02", "C03", "C04", "C05")}
    try:
        import misc
        t.update({k: getattr(misc, k) for k in dir(misc) if k[0] == "C" and k[1:].isdigit()})
        import sim
        t.update({k: getattr(sim, k) for k in dir(sim) if k[0] == "C" and k[1:].isdigit()})
    except ModuleNotFoundError:
        pass
    return t


def one(mod, case):
    try:
        mod.check(case)
        return None
    except Mismatch as e:
        return str(e)[:1500]
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return f"raised {type(e).__name__}: {str(e)[:600]} at {where}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=90)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--hint")
    a = ap.parse_args()
    mod = table()[a.property]
    import reservoirflow
    assert os.path.realpath(reservoirflow.__file__).startswith(os.path.realpath(REPO)), reservoirflow.__file__
    t0 = time.time()
    res = dict(property=a.property, cases=0, distinct=0, failures=[], samples=[], rule=mod.rule, known=[])
    if a.replay:
        rep = json.load(open(a.replay))
        cases = [rep["case"]] if rep.get("case") else []
    else:
        rng = np.random.default_rng(a.seed)
        cases = mod.cases(rng, a.tier)
        if a.hint:
            hints = json.load(open(a.hint))
            cases = itertools.chain((c for h in hints for c in mod.from_hint(h, rng)) if hasattr(mod, "from_hint") else [], cases)
    seen = set()
    for case in cases:
        if time.time() - t0 > a.budget:
            res["truncated"] = True
            break
        res["cases"] += 1
        key = json.dumps(case, sort_keys=True)
        if key not in seen:
            seen.add(key)
            res["distinct"] += 1
        msg = one(mod, case)
        if len(res["samples"]) < 2 and len(key) < 2500:
            res["samples"].append(case)
        if msg is not None:
            known = mod.known(case, msg) if hasattr(mod, "known") else None
            if known:
                if known not in res["known"]:
                    res["known"].append(known)
                continue
            res["failures"].append(dict(case=case, message=msg))
            if len(res["failures"]) >= 3:
                break
    if not res["samples"]:
        res["samples"].append(json.loads(min(seen, key=len)) if seen else None)
    res["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    print(json.dumps({k: v for k, v in res.items() if k not in ("samples",)}, indent=1)[:3000])


if __name__ == "__main__":
    main()
