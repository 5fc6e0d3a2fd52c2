#!/usr/bin/env python3
"""Decides one property of /repo's current source.

  check.py C01 [--tier quick|thorough]     run the check
  check.py C01 --replay FILE               run a recorded counterexample again

1. The deductive verifier (pydv) generates the obligations of every contract
   unit from /repo's current source and discharges them (all inputs, all sizes).
2. Every counter-model is replayed on the real code; units the verifier could
   not decide are run on the real code with random values (bounded stand-in),
   and so is one random instance of each proved unit (cross-check of the engine).
3. An independent concrete oracle exercises the whole property (bounded).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYDV_REPO", "/repo")
VENV = "/opt/venv/bin/python"
PROVER = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
sys.path.insert(0, HERE)
import config  # noqa: E402


def run_json(cmd, out, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, start_new_session=True)
    return p, out, time.time() + timeout


def collect(job):
    p, out, end = job
    try:
        _, err = p.communicate(timeout=max(1, end - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "time limit"
    if os.path.exists(out):
        try:
            return json.load(open(out)), None
        except ValueError:
            pass
    return None, (err or b"").decode(errors="replace")[-1500:]


def known_findings():
    out = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("finding: "):
            d = dict(t.split("=", 1) for t in line[9:].split(" | ")[0].split())
            out.setdefault(d["property"], {})[d["key"]] = line.split(" | ", 1)[1]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cfg = config.of(prop, tier)
    tmp = tempfile.mkdtemp(prefix="pydv_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLCONFIGDIR=tmp, PYDV_TIER=tier)
    try:
        if a.replay:
            return replay(prop, a.replay, tmp, env)
        return check(prop, tier, seed, cfg, tmp, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(prop, path, tmp, env):
    r = json.load(open(path))
    out = os.path.join(tmp, "r.json")
    if r.get("kind") == "oracle":
        cmd = [VENV, "oracle/run.py", "--property", prop, "--replay", os.path.abspath(path), "--out", out]
    elif r.get("kind") == "unit":
        cmd = [VENV, "pydv/concrete.py", "--property", prop, "--replay", os.path.abspath(path), "--out", out]
    else:
        print("no failing input recorded; obligation:", json.dumps(r, indent=1)[:3000])
        return 1
    res, err = collect(run_json(cmd, out, 300, env))
    if res is None:
        print("replay did not run:", err)
        return 2
    for f in res["failures"]:
        print("reproduced:", f["message"])
    return 1 if res["failures"] else 0


def check(prop, tier, seed, cfg, tmp, env):
    t0 = time.time()
    oracles = []
    for k in range(cfg["oracle_shards"]):
        o = os.path.join(tmp, f"oracle{k}.json")
        cmd = [VENV, "oracle/run.py", "--property", prop, "--tier", tier, "--seed", str(seed + 1000 * k), "--budget", str(cfg["oracle_budget"]), "--out", o]
        oracles.append(run_json(cmd, o, cfg["oracle_budget"] * 1.5 + 60, env))
    pres = dict(error=None, results=[])
    if cfg["prove"]:
        o = os.path.join(tmp, "prove.json")
        cmd = [PROVER, "-m", "pydv.prove", prop, "--json", o, "--jobs", str(cfg["jobs"]), "--budget", str(cfg["unit_budget"]), "--deadline", str(cfg["prove_deadline"])]
        got, err = collect(run_json(cmd, o, cfg["prove_deadline"] + 60, env))
        pres = got if got is not None else dict(error="engine: " + str(err), results=[])
    results = pres["results"]
    lemmas = []
    for f in cfg["lemmas"]:
        lean, t1 = shutil.which("lean"), time.time()
        try:
            p = subprocess.run([lean or "lean", os.path.join(HERE, f)], cwd=tmp, env=env, timeout=300, capture_output=True, text=True)
            text = p.stdout + p.stderr
            ok = p.returncode == 0 and "sorry" not in text
        except (OSError, subprocess.TimeoutExpired) as e:
            ok, text = False, str(e)
        src = open(os.path.join(HERE, f)).read()
        lemmas.append(dict(file=f, theorems=[ln.split()[1] for ln in src.splitlines() if ln.startswith("theorem ")], back_end="Lean 4 kernel", accepted=ok, wall_s=round(time.time() - t1, 2)))
        if not ok:
            pres["results"] = results = results + [dict(unit="lemma " + f, status="undecided", error="lean: " + text[-300:], obligations=[], paths=0, queries=0, solver_s=0, covers=[], unknown=True)]

    # replay counter-models, run undecided units, cross-check proved ones
    jobs = []
    for r in results:
        bad = [ob for ob in r["obligations"] if ob["status"] != "proved"]
        models = []
        for ob in bad:
            if ob.get("hint") and ob["hint"] not in models:
                models.append(ob["hint"])
        if r["unit"].startswith("lemma "):
            continue
        if r["status"] == "proved":
            jobs.append(dict(unit=r["unit"], models=[], n=cfg["cross"]))
        else:
            jobs.insert(0, dict(unit=r["unit"], models=models[:6], n=cfg["fallback"]))
    conc = None
    if cfg["prove"] and (jobs or pres["error"]):
        cmd = [VENV, "pydv/concrete.py", "--property", prop, "--seed", str(seed), "--budget", str(cfg["concrete_budget"])]
        if jobs:
            jf = os.path.join(tmp, "jobs.json")
            json.dump(jobs, open(jf, "w"))
            cmd += ["--jobs-file", jf]
        else:
            cmd += ["--n", str(cfg["fallback"])]
        o = os.path.join(tmp, "conc.json")
        conc, cerr = collect(run_json(cmd + ["--out", o], o, cfg["concrete_budget"] * 1.5 + 60, env))
        if conc is None:
            conc = dict(failures=[], runs=0, checks=0, unsupported=[["*", cerr]], units=0)
    ores = [collect(j) for j in oracles]

    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    nrep = [0]

    def record(d):
        nrep[0] += 1
        path = os.path.join(HERE, "replays", f"{prop}_{nrep[0]}.json")
        json.dump(dict(d, property=prop), open(path, "w"), indent=1)
        return path
    lines, known_seen, notes = [], [], []
    for f in (conc or {}).get("failures", []):
        ob = next((dict(obligation=o["label"], verifier=o["detail"]) for r in results if r["unit"] == f["unit"] for o in r["obligations"] if o["status"] != "proved"), {})
        p = record(dict(kind="unit", unit=f["unit"], model=f["model"], salt=f["salt"], message=f["message"], **ob))
        lines.append((f"unit {f['unit']}: {f['message'][:300]}", f"VIOLATION property={prop} replay={p}"))
    known = known_findings().get(prop, {})
    cases = distinct = 0
    samples, rule = [], ""
    for res, err in ores:
        if res is None:
            notes.append("oracle did not answer: " + str(err)[-600:])
            continue
        cases += res["cases"]
        distinct += res["distinct"]
        samples += res["samples"][:1]
        rule = res["rule"]
        for k in res.get("known", []):
            if k in known:
                if k not in known_seen:
                    known_seen.append(k)
            else:
                p = record(dict(kind="oracle", case=None, message="known case not listed: " + str(k)))
                lines.append((str(k), f"VIOLATION property={prop} replay={p}"))
        for f in res["failures"][:2]:
            p = record(dict(kind="oracle", case=f["case"], message=f["message"]))
            lines.append((f["message"][:300], f"VIOLATION property={prop} replay={p}"))
    # a failed obligation without a failing input: reported unless the solver gave up somewhere in the unit,
    # or the verifier's integer counter-model was run on the real code and nothing failed
    conc_units = {u for u, _ in (conc or {}).get("unsupported", [])}
    if not lines:
        for r in results:
            for ob in r["obligations"]:
                not_run = r["unit"] in conc_units or "*" in conc_units
                if r["status"] == "failed" and not r.get("unknown") and (ob["status"] == "failed" or ob["status"] == "refuted" and not_run):
                    p = record(dict(kind="obligation", unit=r["unit"], obligation=ob["label"], verifier=ob["detail"], model=ob.get("hint")))
                    lines.append((f"obligation {r['unit']} / {ob['label']}: {ob['detail'][:300]}", f"VIOLATION property={prop} replay={p} no-failing-input-found"))
                    break
            if len(lines) >= 3:
                break

    obligations = sum(len(r["obligations"]) for r in results)
    discharged = sum(1 for r in results for ob in r["obligations"] if ob["status"] == "proved" and r["status"] in ("proved", "failed"))
    undec = [dict(unit=r["unit"], status=r["status"], reason=(r["error"] or "; ".join(f"{o['label']}: {o['detail'][:120]}" for o in r["obligations"] if o["status"] != "proved"))[:400]) for r in results if r["status"] != "proved"]
    if pres["error"]:
        undec.append(dict(unit="*", status="undecided", reason=pres["error"][:600]))
    ok_units = [r for r in results if r["status"] == "proved"]
    funcs = sorted({c for r in ok_units for c in r["covers"]})
    cov = dict(
        evaluations=cases + (conc or {}).get("runs", 0),
        distinct_nontrivial=distinct,
        rule=rule,
        samples=samples[:2] + ([dict(unit=ok_units[0]["unit"], obligations=[o["label"] for o in ok_units[0]["obligations"]][:12])] if ok_units else []),
        bounded=dict(what="independent oracle and concrete runs of the contract units on the real code; bounded, never counted as discharged",
                     oracle_cases=cases, oracle_distinct=distinct, concrete_unit_runs=(conc or {}).get("runs", 0), concrete_checks=(conc or {}).get("checks", 0), not_runnable=(conc or {}).get("unsupported", [])[:10]),
    )
    if cfg["prove"]:
        cov.update(
            obligations=obligations, discharged=discharged,
            obligation_instances=sum(o["checks"] for r in results for o in r["obligations"]),
            units=len(results), units_proved=len(ok_units), functions_under_contract=funcs,
            paths=sum(r["paths"] for r in results), solver_queries=sum(r["queries"] for r in results), solver_s=round(sum(r["solver_s"] for r in results), 2),
            back_end="z3 (python binding) for linear integer/boolean obligations; rational-function normalisation (pydv.core) with z3 for the remaining real equalities",
            checker_cmd=f"python3-vt -m pydv.prove {prop}",
            trusted_base=config.TRUSTED + cfg["trusted"],
            **(dict(lemmas=lemmas) if lemmas else {}),
            undecided=undec[:40], undecided_units=len(undec),
        )
    if cfg["explanation"]:
        cov["explanation"] = cfg["explanation"]
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov, assumptions=cfg["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(lines))
    if notes:
        ev["coverage"]["notes"] = notes
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    print(f"{prop} {tier}: {len(ok_units)}/{len(results)} units proved, {discharged}/{obligations} obligations discharged; bounded: {cases} oracle cases, {(conc or {}).get('runs', 0)} concrete unit runs; {time.time() - t0:.1f} s")
    for x in undec[:12]:
        print("undecided:", x["unit"], x["status"], x["reason"][:240].replace("\n", " "))
    for n in notes:
        print("note:", n)
    for k in known_seen:
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    for msg, v in lines[:6]:
        print(msg)
        print(v)
    if any(o[0] is not None for o in ores) or obligations:
        return 1 if lines else 0
    print("nothing was checked")
    return 2


if __name__ == "__main__":
    sys.exit(main())
