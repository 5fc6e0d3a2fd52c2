#!/usr/bin/env python3
"""plant.py SPEC.py : make /verif/seeded/<id>/ from a spec, after confirming in a
scratch copy that the patch applies, the stable tests pass and the demo tells
the trees apart. SPEC defines a list PLANTS of dicts:
id, property, edits=[(file under reservoirflow/, old, new)], needs, breaks, demo (python source)."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
BASECOMMIT = "5f42090"
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYVISTA_OFF_SCREEN=true MPLBACKEND=Agg PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def one(p):
    d = f"/tmp/plant_{os.getpid()}_{p['id']}"
    try:
        shutil.copytree("/repo", d, symlinks=True)
        for f, old, new in p["edits"]:
            path = f"{d}/reservoirflow/{f}"
            s = open(path).read()
            if s.count(old) != 1:
                return p["id"], f"old text found {s.count(old)} times in {f}: {old[:60]!r}"
            open(path, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        # removed/changed lines must be of the original repository
        orig = subprocess.run(["git", "-C", d, "show", "--name-only", BASECOMMIT], capture_output=True, text=True)
        note = ""
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        for f, _, _ in p["edits"]:
            o = subprocess.run(["git", "-C", d, "show", f"{BASECOMMIT}:reservoirflow/{f}"], capture_output=True, text=True).stdout.splitlines()
            gone = [g for g in gone if g not in o]
        if gone:
            note = f"NOT ORIGINAL LINES {gone}"
        out = f"/verif/seeded/{p['id']}"
        tmp = d + "_s"
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(p["demo"])
        open(tmp + "/demo.sh", "w").write(DEMO_SH)
        env = dict(os.environ)
        bad = subprocess.run(["bash", tmp + "/demo.sh"], cwd=d, capture_output=True, text=True)
        good = subprocess.run(["bash", tmp + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if good.returncode != 0:
            return p["id"], "demo fails on clean: " + (good.stdout + good.stderr)[-600:]
        if bad.returncode == 0:
            return p["id"], "demo passes on patched"
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--junitxml=" + tmp + "/j.xml", "-o", "junit_family=xunit2", "tests", "reservoirflow"],
                           cwd=d, capture_output=True, text=True,
                           env=dict(env, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true", OPENBLAS_NUM_THREADS="1"))
        subprocess.run(["python3", "/opt/vp/results.py", tmp + "/r.json", "junit:" + tmp + "/j.xml"], capture_output=True)
        try:
            r = json.load(open(tmp + "/r.json"))
            passed = set(r.get("passed") or [k for k, v in r.items() if v == "passed"])
        except Exception as e:
            return p["id"], "no results " + t.stdout[-500:] + str(e)
        miss = [x for x in base if x not in passed]
        if miss:
            return p["id"], f"tests fail: {miss[:4]}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(tmp + "/demo.py", out)
        shutil.copy(tmp + "/demo.sh", out)
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return p["id"], "kept " + note + " demo: " + (bad.stdout + bad.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "_s", ignore_errors=True)


todo = [p for p in ns["PLANTS"] if not only or p["id"] in only]
with cf.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, todo):
        print(i, ":", m, flush=True)
