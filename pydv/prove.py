"""Prove the units of one property (python3-vt -m pydv.prove C01 [--unit SUBSTR] [--jobs N])."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time


def units_of(prop):
    m = importlib.import_module("pydv.contracts." + prop.lower())
    return m.units()


def work(prop, idx, budget, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from pydv import load, unit
    try:
        load.load()
        un = units_of(prop)[idx]
        r = unit.run_unit(un, budget)
    except BaseException as e:
        import traceback
        r = {"status": "undecided", "obligations": [], "paths": 0, "error": "engine: " + "".join(traceback.format_exception(e)[-3:])[-1500:], "queries": 0, "solver_s": 0, "wall_s": 0, "covers": []}
    conn.send(r)
    conn.close()


def names_of(prop, conn):
    try:
        sys.setrecursionlimit(20000)
        from pydv import load
        load.load()
        conn.send([(u.name, list(u.covers)) for u in units_of(prop)])
    except BaseException as e:
        import traceback
        conn.send("engine: " + "".join(traceback.format_exception(e)[-4:])[-2000:])
    conn.close()


def prove(prop, jobs=8, budget=120, deadline=None, only=None, echo=None):
    """returns (results, error)"""
    a, b = mp.Pipe(False)
    p = mp.Process(target=names_of, args=(prop, b))
    p.start()
    b.close()
    try:
        names = a.recv() if a.poll(120) else "engine: no answer"
    except EOFError:
        names = "engine: died"
    p.join(5)
    if isinstance(names, str):
        return [], names
    todo = [i for i, (n, _) in enumerate(names) if not only or only in n]
    live, res = {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            if deadline and time.time() > deadline:
                for i in todo:
                    res[i] = dict(status="undecided", error="budget: check deadline", obligations=[], paths=0, queries=0, solver_s=0, wall_s=0, unit=names[i][0], covers=names[i][1])
                todo = []
                break
            i = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=work, args=(prop, i, budget, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        for i, (p, a, t) in list(live.items()):
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(status="undecided", error="engine: process died", obligations=[], paths=0, queries=0, solver_s=0, wall_s=time.time() - t)
            elif time.time() - t > budget * 1.3 + 20 or (deadline and time.time() > deadline + 15):
                p.kill()
                r = dict(status="undecided", error="budget: killed", obligations=[], paths=0, queries=0, solver_s=0, wall_s=time.time() - t)
            if r is not None:
                r["unit"], r["covers"] = names[i]
                res[i] = r
                p.join(1)
                if p.is_alive():
                    p.kill()
                del live[i]
                if echo:
                    echo(r)
        time.sleep(0.005)
    return [res[i] for i in sorted(res)], None


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--unit")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=120)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--json")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()

    def echo(r):
        print(f"{r['status']:10s} {r['unit']:40s} paths={r['paths']} obs={len(r['obligations'])} q={r['queries']} {r['wall_s']}s {r['error'] or ''}")
        for o in r["obligations"]:
            if o["status"] != "proved" or a.v:
                print("     ", o["status"], o["label"], o["checks"], o["detail"][:600], o["hint"] and {k: v for k, v in o["hint"].items() if "!" not in k})
        sys.stdout.flush()
    res, err = prove(a.prop, a.jobs, a.budget, time.time() + a.deadline if a.deadline else None, a.unit, None if a.json else echo)
    if a.json:
        json.dump({"error": err, "results": res}, open(a.json, "w"))
    if err:
        print(err)
    from collections import Counter
    print(Counter(r["status"] for r in res), sum(len(r["obligations"]) for r in res))
