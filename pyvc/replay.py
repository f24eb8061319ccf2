"""python -m pyvc.replay <ID> <tier> <seed> <out> <time_s> <models.json>: replay counter-models, then search"""
import sys
import os
import json
import time
import importlib
import random


def main():
    from pyvc import concrun
    from pyvc.concrun import run_one, Skip, load_known, REPO

    pid, tier, seed, out, time_s, mf = sys.argv[1:7]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    t0 = time.time()
    concrun.limit_memory()
    res = {"violations": [], "tried": 0, "models": 0, "notes": []}
    mod = importlib.import_module("props.p_%s" % pid)
    known = load_known(pid)

    def attempt(case):
        res["tried"] += 1
        try:
            r = run_one(mod, case)
        except Skip as s:
            if len(res["notes"]) < 10:
                res["notes"].append(str(s)[:200])
            return False
        if r is not None and not (r[1] is not None and r[1] in known):
            res["violations"].append({"case": case, "message": r[0], "signature": r[1]})
            return True
        return False

    done = False
    with open(mf) as f:
        models = json.load(f)
    for m in models:
        res["models"] += 1
        try:
            cs = list(mod.from_model(m["unit"], m["label"], m["model"])) if hasattr(mod, "from_model") else []
        except Exception as exc:
            res["notes"].append("from_model: %r" % exc)
            cs = []
        for c in cs:
            if attempt(c):
                done = True
                break
        if done:
            break
    if not done:
        k = 0
        while time.time() - t0 < float(time_s) and not done:
            k += 1
            n0 = res["tried"]
            for c in mod.cases("search", int(seed) + 1000 * k):
                if time.time() - t0 > float(time_s):
                    break
                if attempt(c):
                    done = True
                    break
            if res["tried"] == n0:
                break
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=repr)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
