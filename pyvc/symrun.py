"""symbolic worker: python -m pyvc.symrun <ID> <tier> <out.json>"""
import sys
import os
import json
import time
import importlib
import traceback
import threading


def run_unit(S, sym, name, fn, kw, tier):
    kw = dict(kw)
    kw.setdefault("time_limit", S.time_limit)
    pre = kw.pop("setup", None)
    S.use_pdict = kw.pop("pdict", False)
    S.mod_over = kw.pop("mod_over", None)
    S.fs = None
    S.feas_ms = kw.pop("feas_ms", 1500)
    S.prove_ms = kw.pop("prove_ms", S.prove_ms)
    functions = kw.pop("functions", [])
    bounded = kw.pop("bounded", None)
    try:
        if pre:
            pre()
        info = S.explore(name, fn, **kw)
    except BaseException as exc:  # engine failure: undecided
        S.active = False
        info = S.units.setdefault(name, {"paths": 0, "obligations": 0})
        info["status"] = "undecided"
        info["reason"] = "engine: " + "".join(traceback.format_exception(exc))[-1500:]
    info["functions"] = functions
    info["bounded"] = bounded
    return {
        "units": {k: {kk: (sorted(vv) if isinstance(vv, set) else vv) for kk, vv in v.items()} for k, v in S.units.items()},
        "obligations": [
            {
                "unit": o.unit, "label": o.label, "kind": o.kind, "status": o.status, "instances": o.count,
                "backend": sorted(o.backend), "model": o.model, "reason": o.reason,
            }
            for o in S.obls.values()
        ],
        "assumptions": list(S.assumptions),
        "solver_s": round(S.stats.solver_s, 2),
        "queries": S.stats.queries,
    }


def main():
    pid, tier, out = sys.argv[1:4]
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = {
        "property": pid, "tier": tier, "error": None, "obligations": [], "units": {}, "assumptions": [], "solver_s": 0.0,
        "queries": 0,
    }
    from pyvc import transform

    transform.install()
    from pyvc.core import S

    S.tier = tier
    S.prove_ms = 10000 if tier == "quick" else 60000
    budget = float(os.environ.get("PYVC_SYM_BUDGET", "480" if tier == "quick" else "3300"))
    jobs = int(os.environ.get("PYVC_JOBS", "6"))

    def dump():
        res["wall_s"] = round(time.time() - t0, 2)
        res["modules"] = dict(transform.LOADED)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, indent=1, default=repr)
        os.replace(tmp, out)

    try:
        sym = importlib.import_module("props.s_%s" % pid)
        only = os.environ.get("PYVC_UNIT")
        S.time_limit = float(getattr(sym, "TIME_LIMIT", 240 if tier == "quick" else 1500))
        todo = [(n, f, k) for n, f, k in sym.units(tier) if not only or only in n]
        res["assumptions"] = list(S.assumptions)
        running = {}
        order = [n for n, _, _ in todo]
        got = {}

        def collect(p, st):
            i, name, f, started = running.pop(p)
            try:
                with open(f) as fh:
                    got[name] = json.load(fh)
            except Exception:
                got[name] = {
                    "units": {name: {"status": "undecided", "reason": "worker died (status %s)" % st, "paths": 0, "obligations": 0}},
                    "obligations": [], "assumptions": [], "solver_s": 0, "queries": 0,
                }

        queue = list(enumerate(todo))
        while queue or running:
            while queue and len(running) < jobs and time.time() - t0 < budget:
                i, (name, fn, kw) = queue.pop(0)
                f = "%s.u%d" % (out, i)
                sys.stdout.flush()
                p = os.fork()
                if p == 0:
                    try:
                        if os.environ.get("PYVC_DUMP"):
                            import faulthandler

                            faulthandler.dump_traceback_later(float(os.environ["PYVC_DUMP"]), exit=True)
                        r = run_unit(S, sym, name, fn, kw, tier)
                        with open(f + ".tmp", "w") as fh:
                            json.dump(r, fh, default=repr)
                        os.replace(f + ".tmp", f)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(0)
                running[p] = (i, name, f, time.time())
            if time.time() - t0 >= budget:
                for p in list(running):
                    os.kill(p, 9)
                    os.waitpid(p, 0)
                    collect(p, "time budget")
                for i, (name, fn, kw) in queue:
                    got[name] = {
                        "units": {name: {"status": "undecided", "reason": "time budget", "paths": 0, "obligations": 0}},
                        "obligations": [], "assumptions": [], "solver_s": 0, "queries": 0,
                    }
                queue = []
                break
            p, st = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                time.sleep(0.02)
                continue
            collect(p, st)
        for n in order:
            r = got.get(n)
            if not r:
                continue
            res["units"].update(r["units"])
            res["obligations"] += r["obligations"]
            for a in r["assumptions"]:
                if a not in res["assumptions"]:
                    res["assumptions"].append(a)
            res["solver_s"] = round(res["solver_s"] + r["solver_s"], 2)
            res["queries"] += r["queries"]
    except BaseException as exc:
        res["error"] = "".join(traceback.format_exception(exc))[-3000:]
    dump()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
