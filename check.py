#!/usr/bin/env python3
"""
check.py <ID> [--tier quick|thorough]

1. symbolic worker: regenerates every obligation from /repo's current source and discharges it,
2. concrete worker: the same contract at run time on the real code (bounded, labelled so in the evidence),
3. failed obligations: counter-models and the bounded search are replayed on the real code.
"""
import sys
import os
import json
import time
import subprocess
import argparse
import hashlib
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1", TF_USE_LEGACY_KERAS="1", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
        PYTHONHASHSEED="0", OMP_NUM_THREADS="2", PYTHONPATH=HERE,
    )
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pyvc_%s_" % pid)
    e = env()
    e["TMPDIR"] = tmp
    e["PYVC_TMP"] = tmp
    rc = 0
    try:
        rc = run(pid, tier, seed, t0, tmp, e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def spawn(args, e, logf):
    return subprocess.Popen([PY, "-m"] + args, cwd=HERE, env=e, stdout=open(logf, "w"), stderr=subprocess.STDOUT)


def wait(p, t):
    try:
        p.wait(t)
        return True
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return False


def load(f):
    try:
        with open(f) as fh:
            return json.load(fh)
    except Exception:
        return None


def tail(f, n=1500):
    try:
        with open(f, errors="replace") as fh:
            return fh.read()[-n:]
    except Exception:
        return ""


def run(pid, tier, seed, t0, tmp, e):
    quick = tier == "quick"
    sym_out, conc_out = os.path.join(tmp, "sym.json"), os.path.join(tmp, "conc.json")
    conc_s = 75 if quick else 600
    ps = spawn(["pyvc.symrun", pid, tier, sym_out], e, os.path.join(tmp, "sym.log"))
    pc = spawn(["pyvc.concrun", pid, tier, str(seed), conc_out, str(conc_s)], e, os.path.join(tmp, "conc.log"))
    conc_ok = wait(pc, conc_s + 90)
    sym_ok = wait(ps, max(5, (560 if quick else 3600) - (time.time() - t0)))
    conc = load(conc_out) or {"error": "no result: " + tail(os.path.join(tmp, "conc.log")), "violations": [], "evaluations": 0, "known": [], "samples": [], "skipped": 0, "distinct": 0, "skip_reasons": {}, "kinds": {}}
    sym = load(sym_out) or {"error": "no result: " + tail(os.path.join(tmp, "sym.log")), "obligations": [], "units": {}}
    failed = [o for o in sym["obligations"] if o["status"] == "failed"]
    unknown = [o for o in sym["obligations"] if o["status"] == "unknown"]
    undecided = {k: v for k, v in sym["units"].items() if v.get("status") != "ok"}
    violations = list(conc["violations"])
    replay_info = None
    if failed and not violations:
        # replay the counter-models on the real code, then search
        cases = []
        for o in failed:
            if o.get("model"):
                cases.append({"unit": o["unit"], "label": o["label"], "model": o["model"]})
        cf = os.path.join(tmp, "models.json")
        with open(cf, "w") as f:
            json.dump(cases, f)
        rf = os.path.join(tmp, "replay.json")
        p = spawn(["pyvc.replay", pid, tier, str(seed), rf, "60" if quick else "300", cf], e, os.path.join(tmp, "replay.log"))
        wait(p, 160 if quick else 500)
        replay_info = load(rf) or {"error": tail(os.path.join(tmp, "replay.log")), "violations": []}
        violations = replay_info["violations"]
    # output
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    for k in conc.get("known", []):
        known = {f["signature"]: f for f in load(os.path.join(HERE, "known_findings.json"))["findings"]}
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    for v in violations[:1]:
        nviol += 1
        path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.md5(json.dumps(v, sort_keys=True, default=repr).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": pid, "case": v["case"], "message": v["message"],
                    "failed_obligations": failed[:5],
                    "how_to_run": "cd /verif && PYTHONPATH=/verif /opt/venv/bin/python -m pyvc.replay_one %s %s" % (pid, path),
                },
                f, indent=1, default=repr,
            )
        print("property %s violated on the real code: %s" % (pid, v["message"][:1000]))
        print("input: %s" % json.dumps(v["case"], default=repr)[:2000])
        for o in failed[:3]:
            print("failed obligation: [%s] %s" % (o["unit"], o["label"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if failed and not violations:
        nviol += 1
        path = os.path.join(rdir, "%s-obligation.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "failed_obligations": failed, "replay": replay_info}, f, indent=1, default=repr)
        for o in failed[:5]:
            print("failed obligation: [%s] %s (%s)" % (o["unit"], o["label"], o["reason"][:400]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    nob = sum(o["instances"] for o in sym["obligations"])
    ndis = sum(o["instances"] for o in sym["obligations"] if o["status"] == "discharged")
    for k, v in undecided.items():
        print("UNDECIDED unit %s: %s" % (k, v.get("reason", "")[:600]))
    for o in unknown:
        print("UNDISCHARGED obligation: [%s] %s (%s)" % (o["unit"], o["label"], o["reason"][:300]))
    if sym.get("error"):
        print("symbolic worker: %s" % sym["error"][-1200:])
    if conc.get("error"):
        print("concrete worker: %s" % conc["error"][-1200:])
    write_evidence(pid, tier, seed, t0, sym, conc, nob, ndis, failed, unknown, undecided, nviol, replay_info)
    print(
        "%s %s: %d obligation kinds, %d instances, %d discharged, %d units (%d undecided), bounded cross-check %d cases (%d skipped), %.1fs"
        % (pid, tier, len(sym["obligations"]), nob, ndis, len(sym["units"]), len(undecided), conc["evaluations"], conc["skipped"], time.time() - t0)
    )
    return 1 if nviol else 0


def write_evidence(pid, tier, seed, t0, sym, conc, nob, ndis, failed, unknown, undecided, nviol, replay_info):
    by = {}
    for o in sym["obligations"]:
        for b in o["backend"]:
            by[b] = by.get(b, 0) + 1
    funcs = {}
    for k, v in sym["units"].items():
        for f in v.get("functions", []):
            funcs.setdefault(f, []).append(k)
    bounded_units = {k: v["bounded"] for k, v in sym["units"].items() if v.get("bounded")}
    nb = sum(o["instances"] for o in sym["obligations"] if o["unit"] in bounded_units)
    trusted = [
        "pyvc: /verif/pyvc (AST rewriting of /repo's source on every run, symbolic values, loop-contract cut rule)",
        "CPython 3.12 executing the rewritten functions", "z3 5.3.2 / cvc5 1.1.2",
    ] + sym.get("assumptions", [])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "python3 /verif/check.py %s --tier %s" % (pid, tier),
            "trusted_base": trusted,
            "obligation_kinds": [
                {"unit": o["unit"], "label": o["label"], "kind": o["kind"], "status": o["status"], "instances": o["instances"], "backend": o["backend"]}
                for o in sym["obligations"]
            ],
            "backends": by,
            "functions_under_contract": funcs,
            "units": {k: {kk: v.get(kk) for kk in ("status", "reason", "paths", "obligations", "cuts", "wall_s", "solver_s", "queries", "reachable", "bounded")} for k, v in sym["units"].items()},
            "bounded_symbolic_obligations_not_counted_as_proved": nb,
            "solver_time_s": sym.get("solver_s"),
            "undecided_units": {k: v.get("reason", "") for k, v in undecided.items()},
            "bounded_runtime_contract_check": {
                "evaluations": conc["evaluations"], "distinct": conc.get("distinct"), "skipped": conc["skipped"],
                "skip_reasons": conc.get("skip_reasons"), "by_kind": conc.get("kinds"), "samples": conc["samples"][:5],
                "label": "bounded stand-in / cross-check on the real code, never counted as proved",
            },
            "samples": conc["samples"][:3],
        },
        "assumptions": sym.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


if __name__ == "__main__":
    sys.exit(main())
