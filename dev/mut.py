"""
engine self-test: apply small text mutations to a scratch copy of /repo and report what each layer says.
usage: mut.py <ID> [name-filter]      (mutants in dev/mutants.py: MUTANTS[ID] = [(name, file, old, new), ...])
expected outcome is given by name: names starting with "eq" are behaviour preserving, others break the property
"""
import sys, os, subprocess, json, shutil, importlib.util, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("mutants", os.path.join(HERE, "mutants.py")); M = importlib.util.module_from_spec(spec); spec.loader.exec_module(M)

def one(pid, m, idx):
    name, f, old, new = m[:4]
    d = "/tmp/mrepo_%s_%d" % (pid, idx)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("PYVC_BASE", "/repo"), d, ignore=shutil.ignore_patterns(".git", "tests", "docs", "demos"))
    try:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) < 1: return name, "OLD TEXT NOT FOUND"
        s = s.replace(old, new, 1); open(p, "w").write(s)
        compile(s, p, "exec")
        env = dict(os.environ, PYVC_REPO=d, PYTHONDONTWRITEBYTECODE="1", TF_USE_LEGACY_KERAS="1", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3", PYTHONPATH=VER, PYTHONHASHSEED="0", PYVC_JOBS="3", PYVC_TMP=d, OMP_NUM_THREADS="2")
        py = "/opt/venv/bin/python"
        so, co, ro = d + "/sym.json", d + "/conc.json", d + "/rep.json"
        ps = subprocess.Popen([py, "-m", "pyvc.symrun", pid, "quick", so], cwd=VER, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        pc = subprocess.Popen([py, "-m", "pyvc.concrun", pid, "quick", "1", co, "60"], cwd=VER, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        pc.wait(); ps.wait()
        sym, conc = json.load(open(so)), json.load(open(co))
        failed = [o for o in sym["obligations"] if o["status"] == "failed"]
        und = [k + ": " + v.get("reason", "")[:120] for k, v in sym["units"].items() if v["status"] != "ok"]
        rep = ""
        if failed:
            json.dump([{"unit": o["unit"], "label": o["label"], "model": o["model"]} for o in failed if o["model"]], open(d + "/m.json", "w"))
            subprocess.run([py, "-m", "pyvc.replay", pid, "search", "1", ro, "20", d + "/m.json"], cwd=VER, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = json.load(open(ro)); rep = "replay=%s(tried %d)" % ("HIT" if r["violations"] else "none", r["tried"])
        out = "sym:%s %s | conc:%s (%d cases, %d skipped) %s" % (
            "FAIL[" + "; ".join(sorted({o["label"][-60:] for o in failed})[:2]) + "]" if failed else ("undecided" if und or sym["error"] else "ok"), rep,
            "FAIL[" + conc["violations"][0]["message"][:80] + "]" if conc["violations"] else "ok", conc["evaluations"], conc["skipped"], (conc["error"] or "")[-200:])
        if und: out += "\n      und: " + "\n      und: ".join(und[:3])
        if sym["error"]: out += "\n      err: " + sym["error"][-300:]
        return name, out
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    pid = sys.argv[1]; flt = sys.argv[2] if len(sys.argv) > 2 else ""
    ms = [m for m in M.MUTANTS[pid] if flt in m[0]]
    with cf.ThreadPoolExecutor(3) as ex:
        for name, out in ex.map(lambda im: one(pid, im[1], im[0]), enumerate(ms)):
            print("%-28s %s" % (name, out), flush=True)
