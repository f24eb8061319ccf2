"""
seedgen.py [ID ...]: write /verif/seeded/<id>/ from dev/seeds.py and try the demos on clean and patched scratch copies.
"""
import sys, os, subprocess, json, shutil, importlib.util, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("seeds", HERE + "/seeds.py"); M = importlib.util.module_from_spec(spec); spec.loader.exec_module(M)
DEMO = """#!/bin/bash
# run with cwd /repo
export PYTHONDONTWRITEBYTECODE=1 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 OMP_NUM_THREADS=2
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""

def one(s):
    d = "/tmp/seedrepo_" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    out = VER + "/seeded/" + s["id"]
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    try:
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n")); open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
        for f, old, new in s["edits"]:
            p = d + "/" + f; t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
            compile(open(p).read(), p, "exec")
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        b = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
        ok = a.returncode == 0 and b.returncode != 0
        return s["id"], "%s clean=%d patched=%d %s" % ("OK " if ok else "BAD", a.returncode, b.returncode, (a.stderr[-600:] if a.returncode else "") + b.stderr.strip().split("\n")[-1][:150])
    except Exception as e:
        return s["id"], "ERR %r" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)

ids = sys.argv[1:]
with cf.ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, [s for s in M.SEEDS if not ids or s["id"] in ids or s["property"] in ids]):
        print(i, r, flush=True)
