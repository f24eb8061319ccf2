import sys, os, json, importlib
from pyvc.concrun import run_one, Skip, REPO
sys.path.insert(0, REPO)
pid, path = sys.argv[1:3]
mod = importlib.import_module("props.p_%s" % pid)
try:
    r = run_one(mod, json.load(open(path))["case"])
except Skip as s:
    print("skip", s); sys.exit(0)
print(r)
sys.exit(1 if r else 0)
