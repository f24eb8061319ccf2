import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import meta
V = os.path.dirname(HERE)
na = {n["property"]: n for n in meta.NOT_APPLICABLE}
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(meta.P.values(), key=lambda p: p["id"]):
        d = {k: v for k, v in p.items() if k != "level_note"}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in sorted(meta.P.values(), key=lambda p: p["id"]):
    if p["id"] in na:
        continue
    assert os.path.exists(V + "/props/s_%s.py" % p["id"]), p["id"]
    checks.append(dict(property=p["id"], quick_cmd="python3 /verif/check.py %s --tier quick" % p["id"], thorough_cmd="python3 /verif/check.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="contract-based deductive verification: obligations generated from the real source by symbolic execution with loop invariants and contracts, discharged by z3/cvc5",
        level="proof", level_note=p["level_note"] + meta.BASE_NOTE))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=[dict(property=n["property"], reason=n["reason"]) for n in meta.NOT_APPLICABLE])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(meta.P), "properties", len(checks), "checks")
