"""
concrete worker on the real, untransformed code:
  python -m pyvc.concrun <ID> <tier> <seed> <out.json> <time_s> [replay-cases.json]
runs the property's contract at run time on replayed counter-models and on a bounded case set.
"""
import sys
import os
import json
import time
import importlib
import itertools
import signal
import resource
import traceback
import hashlib

REPO = os.environ.get("PYVC_REPO", "/repo")


class Skip(Exception):
    """case not applicable to this tree (harness cannot drive the code): undecided, never a violation"""


class Violation(Exception):
    """the observed behaviour contradicts the property"""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


def deepest_repo_frame(exc):
    fr = traceback.extract_tb(exc.__traceback__)
    last_repo = None
    for k, f in enumerate(fr):
        if f.filename.startswith(REPO + "/"):
            last_repo = k
    return fr, last_repo


class Hang(BaseException):
    """a case did not finish in time"""


def _on_alarm(*_):
    raise Hang()


def run_one(mod, case):
    """-> None | (msg, sig) ; raises Skip. Bounded in time and memory: cases take milliseconds to a few seconds"""
    limit = getattr(mod, "CASE_S", 60)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(limit)
    try:
        return _run_one(mod, case)
    except Hang as exc:
        fr, k = deepest_repo_frame(exc)
        if k is None:
            raise Skip("harness: hangs")
        msg = "does not finish within %d s (in %s:%s)" % (limit, fr[k].filename.replace(REPO + "/", ""), fr[k].name)
        return msg, getattr(mod, "signature", lambda c, m: None)(case, msg)
    finally:
        signal.alarm(0)


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (20 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


def _run_one(mod, case):
    try:
        mod.run_case(case)
        return None
    except Violation as v:
        return str(v), v.sig or getattr(mod, "signature", lambda c, m: None)(case, str(v))
    except Skip:
        raise
    except (AttributeError, NameError, ImportError) as exc:
        fr, k = deepest_repo_frame(exc)
        if getattr(mod, "NONE_ATTR", False) and k is not None and k == len(fr) - 1 and isinstance(exc, AttributeError) and "'NoneType' object has no attribute" in str(exc):
            msg = "unexpected %s: %s (at %s:%s)" % (type(exc).__name__, exc, fr[k].filename.replace(REPO + "/", ""), fr[k].name)
            return msg, getattr(mod, "signature", lambda c, m: None)(case, msg)
        # harness objects may lack attributes a refactoring introduced: not decided by this case
        raise Skip("%s: %s" % (type(exc).__name__, exc))
    except Exception as exc:
        fr, k = deepest_repo_frame(exc)
        if k is None:
            raise Skip("harness: %s: %s %s" % (type(exc).__name__, exc, fr[-1:]))
        if isinstance(exc, TypeError) and k < len(fr) - 1 and "/verif/" in fr[-1].filename:
            raise Skip("harness: %s" % exc)
        if isinstance(exc, TypeError) and ("argument" in str(exc)):
            raise Skip("signature: %s" % exc)
        msg = "unexpected %s: %s (at %s:%s)" % (type(exc).__name__, str(exc)[:300], fr[k].filename.replace(REPO + "/", ""), fr[k].name)
        return msg, getattr(mod, "signature", lambda c, m: None)(case, msg)


def main():
    pid, tier, seed, out, time_s = sys.argv[1:6]
    replay = sys.argv[6] if len(sys.argv) > 6 else None
    seed, time_s = int(seed), float(time_s)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    t0 = time.time()
    limit_memory()
    res = dict(evaluations=0, skipped=0, skip_reasons={}, violations=[], known=[], samples=[], error=None, distinct=0, kinds={})
    seen = set()
    try:
        mod = importlib.import_module("props.p_%s" % pid)
        known = load_known(pid)
        src = []
        if replay:
            with open(replay) as f:
                src.append(("replay", json.load(f)))
        else:
            src.append(("bounded", mod.cases(tier, seed)))
        for kind, cases in src:
            for case in cases:
                if time.time() - t0 > time_s:
                    res["truncated"] = True
                    break
                key = hashlib.md5(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()
                if key in seen:
                    continue
                seen.add(key)
                res["evaluations"] += 1
                kd = case.get("kind", "-") if isinstance(case, dict) else "-"
                res["kinds"][kd] = res["kinds"].get(kd, 0) + 1
                try:
                    r = run_one(mod, case)
                except Skip as s:
                    res["skipped"] += 1
                    m = str(s)[:160]
                    res["skip_reasons"][m] = res["skip_reasons"].get(m, 0) + 1
                    continue
                if len(res["samples"]) < 3 or (len(res["samples"]) < 8 and kd not in [s.get("kind") for s in res["samples"]]):
                    res["samples"].append(case)
                if r is not None:
                    msg, sig = r
                    if sig is not None and sig in known:
                        if sig not in res["known"]:
                            res["known"].append(sig)
                        continue
                    res["violations"].append({"case": case, "message": msg, "signature": sig})
                    if len(res["violations"]) >= 3 or "does not finish" in msg:
                        res["violations"] += [None] * (3 - len(res["violations"]))
                        break
            if len(res["violations"]) >= 3:
                break
    except BaseException as exc:
        res["error"] = "".join(traceback.format_exception(exc))[-3000:]
    res["violations"] = [v for v in res["violations"] if v]
    res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=repr)
    sys.stdout.flush()
    os._exit(0)


def load_known(pid):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e["signature"]: e for e in json.load(f)["findings"] if e["property"] == pid and e["status"] == "known"}


if __name__ == "__main__":
    # run under the importable name, so that props' "from pyvc.concrun import Violation" is the same class
    from pyvc import concrun as _c

    _c.main()
