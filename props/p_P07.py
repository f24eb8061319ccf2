"""P07 concrete side: learning rates from the recorded history, against a reference calculation; file round trip"""
import os
import math
import random
import shutil
import tempfile
from pyvc.concrun import Violation, Skip

KINDS = ["constant", "newbob", "newbob_rel", "newbob_relative", "newbob_abs", "newbob_multi_epoch"]


def cases(tier, seed):
    R = random.Random(seed)
    for t in range(4000 if tier == "quick" else 40000):
        kind = R.choice(KINDS)
        n = R.randint(1, 14)
        o = dict(learning_rate=R.choice([1.0, 0.001, 0.5]), min_learning_rate=R.choice([0.0, 0.0, 0.0004, 0.3]))
        if R.random() < 0.8:
            o["newbob_learning_rate_decay"] = R.choice([0.5, 0.9, 0.1])
        if R.random() < 0.5:
            o["newbob_learning_rate_growth"] = R.choice([1.0, 1.3])
        if R.random() < 0.5:
            o["newbob_relative_error_threshold"] = R.choice([-0.01, 0.0, 0.05, -0.2])
        if R.random() < 0.4:
            o["newbob_relative_error_grow_threshold"] = o.get("newbob_relative_error_threshold", -0.01) - R.choice([0.0, 0.1])
        if R.random() < 0.5:
            o["newbob_error_threshold"] = R.choice([-0.01, 0.0, 0.1])
        if R.random() < 0.4:
            o["newbob_multi_num_epochs"] = R.randint(1, 6)
        if R.random() < 0.4:
            o["newbob_multi_update_interval"] = R.randint(1, 5)
        if R.random() < 0.3:
            o["newbob_relative_error_div_by_old"] = True
        if R.random() < 0.3:
            o["learning_rate_control_relative_error_relative_lr"] = True
        if R.random() < 0.3:
            o["learning_rate_control_min_num_epochs_per_new_lr"] = R.randint(0, 4)
        if R.random() < 0.3:
            o["learning_rates"] = {str(e): R.choice([0.2, 0.03, 1e-5]) for e in R.sample(range(1, n + 1), R.randint(1, min(3, n)))}
        if R.random() < 0.3:
            o["learning_rate_control_error_measure"] = R.choice(["dev_error", "dev_score", "train_score"])
        keys = R.choice([["dev_score"], ["dev_score", "dev_error"], ["train_score", "dev_error"], ["train_score"], ["dev_score_output/output", "train_score_x"]])
        hist = []
        base = R.choice([5.0, 1.0, 0.3])
        sign, exact = R.choice([1, 1, -1]), R.random() < 0.3
        for e in range(1, n + 1):
            base = max(1e-3, base * R.choice([0.7, 0.95, 0.999, 1.0, 1.05]))
            sc = {k: sign * (base if exact else round(base * R.uniform(0.9, 1.1), R.choice([3, 12])) or 0.1) for k in keys} if R.random() < 0.93 else None
            if sc and R.random() < 0.05:
                sc.pop(keys[0])
            hist.append(sc or None)
        yield dict(kind=kind, opts=o, hist=hist, skip=sorted(R.sample(range(1, n + 1), min(n - 1, R.choice([0, 0, 1, 2, 3])))), restart=R.randint(1, n), nested=R.random() < 0.2,
                   change=R.random() < 0.5)
    for t in range(100):
        yield dict(kind="file", data={str(e): dict(lr=R.choice([R.random(), 1e-7, 1.0]), err={k: R.choice(["nan", "inf", "-inf", R.random(), 1e-9]) for k in R.sample(["dev_score", "dev_error_x/y", "train_score", "a'b", 'q"r', ":x"], R.randint(0, 4))}, meta={"m": R.choice([1, "s", 0.5])} if R.random() < 0.5 else {}) for e in R.sample(range(1, 200), R.randint(0, 12))})


def from_model(unit, label, m):
    R = random.Random(1)
    k = {"constant": ["constant"], "newbob relative": ["newbob"], "newbob absolute": ["newbob_abs"], "newbob multi epoch": ["newbob_multi_epoch"]}.get(unit, KINDS)
    for s in range(40):
        for c in cases("quick", s):
            if c["kind"] in k:
                yield c


def run_case(c):
    import returnn.log; returnn.log.log.initialize(verbosity=[0])

    tmp = tempfile.mkdtemp(prefix="p07_", dir=os.environ.get("PYVC_TMP"))
    try:
        _file(c, tmp) if c["kind"] == "file" else _run(c, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def _dump(ctl):
    return {e: (d.learning_rate, dict(d.error), dict(d.meta)) for e, d in ctl.epoch_data.items()}


def _eq_dump(a, b):
    if set(a) != set(b):
        return False
    for e in a:
        if not _same(a[e][0], b[e][0]):
            return False
        for x, y in zip(a[e][1:], b[e][1:]):
            if set(x) != set(y) or not all(_same(x[k], y[k]) for k in x):
                return False
    return True


def _file(c, tmp):
    from returnn.learning_rate_control import ConstantLearningRate

    fn = os.path.join(tmp, "sub", "lr")
    ctl = ConstantLearningRate(default_learning_rate=1.0, filename=fn)
    for e, d in c["data"].items():
        ctl.epoch_data[int(e)] = ctl.EpochData(learning_rate=float(d["lr"]), error={k: float(v) for k, v in d["err"].items()}, meta=dict(d["meta"]))
    before = _dump(ctl)
    ctl.save()
    ctl2 = ConstantLearningRate(default_learning_rate=1.0, filename=fn)
    if not _eq_dump(before, _dump(ctl2)):
        raise Violation("learning rate file round trip: saved %s, loaded %s" % (before, _dump(ctl2)))
    if sorted(os.listdir(os.path.dirname(fn))) != ["lr"]:
        raise Violation("saving leaves other files: %s" % os.listdir(os.path.dirname(fn)))


def ref_key(err, measure):
    if not err:
        return None
    ks = [measure, measure + "_output"] if measure else []
    for k in ks + ["dev_score", "dev_score_output"]:
        if k in err:
            return k
    for f in (lambda k: k == "dev_score_output/output" or k.startswith("dev_score_output/output_"), lambda k: k.startswith("dev_score_output/"), lambda k: k.startswith("dev_")):
        for k in sorted(err):
            if f(k):
                return k
    for k in ("train_score", "train_score_output"):
        if k in err:
            return k
    return min(err)


def ref_rate(kind, o, hist, e):
    """hist: epoch -> (lr, err) of the earlier epochs"""
    prev = sorted(x for x in hist if x < e)
    default = o["learning_rate"]
    mn = o.get("learning_rate_control_min_num_epochs_per_new_lr", 0)
    if mn > 1 and prev:
        last = [hist[x][0] for x in prev[-mn:]]
        if len(set(last)) > 1 or len(last) < mn:
            return last[-1]
    if not prev:
        base = default
    else:
        base = hist[prev[-1]][0]
    if kind == "constant":
        return base
    measure = o.get("learning_rate_control_error_measure")

    def kv(x):
        k = ref_key(hist[x][1], measure)
        return (None, None) if k is None else (k, hist[x][1][k])

    def rel(a, b):
        (ka, va), (kb, vb) = kv(a), kv(b)
        if va is None or vb is None or ka != kb:
            return None
        r = (vb - va) / abs(va if o.get("newbob_relative_error_div_by_old") else vb)
        if o.get("learning_rate_control_relative_error_relative_lr"):
            lr = hist[b][0]
            if lr > 0:
                r /= lr / default
        return r

    thr = o.get("newbob_relative_error_threshold", -0.01)

    def upd(dec, grow):
        if dec:
            return max(base * o.get("newbob_learning_rate_decay", 0.5), o["min_learning_rate"])
        return base * o.get("newbob_learning_rate_growth", 1.0) if grow else base

    if kind == "newbob_multi_epoch":
        num = o.get("newbob_multi_num_epochs", 5)
        ui = o.get("newbob_multi_update_interval", num)
        if ui > 1 and e % ui != 1:
            return base
        ps = prev[-(num + 1):]
        if len(ps) <= 1:
            return base
        rs = [rel(a, b) for a, b in zip(ps, ps[1:])]
        if any(r is None for r in rs):
            return base
        mean = sum(rs) / len(rs)
        g = o.get("newbob_relative_error_grow_threshold", thr)
        for t in (thr, g):
            if abs(mean - t) < 1e-9:
                return None
        return upd(mean > thr, mean < g)
    if len(prev) < 2:
        return base
    if kind == "newbob_abs":
        (ka, va), (kb, vb) = kv(prev[-2]), kv(prev[-1])
        if va is None or vb is None or ka != kb:
            return base
        d, t = vb - va, o.get("newbob_error_threshold", -0.01)
    else:
        d, t = rel(prev[-2], prev[-1]), thr
        if d is None:
            return base
    return upd(d > t, not d > t)


def _nest(sc):
    """the other accepted form of the same scores: {"dev_score": {"cost:x": ..}}"""
    out = {}
    for k, v in sc.items():
        if k.startswith("dev_score_"):
            out.setdefault("dev_score", {})["cost:" + k[len("dev_score_"):]] = v
            out["dev_score"]["cost:output/other"] = 1e6
        else:
            out[k] = {"cost:output": v}
    return out


def _run(c, tmp):
    from returnn.config import Config
    from returnn.learning_rate_control import load_learning_rate_control_from_config

    fn = os.path.join(tmp, "lr")
    o = dict(c["opts"])
    lrs = {int(k): v for k, v in o.pop("learning_rates", {}).items()}
    items = dict(o, learning_rate_control=c["kind"], learning_rate_file=fn)
    if lrs:
        items["learning_rates"] = dict(lrs)
    ctl = load_learning_rate_control_from_config(Config(dict(items)))
    known = {}
    hist = {e: (v, {}) for e, v in lrs.items()}
    for e in range(1, len(c["hist"]) + 1):
        if e in c["skip"]:
            continue
        want = hist[e][0] if e in hist else ref_rate(c["kind"], o, hist, e)
        got = ctl.get_learning_rate_for_epoch(e)
        if want is None:
            want = got  # undecidable by rounding
        if not math.isclose(got, want, rel_tol=1e-9, abs_tol=0.0):
            raise Violation("%s %s: rate of epoch %d is %r, expected %r; history %s" % (c["kind"], o, e, got, want, hist))
        if ctl.get_learning_rate_for_epoch(e) != got:
            raise Violation("the rate of epoch %d changes when asked again" % e)
        known[e] = got
        hist[e] = (got, {})
        sc = c["hist"][e - 1]
        if sc:
            if c.get("nested"):
                ctl.set_epoch_error(e, _nest(sc))
            else:
                ctl.set_epoch_error(e, dict(sc))
            hist[e] = (got, dict(sc))
            if c.get("nested") and "dev_score_output/output" in sc:
                sc = dict(sc)
                sc["dev_score_output/other"] = 1e6
                hist[e] = (got, dict(sc))
            if ctl.get_epoch_error_dict(e) != sc:
                raise Violation("scores of epoch %d: %s recorded as %s" % (e, sc, ctl.get_epoch_error_dict(e)))
            k, v = ctl.get_epoch_error_key_value(e)
            wk = ref_key(sc, o.get("learning_rate_control_error_measure"))
            if (k, v) != (wk, sc[wk]):
                raise Violation("score used for epoch %d: %s, expected %s of %s" % (e, (k, v), wk, sc))
        if hasattr(ctl, "get_most_recent_learning_rate"):
            for excl in (True, False):
                pe = [x for x in hist if x < e or x == e and not excl]
                w = hist[max(pe)][0] if pe else o["learning_rate"]
                if not math.isclose(ctl.get_most_recent_learning_rate(e, exclude_current=excl), w, rel_tol=1e-9):
                    raise Violation("most recent rate for epoch %d (exclude_current=%s): %r, expected %r" % (e, excl, ctl.get_most_recent_learning_rate(e, exclude_current=excl), w))
        for e2, v in known.items():
            if ctl.epoch_data[e2].learning_rate != v:
                raise Violation("recorded rate of epoch %d changed from %r to %r in epoch %d" % (e2, v, ctl.epoch_data[e2].learning_rate, e))
        if e == c["restart"]:
            ctl.save()
            d = _dump(ctl)
            if lrs and c.get("change"):  # other configured rates do not change what is recorded
                items["learning_rates"] = {k: 0.777 for k in lrs}
            ctl = load_learning_rate_control_from_config(Config(dict(items)))
            if not _eq_dump(d, _dump(ctl)):
                raise Violation("after the restart in epoch %d: %s, before %s" % (e, _dump(ctl), d))
