"""P06 concrete side: which checkpoints the clean-up deletes"""
import os
import random
import shutil
import tempfile
from pyvc.concrun import Violation, Skip

NAN = float("nan")


def cases(tier, seed):
    R = random.Random(seed)
    for _ in range(700 if tier == "quick" else 6000):
        last = R.choice([6, 10, 12, 30, 55, 101, 120, 260, 500])
        eps = sorted(R.sample(range(1, last + 1), R.randint(1, min(last, 25))))
        if R.random() < 0.5:
            eps = list(range(max(1, last - R.randint(0, 24)), last + 1))
        keys = R.choice([["dev_score"], ["dev_score", "dev_error"], ["train_score", "dev_score", "devtrain_error"]])
        sc = {}
        for e in eps:
            sc[str(e)] = {k: R.choice([R.randint(0, 5), R.random(), 1.0]) for k in keys}
            if R.random() < 0.1:
                for k in keys[1:]:
                    sc[str(e)].pop(k)
            if R.random() < 0.05:
                sc[str(e)][keys[0]] = "nan"
            elif R.random() < 0.03:
                sc[str(e)][keys[0]] = "inf"
        if R.random() < 0.05:
            for e in eps:
                sc[str(e)][keys[0]] = 3.0
        opts = {}
        if R.random() < 0.7:
            opts["keep_last_n"] = R.randint(1, 6)
        if R.random() < 0.7:
            opts["keep_best_n"] = R.randint(0, 6)
        if R.random() < 0.6:
            opts["keep"] = R.sample(range(1, last + 5), R.randint(0, 4))
        yield dict(kind="cleanup", epochs=eps, scores=sc, opts=opts, dry=R.random() < 0.05, real=R.random() < 0.2, extra=R.random() < 0.3)


def from_model(unit, label, m):
    def num(k, d, lo):
        try:
            return max(lo, min(int(m.get(k)), 30))
        except (TypeError, ValueError):
            return d

    n, last, best = num("n", 8, 1), num("keep_last_n", 2, 1), num("keep_best_n", 2, 0)
    R = random.Random(3)
    for n in sorted({n, last + 1, best + 1, last + best + 2, 12}):
        for t in range(40):
            eps = sorted(R.sample(range(1, 60), n))
            keys = ["dev_score", "dev_error"][: 1 + t % 2]
            yield dict(kind="cleanup", epochs=eps, scores={str(e): {k: R.choice([R.randint(0, 3), R.random()]) for k in keys} for e in eps},
                       opts=dict(keep_last_n=last, keep_best_n=best, keep=[7, eps[0]][: t % 3]), dry=False, real=False, extra=False)


def run_case(c):
    import returnn.log; returnn.log.log.initialize(verbosity=[0])
    from returnn.config import Config
    from returnn.engine.base import EngineBase
    from returnn.learning_rate_control import ConstantLearningRate, LearningRateControl

    tmp = tempfile.mkdtemp(prefix="p06_", dir=os.environ.get("PYVC_TMP"))
    try:
        _run(c, tmp, Config, EngineBase, ConstantLearningRate, LearningRateControl)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(c, tmp, Config, EngineBase, ConstantLearningRate, LearningRateControl):
    from returnn.util.basic import BackendEngine

    eps = list(c["epochs"])
    model = os.path.join(tmp, "net")
    files = {e: "%s.%03d" % (model, e) for e in eps}
    for e, f in files.items():
        for suf in (".pt", ".opt.pt") if (e % 3 or not c["real"]) else (".pt",):
            with open(f + suf, "w") as fh:
                fh.write("x")
    lr = ConstantLearningRate(default_learning_rate=0.1)
    for e in eps:
        err = {k: float(v) for k, v in c["scores"][str(e)].items()}
        lr.epoch_data[e] = LearningRateControl.EpochData(learning_rate=0.1, error=err)
    if c["extra"]:
        for e in range(1, max(eps) + 1):
            if e not in lr.epoch_data:
                lr.epoch_data[e] = LearningRateControl.EpochData(learning_rate=0.1, error={"other_score": 1.0, "dev_score": -5.0})
    cfg = Config()
    cfg.update(dict(cleanup_old_models=dict(c["opts"]), model=model, num_epochs=max(eps) + 3, task="train", dry_run=bool(c["dry"]), use_tensorflow=False, backend="torch"))
    if BackendEngine.selected_engine is None:
        BackendEngine.select_engine(engine=BackendEngine.Torch)
    deleted = []
    if c["real"]:
        from returnn.torch.engine import Engine as TE

        class Eng(EngineBase):
            delete_model = staticmethod(TE.delete_model)
    else:
        class Eng(EngineBase):
            @staticmethod
            def delete_model(filename):
                deleted.append(filename)
                return 1

    eng = Eng(cfg)
    eng.learning_rate_control = lr
    eng.cleanup_old_models()
    if c["real"]:
        rem = {f for f in os.listdir(tmp)}
        gone = set()
        for e, f in files.items():
            b = os.path.basename(f)
            if b + ".pt" not in rem:
                gone.add(e)
                if b + ".opt.pt" in rem:
                    raise Violation("epoch %i: model deleted, optimizer state left behind" % e)
            elif e % 3 and b + ".opt.pt" not in rem:
                raise Violation("epoch %i: optimizer state deleted, but the model kept" % e)
    else:
        inv = {f: e for e, f in files.items()}
        bad = [f for f in deleted if f not in inv]
        if bad:
            raise Violation("deleted %r which is no stored model" % bad)
        gone = {inv[f] for f in deleted}
        if len(gone) != len(deleted):
            raise Violation("a model is deleted twice: %r" % deleted)
    ln, bn = c["opts"].get("keep_last_n", 2), c["opts"].get("keep_best_n", 4)
    must = set(eps[-ln:])
    if "keep" in c["opts"]:
        must |= set(c["opts"]["keep"]) & set(eps)
    keys = {k for e in eps for k in c["scores"][str(e)]}
    for k in sorted(keys):
        vals = {e: float(c["scores"][str(e)][k]) for e in eps if k in c["scores"][str(e)]}
        fin = {e: (v if v == v else float("inf")) for e, v in vals.items()}
        if len(set(fin.values())) <= 1:
            continue
        worst = max(fin.values())
        order = sorted((fin.get(e, worst), e) for e in eps)
        for v, e in order[:bn]:
            if e in gone:
                raise Violation("epoch %i was deleted, but it is among the %i best by %s (%r)" % (e, bn, k, {e: vals.get(e) for _, e in order[:bn]}))
            must.add(e)
    if gone & must:
        raise Violation("deleted %r, which had to be kept (last %i: %r, keep %r)" % (sorted(gone & must), ln, eps[-ln:], c["opts"].get("keep")))
    if c["dry"] and gone:
        raise Violation("dry run deleted %r" % gone)
    if max(ln, bn) >= len(eps) and gone:
        raise Violation("deleted %r although only %i models are stored" % (gone, len(eps)))
    if "keep" in c["opts"] and not c["dry"] and max(ln, bn) < len(eps):
        left = set(eps) - gone - must
        if left:
            raise Violation("epochs %r are neither recent, best nor configured, but were not deleted" % sorted(left))
