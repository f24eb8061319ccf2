"""P05 concrete side: from which checkpoint a training is resumed"""
import os
import random
import shutil
import tempfile
from pyvc.concrun import Violation, Skip


def cases(tier, seed):
    R = random.Random(seed)
    for _ in range(900 if tier == "quick" else 8000):
        n = R.choice([1, 2, 5, 9, 12, 30, 120, 1001])
        be = R.choice(["torch", "torch", "tf"])
        task = R.choice(["train", "train", "train", "search", "forward"])
        fs = []
        top = R.choice([n, n + 2, min(n, 3)])
        for e in sorted(R.sample(range(1 if R.random() < 0.5 else max(1, top - 12), top + 1), R.randint(0, min(top, 10)))):
            if be == "torch":
                fs.append([e, R.choice([[".pt", ".opt.pt"], [".pt", ".opt.pt"], [".pt"], [".opt.pt"], [".pt.tmp_write"], [".opt.pt", ".pt.tmp_write"]])])
            else:
                fs.append([e, R.choice([[".index", ".meta", ".data-00000-of-00001"], [".index", ".meta"], [".meta"]])])
        mode = R.choice(["auto", "auto", "auto", "load_epoch", "start_epoch", "nomodel"])
        opt = None
        if mode == "load_epoch":
            opt = R.choice([e for e, _ in fs] or [1])
        elif mode == "start_epoch":
            opt = R.randint(1, n)
        yield dict(kind="resume", n=n, backend=be, task=task, files=fs, mode=mode, opt=opt, for_training=R.choice([None, None, True, False]))


def from_model(unit, label, m):
    try:
        n = max(1, min(int(m.get("num_epochs")), 40))
    except (TypeError, ValueError):
        n = 6
    R = random.Random(5)
    for n in sorted({n, 3, 12}):
        for t in range(150):
            be = "tf" if "TF" in unit else "torch"
            sufs = [[".pt", ".opt.pt"], [".pt"], [".opt.pt"]] if be == "torch" else [[".index", ".meta"]]
            fs = [[e, R.choice(sufs)] for e in sorted(R.sample(range(1, n + 2), R.randint(0, min(n, 6))))]
            for mode, opt in (("auto", None), ("load_epoch", fs[0][0] if fs else 1), ("start_epoch", R.randint(1, n))):
                for task in ("train", "forward"):
                    yield dict(kind="resume", n=n, backend=be, task=task, files=fs, mode=mode, opt=opt, for_training=None)


def run_case(c):
    import returnn.log; returnn.log.log.initialize(verbosity=[0])

    tmp = tempfile.mkdtemp(prefix="p05_", dir=os.environ.get("PYVC_TMP"))
    try:
        _run(c, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(c, tmp):
    from returnn.config import Config
    from returnn.engine.base import EngineBase
    from returnn.util.basic import BackendEngine

    model = os.path.join(tmp, "net")
    for e, sufs in c["files"]:
        for s in sufs:
            with open("%s.%03d%s" % (model, e, s), "w") as f:
                f.write("x")
    items = dict(num_epochs=c["n"], task=c["task"], model=model)
    if c["mode"] == "nomodel":
        items.pop("model")
    if c["mode"] == "load_epoch":
        items["load_epoch"] = c["opt"]
    if c["mode"] == "start_epoch":
        items["start_epoch"] = str(c["opt"])
    old = BackendEngine.selected_engine
    BackendEngine.select_engine(engine=BackendEngine.Torch if c["backend"] == "torch" else BackendEngine.TensorFlow, config=None)
    try:
        cfg = Config(items)
        final = max(c["n"], c["opt"]) if c["mode"] == "load_epoch" else c["n"]

        def usable(for_training):
            r = {}
            for e, sufs in c["files"]:
                if e > final or c["mode"] == "nomodel":
                    continue
                ok = (".pt" in sufs and (not for_training or ".opt.pt" in sufs)) if c["backend"] == "torch" else ".index" in sufs
                if ok:
                    r[e] = "%s.%03d" % (model, e)
            return r

        ft = c["for_training"]
        got = EngineBase.get_existing_models(cfg, for_training=ft)
        want = usable(c["task"] == "train" if ft is None else ft)
        if dict(got) != want:
            raise Violation("get_existing_models(for_training=%s): %s, expected %s" % (ft, _s(got), _s(want)))
        want = usable(c["task"] == "train")
        train = c["task"] == "train"
        try:
            em = EngineBase.get_epoch_model(cfg)
            exc = None
        except (AssertionError, KeyError) as e:
            em, exc = None, e
        if c["mode"] == "load_epoch":
            if c["opt"] not in want:
                if exc is None:
                    raise Violation("load_epoch %s has no usable checkpoint, but %s was chosen" % (c["opt"], em))
                return
            if exc is not None:
                raise Violation("load_epoch %s: %r" % (c["opt"], exc))
            exp = c["opt"] if not train else max(want)
            if tuple(em) != (exp, want[exp]):
                raise Violation("chosen %s, expected epoch %s" % (em, exp))
            return
        if c["mode"] == "start_epoch":
            s = c["opt"]
            if s == 1 or not want:
                if exc is not None or tuple(em) != (None, None):
                    raise Violation("start_epoch %s: chosen %s %r, expected none" % (s, em, exc))
            elif s - 1 in want:
                if exc is not None or tuple(em) != (s - 1, want[s - 1]):
                    raise Violation("start_epoch %s: chosen %s %r" % (s, em, exc))
            elif exc is None:
                raise Violation("start_epoch %s without checkpoint of the epoch before: chosen %s" % (s, em))
            return
        if exc is not None:
            raise Violation("get_epoch_model: %r" % exc)
        exp = (max(want), want[max(want)]) if want else (None, None)
        if tuple(em) != exp:
            raise Violation("resume from %s, but the newest usable checkpoint is %s" % (em, exp))
        st = EngineBase.get_train_start_epoch(cfg)
        if st != (exp[0] or 0) + 1:
            raise Violation("training starts in epoch %s, newest usable checkpoint is of epoch %s" % (st, exp[0]))
    finally:
        BackendEngine.selected_engine = old


def _s(d):
    return {k: os.path.basename(v) for k, v in d.items()}
