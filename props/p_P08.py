"""P08 concrete side: a crash is injected at every file operation; afterwards the files on disk are inspected and training resumes"""
import os
import io
import random
import shutil
import builtins
import tempfile
from pyvc.concrun import Violation, Skip


class Crash(BaseException):
    pass


def cases(tier, seed):
    R = random.Random(seed)
    for t in range(120 if tier == "quick" else 600):
        yield dict(kind="lr", existing=t % 2 == 0, n=R.randint(1, 6), at=t // 2 % 12, fail=R.choice(["crash", "oserror"]), stale=R.random() < 0.3)
    for ext in (False, True):
        for at in range(0, 9):
            yield dict(kind="hdf", extend=ext, at=at, fail="crash")
    ats = list(range(0, 34))
    R.shuffle(ats)
    for at in [-1] + (ats):
        yield dict(kind="train", at=at, epochs=3, fail=R.choice(["crash", "oserror"]) if at >= 0 else "crash", cleanup=R.random() < 0.5)


def from_model(unit, label, m):
    if unit.startswith("learning"):
        for at in range(12):
            for fail in ("crash", "oserror"):
                for ex in (False, True):
                    yield dict(kind="lr", existing=ex, n=3, at=at, fail=fail, stale=False)
    elif unit.startswith("HDF"):
        for ext in (False, True):
            for at in range(9):
                yield dict(kind="hdf", extend=ext, at=at, fail="crash")
    else:
        for at in range(34):
            for fail in ("crash", "oserror"):
                yield dict(kind="train", at=at, epochs=3, fail=fail, cleanup=False)


class Inject:
    """counts file operations below root; crashes at operation number `at` (before it, or in the middle of a write)"""

    def __init__(self, root, at, fail):
        self.root, self.at, self.n, self.fail = os.path.abspath(root), at, 0, fail
        self.hit = False

    def mine(self, p):
        try:
            return os.path.abspath(os.fspath(p)).startswith(self.root)
        except TypeError:
            return False

    def point(self):
        """-> True if it has to fail now"""
        k = self.n
        self.n += 1
        if k == self.at and not self.hit:
            self.hit = True
            return True
        return False

    def boom(self):
        raise Crash() if self.fail == "crash" else OSError(28, "No space left on device (injected)")

    def __enter__(self):
        import torch

        me = self
        self.saved = []

        def patch(mod, name, fn):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fn(getattr(mod, name)))

        def simple(orig):
            def f(p, *a, **k):
                if me.mine(p) and me.point():
                    me.boom()
                return orig(p, *a, **k)

            return f

        for name in ("rename", "replace", "unlink", "remove"):
            patch(os, name, simple)

        def save(orig):
            def f(obj, p, *a, **k):
                if isinstance(p, (str, os.PathLike)) and me.mine(p):
                    b = io.BytesIO()
                    orig(obj, b, *a, **k)
                    if me.point():
                        me.boom()
                    data = b.getvalue()
                    with me.open(p, "wb") as fh:
                        if me.point():
                            fh.write(data[: len(data) // 2])
                            fh.flush()
                            me.boom()
                        fh.write(data)
                    return
                return orig(obj, p, *a, **k)

            return f

        patch(torch, "save", save)

        def copyfile(orig):
            def f(a, b, *x, **k):
                if me.mine(b):
                    if me.point():
                        me.boom()
                    if me.point():
                        with me.open(a, "rb") as fa, me.open(b, "wb") as fb:
                            data = fa.read()
                            fb.write(data[: len(data) // 2])
                        me.boom()
                return orig(a, b, *x, **k)

            return f

        patch(shutil, "copyfile", copyfile)
        self.open = builtins.open

        def opn(orig):
            def f(p, mode="r", *a, **k):
                if isinstance(p, (str, os.PathLike)) and me.mine(p) and any(c in mode for c in "wax+"):
                    if me.point():
                        me.boom()
                    fh = orig(p, mode, *a, **k)
                    class W:  # like a real file: what is written reaches the disk with flush or close
                        def __init__(self):
                            self.pend = []

                        def write(self, x):
                            if me.point():
                                self.flush()
                                fh.write(x[: len(x) // 2])
                                fh.flush()
                                me.boom()
                            self.pend.append(x)
                            return len(x)

                        def writelines(self, xs):
                            for x in xs:
                                self.write(x)

                        def flush(self):
                            for x in self.pend:
                                fh.write(x)
                            self.pend = []
                            fh.flush()

                        def close(self):
                            if self.pend and me.point():
                                if me.fail == "crash":
                                    self.pend = []
                                else:
                                    fh.close()
                                    self.pend = []
                                me.boom()
                            if not fh.closed:
                                self.flush()
                                fh.close()

                        def __del__(self):
                            if self.pend and not (me.hit and me.fail == "crash"):
                                self.flush()

                        def __getattr__(self, n):
                            return getattr(fh, n)

                        def __enter__(self):
                            return self

                        def __exit__(self, t, *e):
                            if t is Crash:
                                self.pend = []
                                return
                            self.close()

                        def __iter__(self):
                            return iter(fh)

                    return W()
                return orig(p, mode, *a, **k)

            return f

        patch(builtins, "open", opn)
        return self

    def __exit__(self, *a):
        for mod, name, orig in reversed(self.saved):
            setattr(mod, name, orig)


def run_case(c):
    import returnn.log; returnn.log.log.initialize(verbosity=[0])

    tmp = tempfile.mkdtemp(prefix="p08_", dir=os.environ.get("PYVC_TMP"))
    try:
        {"lr": _lr, "hdf": _hdf, "train": _train}[c["kind"]](c, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _lr(c, tmp):
    from returnn.learning_rate_control import ConstantLearningRate

    fn = os.path.join(tmp, "lr")

    def fill(ctl, lo, hi):
        for e in range(lo, hi):
            ctl.epoch_data[e] = ctl.EpochData(learning_rate=1.0 / e, error={"dev_score": 0.5 * e, "dev_error_%d" % e: 1.0})

    ctl = ConstantLearningRate(default_learning_rate=1.0, filename=fn)
    old = None
    if c["existing"]:
        fill(ctl, 1, 1 + c["n"])
        ctl.save()
        old = open(fn).read()
    if c["stale"]:
        with open(fn + ".new_tmp", "w") as f:
            f.write("{1: EpochData(learn")
    fill(ctl, 1 + c["n"], 4 + 2 * c["n"])
    with Inject(tmp, c["at"], c["fail"]) as inj:
        try:
            ctl.save()
            done = True
        except (Crash, OSError):
            done = False
    now = open(fn).read() if os.path.exists(fn) else None
    if done:
        want = {e: (d.learning_rate, d.error) for e, d in ctl.epoch_data.items()}
        got = {e: (d.learning_rate, d.error) for e, d in ConstantLearningRate(default_learning_rate=1.0, filename=fn).epoch_data.items()}
        if got != want:
            raise Violation("saved without error, but the file has %s" % (now,))
        return
    if now == old:
        return
    try:
        got = {e: (d.learning_rate, d.error) for e, d in ConstantLearningRate(default_learning_rate=1.0, filename=fn).epoch_data.items()}
    except Exception as e:
        raise Violation("crash at file operation %d leaves a broken learning rate file: %r (%s)" % (c["at"], now, e))
    if got != {e: (d.learning_rate, d.error) for e, d in ctl.epoch_data.items()}:
        raise Violation("crash at file operation %d: neither the old nor the new data: %r" % (c["at"], now))


def _hdf(c, tmp):
    import numpy
    import h5py
    from returnn.datasets.hdf import SimpleHDFWriter

    fn = os.path.join(tmp, "out.hdf")
    td = tempfile.tempdir
    tempfile.tempdir = tmp
    try:

        def write(w, lo, hi):
            for i in range(lo, hi):
                w.insert_batch(inputs=numpy.full((1, 3, 2), i, dtype="float32"), seq_len=[3], seq_tag=["seq-%d" % i])

        n0 = 0
        if c["extend"]:
            w = SimpleHDFWriter(fn, dim=2)
            write(w, 0, 2)
            w.close()
            n0 = 2
        with Inject(tmp, c["at"], c["fail"]):
            try:
                w = SimpleHDFWriter(fn, dim=2, extend_existing_file=c["extend"])
                write(w, n0, n0 + 3)
                w.close()
                done = True
            except (Crash, OSError):
                done = False
        if not os.path.exists(fn):
            if done or c["extend"]:
                raise Violation("crash at file operation %d: output file is gone" % c["at"])
            return
        try:
            with h5py.File(fn, "r") as f:
                n = len(f["seqTags"])
        except Exception as e:
            raise Violation("crash at file operation %d leaves a broken HDF file: %s" % (c["at"], e))
        if n != n0 + 3 and not (n == n0 and c["extend"] and not done):
            raise Violation("crash at file operation %d: HDF file has %d sequences" % (c["at"], n))
    finally:
        tempfile.tempdir = td


_MODEL = []


def _model_class():
    if _MODEL:
        return _MODEL[0]
    import torch

    class M(torch.nn.Module):
        def __init__(self, **kw):
            super().__init__()
            self.lin = torch.nn.Linear(9, 2)
            self.drop = torch.nn.Dropout(0.1)

        def forward(self, x):
            return self.drop(self.lin(x))

        @classmethod
        def train_step(cls, *, model, extern_data, **kw):
            import returnn.frontend as rf

            x, y = extern_data["data"], extern_data["classes"]
            logits = model(x.raw_tensor)
            logits = torch.nn.utils.rnn.pack_padded_sequence(logits, x.dims[1].dyn_size, batch_first=True, enforce_sorted=False).data
            targets = torch.nn.utils.rnn.pack_padded_sequence(y.raw_tensor, x.dims[1].dyn_size, batch_first=True, enforce_sorted=False).data
            rf.get_run_ctx().mark_as_loss(name="ce", loss=torch.nn.CrossEntropyLoss()(logits, targets.long()))

    _MODEL.append(M)
    return M


def _engine(tmp, epochs, cleanup):
    import torch
    from returnn.config import Config, global_config_ctx
    from returnn.datasets import init_dataset
    from returnn.torch.engine import Engine

    M = _model_class()
    cfg = Config(dict(
        task="train", device="cpu", extern_data={"data": {"dim": 9}, "classes": {"dim": 2, "sparse": True}}, get_model=M, train_step=M.train_step,
        batch_size=200, optimizer={"class": "adam"}, num_epochs=epochs, model=os.path.join(tmp, "m", "net"), learning_rate_file=os.path.join(tmp, "lr"),
        learning_rate_control="newbob", learning_rate=0.01, save_interval=1, torch_dataloader_opts={"num_workers": 0}, **({"cleanup_old_models": {"keep_last_n": 1, "keep_best_n": 1, "keep": []}} if cleanup else {}),
    ))
    ds = [init_dataset({"class": "Task12AXDataset", "num_seqs": 8, "name": n, "fixed_random_seed": None if n == "train" else 1}) for n in ("train", "dev")]
    for d in ds:
        d.init_seq_order(epoch=1)
    return cfg, global_config_ctx(cfg), Engine, ds


def _go(tmp, epochs, cleanup):
    """-> start epoch"""
    import torch

    torch.manual_seed(1)
    cfg, ctx, Engine, (tr, dev) = _engine(tmp, epochs, cleanup)
    from returnn.torch.engine import Engine as E

    with ctx:
        eng = Engine(config=cfg)
        eng.init_train_from_config(train_data=tr, dev_data=dev)
        st = E.get_train_start_epoch(cfg)
        eng.train()
    return st


_REF = {}


def _final(tmp, epochs):
    import torch

    d = torch.load(os.path.join(tmp, "m", "net.%03d.pt" % epochs))
    return {k: v.clone() for k, v in d["model"].items()}, d["step"]


def _train(c, tmp):
    import torch
    from returnn.config import Config
    from returnn.learning_rate_control import ConstantLearningRate

    cwd = os.getcwd()
    key = c["epochs"]
    if key not in _REF:
        d = os.path.join(tmp, "ref")
        os.makedirs(d)
        _go(d, c["epochs"], False)
        _REF[key] = _final(d, c["epochs"])
    d = os.path.join(tmp, "run")
    os.makedirs(d)
    with Inject(d, c["at"], c["fail"]) as inj:
        try:
            _go(d, c["epochs"], c["cleanup"])
            done = True
        except (Crash, OSError):
            done = False
    good = {}
    mdir = os.path.join(d, "m")
    for f in sorted(os.listdir(mdir)) if os.path.isdir(mdir) else []:
        if f.endswith(".pt"):
            try:
                x = torch.load(os.path.join(mdir, f))
            except Exception as e:
                raise Violation("crash at file operation %d (%s) leaves a broken checkpoint %s: %s" % (c["at"], c["fail"], f, str(e)[:100]))
            e = int(f.split(".")[1])
            if x["epoch"] != e:
                raise Violation("%s was written in epoch %s" % (f, x["epoch"]))
            good.setdefault(e, set()).add(f.endswith(".opt.pt"))
    both = [e for e, s in good.items() if s == {False, True}]
    if os.path.exists(os.path.join(d, "lr")):
        try:
            lr = ConstantLearningRate(default_learning_rate=1.0, filename=os.path.join(d, "lr"))
        except Exception as e:
            raise Violation("crash at file operation %d leaves a broken learning rate file: %s" % (c["at"], e))
        # the scores of an epoch are recorded before its model is saved
        if good and max(good) not in lr.epoch_data:
            raise Violation("epoch %d has a checkpoint but no learning rate record" % max(good))
    elif good:
        raise Violation("checkpoint without learning rate file")
    if good and max(good) > 1 and not both:
        raise Violation("crash at file operation %d (%s): no epoch has model and optimizer any more: %s" % (c["at"], c["fail"], good))
    if both and max(good) - max(both) > 1:
        raise Violation("newest model is of epoch %d, but the newest resumable one is %d" % (max(good), max(both)))
    if c["at"] >= 0 and not inj.hit and not done:
        raise Skip("not reached")
    st = _go(d, c["epochs"], c["cleanup"])
    want = (max(both) if both else 0) + 1
    if st != want:
        raise Violation("resumed in epoch %d, newest resumable checkpoint was %s" % (st, want - 1))
    ref, step = _REF[key]
    got, gstep = _final(d, c["epochs"])
    if gstep != step or set(got) != set(ref):
        raise Violation("resumed training: %s steps, uninterrupted %s" % (gstep, step))
    for k in ref:
        if not torch.equal(ref[k], got[k]):
            raise Violation("resumed after crash at file operation %d: parameter %s differs from uninterrupted training (max %s)" % (c["at"], k, (ref[k] - got[k]).abs().max().item()))
