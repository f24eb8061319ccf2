from props.lib import *
from props.lib import _t, _simp
from pyvc.gfs import *
from pyvc.gfs import Data, Old, Partial, GhostFS, OS, same
from pyvc.seqs import SymStr
import returnn.learning_rate_control as LR
import returnn.torch.updater as UP
import returnn.torch.engine as TE
import returnn.util.basic as UB
import returnn.datasets.hdf as HD


def u_lr(existing, stale):
    def un():
        g = S.g
        old = Old()
        final, new = "lr-file", ["REPR", "\n"]

        def ok(fs):
            c = fs.content(final)
            if c is None:
                return not existing
            return c is old or isinstance(c, Data) and "".join(c.what) == "REPR\n"

        def inv(fs, op):
            S.prove(ok(fs), "at every crash point the file is the old one or completely the new one")

        fs = GhostFS(inv)
        if existing:
            fs.init(final, old)
        if stale:
            fs.init(final + ".new_tmp", Partial())
        S.fs = fs
        LR.os = OS(fs)
        LR.better_repr = lambda x: "REPR" if x is g.data else "OTHER"
        g.data = {}
        c = object.__new__(LR.ConstantLearningRate)
        c.__dict__.update(filename=final, epoch_data=g.data)
        S.reachable()
        try:
            c.save()
        except OSError:
            S.prove(ok(fs), "after a failed write the file is the old one or completely the new one")
            return
        c = fs.content(final)
        S.prove(isinstance(c, Data) and "".join(c.what) == "REPR\n", "after saving the file has all the data")

    return un


def updater():
    up = object.__new__(UP.Updater)
    opt = SymMethodObj(state_dict=lambda: "OPT-STATE")
    up.__dict__.update(optimizer=opt, _optimizer_opts={}, _current_epoch=1, _current_train_step=S.int("step"))
    up._get_opt_param_names = lambda: (["p"], None)
    up.get_effective_learning_rate = lambda: 1.0
    return up


def is_opt(c):
    return isinstance(c, Data) and isinstance(c.what, (dict, PDict)) and c.what.get("optimizer") == "OPT-STATE" and c.what.get("param_names") == ["p"]


def u_opt(existing, stale):
    def un():
        old = Old()
        final = SymStr(["net.", ("03d", S.int("epoch", lo=1)), ".opt.pt"])

        def ok(fs):
            c = fs.content(final)
            return not existing if c is None else c is old or is_opt(c)

        def inv(fs, op):
            S.prove(ok(fs), "at every crash point the optimizer file is the old one or completely the new one")

        fs = GhostFS(inv)
        if existing:
            fs.init(final, old)
        if stale:
            fs.init(final + ".tmp_write", Partial())
        UP.os = OS(fs)
        UP.torch = SymMethodObj(save=fs.save_obj)
        up = updater()
        S.reachable()
        try:
            up.save_optimizer(final)
        except OSError:
            S.prove(ok(fs), "after a failed write the optimizer file is the old one or completely the new one")
            return
        S.prove(is_opt(fs.content(final)), "after saving the optimizer file has the whole state")

    return un


def u_epoch(keep_logic, do_save):
    """save of model and optimizer at the end of an epoch; the epoch before has a complete pair"""

    def un():
        g = S.g
        ep = S.int("epoch", lo=1)
        S.inputs["epoch"] = ep
        step = S.int("global_step", lo=0)

        def name(e, suf):
            return SymStr(["net.", ("03d", e), suf])

        def is_model(c):
            return isinstance(c, Data) and isinstance(c.what, (dict, PDict)) and c.what.get("model") is state and c.what.get("epoch") is ep and c.what.get("step") is step

        state = {"w": 1}
        old1, old2, oldm2 = Old(), Old(), Old()
        first = bool(ep == 1)

        def resumable(fs):
            before = not first and fs.content(name(ep - 1, ".pt")) is old1 and fs.content(name(ep - 1, ".opt.pt")) is old2
            now = is_model(fs.content(name(ep, ".pt"))) and is_opt(fs.content(name(ep, ".opt.pt")))
            return before or now

        def complete(fs):
            a, b = fs.content(name(ep, ".pt")), fs.content(name(ep, ".opt.pt"))
            return (a is None or isinstance(a, Old) or is_model(a)) and (b is None or isinstance(b, Old) or is_opt(b))

        def inv(fs, op):
            S.prove(complete(fs), "at every crash point a file under its final name is complete")
            if not first:
                S.prove(resumable(fs), "at every crash point some epoch has model and optimizer, and training can resume from it")
                S.prove(fs.content(name(ep - 1, ".pt")) is old1, "the model of the epoch before is not touched")
            if not first and g.had2:
                S.prove(fs.content(name(ep - 2, ".pt")) is oldm2, "older models are not touched")

        fs = GhostFS(inv)
        g.had2 = False
        if not first:
            fs.init(name(ep - 1, ".pt"), old1)
            fs.init(name(ep - 1, ".opt.pt"), old2)
            if bool(ep > 2):
                g.had2 = True
                fs.init(name(ep - 2, ".pt"), oldm2)
                if S.choose(2, "old optimizer state"):
                    fs.init(name(ep - 2, ".opt.pt"), Old())
        if S.choose(2, "stale temp file"):
            fs.init(name(ep, ".pt.tmp_write"), Partial())
        rerun = S.choose(2, "model without optimizer from an earlier run")
        if rerun:
            fs.init(name(ep, ".pt"), Old())
        UP.os = TE.os = OS(fs)
        UP.torch = TE.torch = SymMethodObj(save=fs.save_obj)
        UB.BackendEngine.is_tensorflow_selected = classmethod(lambda cls: False)
        UB.BackendEngine.is_torch_selected = classmethod(lambda cls: True)
        UB.BackendEngine.selected_engine = 1
        up = updater()
        eng = object.__new__(TE.Engine)
        eng.__dict__.update(
            epoch=ep, model_filename="net", pretrain=None, global_train_step=step, _ignore_param_set=set(), _updater=up,
            _pt_model=SymMethodObj(state_dict=lambda: state), config=SymMethodObj(bool=lambda k, d: keep_logic if k == "apply_cleanup_old_models_to_optim_states" else d),
        )
        eng._do_save = lambda: do_save
        S.reachable()
        try:
            eng._save_model()
            eng._save_optimizer()
        except OSError:
            S.prove(complete(fs) and (first or resumable(fs)), "after a failed write training can still resume")
            return
        if not do_save:
            S.prove(not fs.trace, "a process which does not save writes nothing")
            return
        S.prove(is_model(fs.content(name(ep, ".pt"))) and is_opt(fs.content(name(ep, ".opt.pt"))), "after the epoch its model and optimizer are complete on disk")

    return un


def u_hdf(extend):
    def un():
        old = Old()
        final, tmp = "out.hdf", "tmp.hdf"
        data = Data("hdf")

        def ok(fs):
            c = fs.content(final)
            return (not extend) if c is None else (extend and c is old) or c is data

        def inv(fs, op):
            S.prove(ok(fs), "at every crash point the output file is absent or the old one, or complete")

        fs = GhostFS(inv)
        fs.dirname = lambda n: "."
        fs.init(tmp, data)
        if extend:
            fs.init(final, old)
        w = object.__new__(HD.SimpleHDFWriter)
        w.__dict__.update(_file=SymMethodObj(close=lambda: None), tmp_filename=tmp, filename=final, extend_existing_file=extend)
        import sys

        import os as real_os
        import shutil as real_sh

        o, sh = OS(fs), SymMethodObj(copyfile=fs.copyfile, copy=fs.copyfile, move=fs.rename)
        sys.modules["os"], sys.modules["shutil"] = o, sh
        S.reachable()
        try:
            w.close()
        except OSError:
            S.prove(ok(fs), "after a failed write the output file is absent or the old one, or complete")
            return
        finally:
            sys.modules["os"], sys.modules["shutil"] = real_os, real_sh
        S.prove(fs.content(final) is data and fs.content(tmp) is None, "after closing the output file is complete")

    return un


def units(tier):
    for ex in (False, True):
        for st in (False, True):
            n = "existing=%s stale temp=%s" % (ex, st)
            yield "learning rate file, " + n, u_lr(ex, st), dict(functions=["returnn/learning_rate_control.py:LearningRateControl.save"])
            yield "optimizer state, " + n, u_opt(ex, st), dict(functions=["returnn/torch/updater.py:Updater.save_optimizer"])
    fs = ["returnn/torch/engine.py:Engine._save_model", "returnn/torch/engine.py:Engine._save_optimizer", "returnn/torch/updater.py:Updater.save_optimizer"]
    for k in (False, True):
        yield "epoch checkpoint, keep optimizer states=%s" % k, u_epoch(k, True), dict(functions=fs)
    yield "epoch checkpoint, not the saving process", u_epoch(False, False), dict(functions=fs)
    for ex in (False, True):
        yield "HDF output, extend=%s" % ex, u_hdf(ex), dict(functions=["returnn/datasets/hdf.py:SimpleHDFWriter.close"])
    S.assumptions += [
        "contract of the file operations: rename replaces the target in one step; opening for writing, torch.save and copyfile leave partial content at any point before they return; after a crash the disk has what was done before it, in order",
        "torch.save writes all of the given object when it returns",
        "the state of the epoch before was saved completely (induction over the epochs); the saving calls are made in the order model, optimizer by train_epoch (run-time checked only)",
    ]
