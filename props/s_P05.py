from props.lib import *
from props.lib import _t, _simp
from pyvc.helpers import FilterSeq
from pyvc.seqs import SymStr
import returnn.engine.base as EB
import returnn.util.basic as UB

F = "returnn/engine/base.py:EngineBase."


def fname(e, pre=False):
    return SymStr(["net" + (".pretrain" if pre else "") + ".", ("03d", SymNum(_t(e)))])


class Scan(LoopContract):
    """file_list has exactly the epochs scanned so far which have a usable checkpoint, with their file"""

    name = "scan for checkpoints"

    def match(self, L):
        if L.kind != "for" or not isinstance(L.seq, Range):
            return False
        self.v = [k for k, v in L.env.items() if isinstance(v, PDict) and not v.log and v.base_has is None]
        return len(self.v) == 1

    def havoc(self, L):
        g = S.g
        d = L[self.v[0]]
        L.modifies(d)
        rng = Range(z3.IntVal(1), _simp(L.i + 1), 1)
        keys = FilterSeq(rng, lambda x: g.ok(x), lambda x: x)
        keys.distinct = True
        L.ghost("keyseq")
        g.keyseq = keys
        d.log = []
        d.base_has = lambda x: And(x >= 1, x <= SymNum(L.i), g.ok(x))
        d.base_get = lambda x: g.file(x)
        d.base_keys = keys
        return {self.v[0]: d} if self.v[0] in L.names else {}

    def inv(self, L):
        g = S.g
        d = L[self.v[0]]
        if L.mode == "assume":
            return
        if L.mode == "entry":
            yield "no checkpoint yet", not d.log and d.base_has is None
            return
        e = S.int("any_epoch")
        want = And(e >= 1, e <= SymNum(L.i), g.ok(e))
        ok, v = d.lookup(e)
        yield "a checkpoint is listed exactly if it is usable", want if ok else Not(want)
        if ok:
            yield "it is listed with its file", eq(v, g.file(e))


def cfg_of(d, g):
    def value(k, default=None, *a, **kw):
        return d.get(k, default)

    return SymMethodObj(value=value, int=lambda k, dd=None: d.get(k, dd), has=lambda k: k in d)


def setup(backend, task, ft="task", **opts):
    g = S.g
    g.num = S.int("num_epochs", lo=0)
    S.inputs["num_epochs"] = g.num
    ex = {}

    def exists(fn):
        if not isinstance(fn, SymStr):
            raise Unsupported("exists of %r" % (fn,))
        p = fn.pieces
        if not (isinstance(p[0], str) and p[0] in ("net.", "net.pretrain.") and len(p) in (2, 3) and p[1][0] == "03d"):
            raise Unsupported("exists of %r" % (fn,))
        key = (p[0], p[2] if len(p) == 3 else "")
        if key not in ex:
            ex[key] = S.func("exists_%s_%s" % key, z3.IntSort(), z3.BoolSort())
        return mkbool(ex[key](_t(p[1][1])))

    def usable(e, pre, for_training):
        fn = fname(e, pre)
        alt = exists(fn + ".index") if backend == "tf" else And(exists(fn + ".pt"), Or(Not(mkbool(bterm(for_training))), exists(fn + ".opt.pt")))
        return Or(exists(fn), alt)

    g.ft = (task == "train") if ft == "task" else ft

    def ok(e):
        r = usable(e, False, g.ft)
        return Or(r, usable(e, True, g.ft)) if backend == "tf" else r

    def file(e):
        if backend == "tf":
            pieces = fname(e).pieces
            return fname(e) if S.decide(usable(e, False, g.ft)) else fname(e, True)
        return fname(e)

    g.ok, g.file = ok, file
    EB.os = SymMethodObj(path=SymMethodObj(exists=exists))
    UB.BackendEngine.is_tensorflow_selected = classmethod(lambda cls: backend == "tf")
    UB.BackendEngine.is_torch_selected = classmethod(lambda cls: backend == "torch")

    def epoch_of(fn):
        return fn.pieces[1][1]

    UB.model_epoch_from_filename = epoch_of
    d = dict(model="net", num_epochs=g.num, task=task)
    d.update(opts)
    g.keyseq = None
    return cfg_of(d, g)


def u_list(backend, task, ft):
    def un():
        g = S.g
        cfg = setup(backend, task, S.bool("for_training") if ft == "sym" else "task")
        S.reachable()
        r = EB.EngineBase.get_existing_models(cfg, for_training=g.ft if ft == "sym" else None)
        e = S.int("e")
        want = And(e >= 1, e <= g.num, g.ok(e))
        ok, v = r.lookup(e) if isinstance(r, PDict) else (e in r, r.get(e))
        S.prove(want if ok else Not(want), "exactly the epochs with a usable checkpoint are listed")
        if ok:
            S.prove(eq(v, g.file(e)), "with their file")

    return un


def newest(em, num, label=""):
    """postcondition: em is the newest usable checkpoint up to epoch num, or (None, None) if there is none"""
    g = S.g
    e = S.int("other_epoch", lo=1)
    S.assume(And(e <= num, g.ok(e)))
    if g.keyseq is not None:
        g.keyseq.instantiate(_simp(e.t - 1))
        r = g.keyseq.rank(_simp(e.t - 1))
        g.keyseq.at(r)
        if g.srt is not None:
            g.srt_touch(r)
    if em[0] is None:
        S.prove(False, "a usable checkpoint is never overlooked")
        return
    S.prove(em[0] >= e, "no newer usable checkpoint exists")


def u_auto(backend, task, start=False, opts=None):
    def un():
        g = S.g
        cfg = setup(backend, task, **(opts or {}))
        g.srt = None
        import pyvc.seqs as SQ
        import pyvc.helpers as HM

        orig = SQ.sorted_seq

        def sorted_seq(s, key=None, reverse=False):
            r = orig(s, key=key, reverse=reverse)
            g.srt = r
            p = getattr(r, "sort_perm", None)
            g.srt_touch = lambda j: r.at(p.surj(j)) if p is not None else None
            return r

        for mod in (SQ, HM):
            setattr(mod, "sorted_seq", sorted_seq)
        S.reachable()
        try:
            if start:
                st = EB.EngineBase.get_train_start_epoch(cfg)
                em = (None if bool(st == 1) else st - 1, None)
            else:
                em = EB.EngineBase.get_epoch_model(cfg)
        finally:
            for mod in (SQ, HM):
                setattr(mod, "sorted_seq", orig)
        if em[0] is not None:
            S.prove(And(em[0] >= 1, em[0] <= g.num, g.ok(em[0])), "the epoch before the start has a usable checkpoint" if start else "the chosen checkpoint is usable")
            if not start:
                S.prove(eq(em[1], g.file(em[0])), "the chosen file is the one of the chosen epoch")
        elif not start:
            S.prove(em[1] is None, "no epoch, no file")
        newest(em, g.num)

    return un


def u_load_epoch(backend, task):
    def un():
        g = S.g
        le = S.int("load_epoch", lo=1)
        S.inputs["load_epoch"] = le
        cfg = setup(backend, task, load_epoch=le)
        S.reachable()
        g.num = If(le > g.num, le, g.num)
        try:
            em = EB.EngineBase.get_epoch_model(cfg)
        except AssertionError:
            S.prove(Not(g.ok(le)), "an existing checkpoint of the requested epoch is accepted")
            return
        S.prove(g.ok(le), "a requested epoch without usable checkpoint is an error")
        S.prove(eq(em[0], le), "the requested epoch is loaded")
        S.prove(eq(em[1], g.file(le)), "with its file")

    return un


def u_start_epoch(backend):
    def un():
        g = S.g
        st = S.int("start_epoch", lo=1)
        cfg = setup(backend, "train", start_epoch=st)
        S.reachable()
        g.srt = None
        try:
            em = EB.EngineBase.get_epoch_model(cfg)
        except KeyError:
            S.prove(Not(And(g.ok(st - 1), st - 1 >= 1, st - 1 <= g.num)), "an existing checkpoint of the epoch before is accepted")
            return
        if em[0] is None:
            S.prove(em[1] is None, "no file without epoch")
            e = S.int("other_epoch", lo=1)
            S.assume(And(e <= g.num, g.ok(e)))
            if g.keyseq is not None:
                g.keyseq.instantiate(_simp(e.t - 1))
            S.prove(st == 1, "from scratch only with start_epoch 1, or without any checkpoint")
        else:
            S.prove(eq(em[0], st - 1), "the checkpoint of the epoch before the requested start is used")
            S.prove(eq(em[1], g.file(st - 1)), "with its file")
            S.prove(g.ok(st - 1), "the checkpoint exists")

    return un


def units(tier):
    L = [Scan()]
    ge, gm, gs = F + "get_existing_models", F + "get_epoch_model", F + "get_train_start_epoch"
    gn, ef = F + "config_get_final_epoch", F + "epoch_model_filename"
    for b, n in (("torch", "torch"), ("tf", "TF")):
        k = dict(loops=L, functions=[ge, gn, ef], pdict=True)
        yield "%s: list of checkpoints" % n, u_list(b, "train", "sym"), k
        yield "%s: list of checkpoints, by task train" % n, u_list(b, "train", "task"), k
        yield "%s: list of checkpoints, other task" % n, u_list(b, "forward", "task"), k
        k = dict(loops=L, functions=[ge, gm, gn, ef], pdict=True)
        yield "%s: newest checkpoint, training" % n, u_auto(b, "train"), k
        yield "%s: newest checkpoint, other task" % n, u_auto(b, "forward"), k
        yield "%s: training start epoch" % n, u_auto(b, "train", True), dict(loops=L, functions=[ge, gm, gs, gn, ef], pdict=True)
        yield "%s: load_epoch" % n, u_load_epoch(b, "forward"), k
        yield "%s: start_epoch" % n, u_start_epoch(b), k
    S.assumptions += [
        "os.path.exists is an arbitrary function of the file name, constant during the call (TF and Torch naming)",
        "model_epoch_from_filename returns the epoch number the file name was made with (run-time checked only)",
        "Config accessors return the configured value or the default (see P13)",
    ]
