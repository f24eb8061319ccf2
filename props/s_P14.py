"""P14: the torch training loop, evaluation, and the learning rate used by the optimizer"""
from props.lib import *
from props.lib import _t, _simp
import contextlib
import returnn.torch.engine as TE
import returnn.torch.updater as UP
from returnn.util.basic import NumbersDict
from returnn.config import Config

F = "returnn/torch/engine.py:"
UF = "returnn/torch/updater.py:"
LOSSES = ("ce", "err")
real_torch = TE.torch


class Obj:
    """plain record; not a symbolic value"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class TorchStub:
    """torch.tensor of one flag and no_grad; everything else is the real torch"""

    def __getattr__(self, name):
        return getattr(real_torch, name)

    def no_grad(self):
        return contextlib.nullcontext()

    def tensor(self, x, **kw):
        return x


class Clock:
    def __init__(self):
        self.t = 0.0

    def monotonic(self):
        self.t += 1.0
        return self.t

    time = monotonic

    def strftime(self, *a):
        return "now"


class Scalar_(Sym):
    """raw tensor of a loss"""

    def __init__(self, v, backward=None):
        self.v = v
        if backward:
            self.backward = backward

    def detach(self):
        return self

    cpu = float_ = detach

    def item(self):
        return self.v

    def __float__(self):
        return self.v


def batch(j):
    """the raw data of batch j: two sequences of lengths l0, l1, padded to T"""
    g = S.g
    l0, l1 = SymNum(g.len0(_t(j))), SymNum(g.len1(_t(j)))
    T = If(l0 >= l1, l0, l1)
    S.assume(And(l0 >= 1, l1 >= 1))
    return {"k": SymNum(_t(j)), "complete_frac": SymNum(g.frac(_t(j))), "num_seqs": -1, "data": Obj(shape=(2, T, 9)), "data:seq_len": [l0, l1]}


def common():
    g = S.g
    g.n = S.int("n_batches", lo=0)
    S.inputs["n_batches"] = g.n
    I, Rl = z3.IntSort(), z3.RealSort()
    g.frac = S.func("complete_frac", I, Rl)
    g.len0, g.len1 = S.func("len0", I, I), S.func("len1", I, I)
    g.L = {k: S.func("loss_" + k, I, Rl) for k in LOSSES}
    g.N = {k: S.func("norm_" + k, I, Rl) for k in LOSSES}
    # ghost: sums over the batches done so far (by the specification)
    g.sumL = {k: S.func("sumL_" + k, I, Rl) for k in LOSSES}
    g.sumN = {k: S.func("sumN_" + k, I, Rl) for k in LOSSES}
    g.sumP, g.sumQ = S.func("sum_packed", I, I), S.func("sum_padded", I, I)
    for f in list(g.sumL.values()) + list(g.sumN.values()) + [g.sumP, g.sumQ]:
        S.assume(f(z3.IntVal(0)) == 0)
    g.k = SymNum(z3.IntVal(0))  # batches finished
    g.cur = None  # batch being worked on
    g.ran = g.backs = 0
    eng = object.__new__(TE.Engine)
    g.eng = eng
    g.epoch = S.int("epoch", lo=1)
    S.inputs["epoch"] = g.epoch
    g.lrc = Obj(errors=[], saves=0)
    meta = {}

    class EpochData:
        def __getitem__(self, e):
            S.prove(eq(e, g.epoch), "the meta information is that of the epoch")
            return Obj(meta=meta, learning_rate=SymNum(z3.Real("lr_ep")))

    g.meta = meta

    def set_error(ep, d):
        S.prove(eq(ep, g.epoch), "scores are recorded for the epoch")
        g.events.append(("error", dict(d)))

    g.events = []
    start = S.int("start_epoch", lo=1)
    S.assume(start <= g.epoch)
    eng.__dict__.update(
        _start_epoch=start, epoch=g.epoch, _pt_model=Obj(train=lambda: g.events.append("train mode"), eval=lambda: g.events.append("eval mode")), config=Config({}), _device="cpu", _torch_distributed_ctx=None, _ddp_pt_model=None,
        _grad_scaler=None, _log_grad_norm=None, _log_batch_size=False, _log_memory_usage=False, _stop_on_nonfinite_train_score=False, _calculate_exp_loss=False,
        _default_float_dtype=None, extern_data=None, _orig_model=None, model_filename="model", _save_model_epoch_interval=1, _final_epoch=5, eval_datasets={}, _eval_dataloaders={},
        learning_rate_control=Obj(epoch_data=EpochData(), set_epoch_error=set_error, save=lambda: g.events.append("save lr")),
        _maybe_reset_dev_memory_caches=lambda **kw: None, _reset_dev_memory_stats=lambda: None, _maybe_report_dev_memory_stats=lambda: None,
        get_epoch_str=lambda: "epoch", _do_save=lambda: True, _is_dataset_evaluated=lambda name: False,
    )

    def run_step(extern, *, train_flag=False, train_func=True, **kw):
        S.prove(bool(train_flag) == g.train, "run in training mode exactly in training")
        S.prove(bool(train_func), "the train step function is run")
        S.prove(eq(extern["k"], g.cur), "the current batch is run")
        g.ran += 1

    def back():
        S.prove(g.ran == 1, "gradients of the batch just run")
        g.backs += 1
        g.p = g.p + 1
        g.s = g.s + 1

    class Ctx:
        @property
        def losses(self):
            S.prove(g.ran == 1, "losses are those of the batch just run")
            j = _t(g.cur)
            for k in LOSSES:
                S.assume(g.N[k](j) > 0)
            return {k: Obj(as_error=k == "err", get_summed_loss=lambda k=k: Obj(raw_tensor=Scalar_(SymNum(g.L[k](j)))), get_inv_norm_factor=lambda k=k: SymNum(g.N[k](j))) for k in LOSSES}

        def total_loss(self):
            return Obj(raw_tensor=Scalar_(None, back))

    eng._run_step = run_step
    TE.extern_data_util = Obj(raw_dict_to_extern_data=lambda raw, **kw: raw)
    TE.rf = Obj(get_run_ctx=Ctx, set_random_seed=lambda s: g.events.append(("seed", s)))
    TE.torch = TorchStub()
    TE.time = Clock()
    TE._print_process = lambda *a, **kw: None
    TE._format_score = lambda s: ""
    TE.hms = lambda s: ""
    TE.log.verbose = [False] * 6
    TE.help_on_torch_exception = lambda *a, **kw: None
    return eng


def unfold(j):
    """definition of the ghost sums at batch j"""
    g = S.g
    j = _simp(_t(j))
    nx = _simp(j + 1)
    for k in LOSSES:
        S.assume(mkbool(g.sumL[k](nx) == g.sumL[k](j) + g.L[k](j)))
        S.assume(mkbool(g.sumN[k](nx) == g.sumN[k](j) + g.N[k](j)))
        S.assume(mkbool(g.N[k](j) > 0))
    S.assume(mkbool(g.sumP(nx) == g.sumP(j) + g.len0(j) + g.len1(j)))
    T = z3.If(g.len0(j) >= g.len1(j), g.len0(j), g.len1(j))
    S.assume(mkbool(g.sumQ(nx) == g.sumQ(j) + 2 * T))
    S.assume(mkbool(z3.And(g.len0(j) >= 1, g.len1(j) >= 1)))


def sums_fact(k):
    """the sums after k > 0 batches are positive (definition of the ghost sums, by induction)"""
    g = S.g
    S.assume(Implies(k > 0, And(*[mkbool(g.sumN[x](_t(k)) > 0) for x in LOSSES], mkbool(g.sumP(_t(k)) > 0), mkbool(g.sumQ(_t(k)) >= g.sumP(_t(k))))))


class Steps(LoopContract):
    """
    batches k done; candidates for every local: number of batches, size of the current group, group empty;
    number dictionaries are the sums over the batches
    """

    name = "steps"
    SHAPES = ("losses", "norms", "packed", "padded", "free")

    def __init__(self, train):
        self.train = train

    def match(self, L):
        g = S.g
        return getattr(g, "in_loop", None) is None and (L.kind == "while" if self.train else L.kind == "for" and L.seq is g.stream)

    def nd(self, L, n, shape, k):
        g = S.g
        if shape == "free":
            return Undef(n)
        if not S.decide(k > 0):
            v = NumbersDict()
        elif shape in ("losses", "norms"):
            v = NumbersDict({x: SymNum((g.sumL if shape == "losses" else g.sumN)[x](_t(k))) for x in LOSSES})
        else:
            v = NumbersDict({"data": SymNum((g.sumP if shape == "packed" else g.sumQ)(_t(k)))})
        L.modifies_attr(v, "value")
        return v

    def has_shape(self, v, shape, k):
        """does the number dictionary v hold these sums over k batches?"""
        g = S.g
        if shape == "free":
            return True
        if not isinstance(v, NumbersDict) or v.value is not None:
            return False
        if set(v.dict) != (set(LOSSES) if shape in ("losses", "norms") else {"data"}):
            return not v.dict and S.entails(eq(k, 0))
        f = (lambda x: g.sumL[x]) if shape == "losses" else (lambda x: g.sumN[x]) if shape == "norms" else (lambda x: g.sumP) if shape == "packed" else (lambda x: g.sumQ)
        return S.entails(And(*[eq(y, SymNum(f(x)(_t(k)))) for x, y in v.dict.items()]))

    def havoc(self, L):
        g = S.g
        out = {}
        if self.train:
            k = S.int("k", lo=0)
            S.assume(k <= g.n)
            g.p, g.s = S.int("pending", lo=0), S.int("group", lo=0)
            g.gs = S.int("gstep")
            g.eng.global_train_step = g.gs
            L.modifies_attr(g.eng, "global_train_step")
            g.lr_args = (S.int("lr_step"), S.int("lr_epoch"), S.real("lr_cont"), S.bool("lr_cont_none"))
        else:
            k = SymNum(L.i)
        g.k = k
        sums_fact(k)
        g.cur, g.ran, g.backs = None, 1, 1
        L.ghost("k", "p", "s", "gs", "lr_args", "cur", "ran", "backs", "updates", "fetched", "seen")
        g.updates, g.fetched = 0, 0
        for n in L.names:
            if isinstance(L.pre.get(n), NumbersDict):
                shape, _ = L.shape(n, self.SHAPES)
                out[n] = self.nd(L, n, shape, k)
            elif not self.train and n not in L.pre:
                continue
        return out

    def inv(self, L):
        g = S.g
        if self.train and L.mode == "prove" and g.cur is not None:
            g.k = g.cur + 1
        k = g.k if self.train else SymNum(L.i)
        for n in L.names:
            v = L.env.get(n)
            if isinstance(L.pre.get(n), NumbersDict):
                if L.mode != "assume":
                    shape, key = L.shape(n, self.SHAPES)
                    if not self.has_shape(v, shape, k):
                        L.drop(key)
                continue
            if isinstance(v, (bool, SymBool)):
                if self.train:
                    yield "%s: group empty" % n, eq(v, g.s == 0), True
                    yield "%s: group not empty" % n, eq(v, g.s > 0), True
            elif isinstance(v, int) or isinstance(v, SymNum) and v.is_int:
                if isinstance(L.pre.get(n), (int, SymNum)):
                    yield "%s: unchanged" % n, eq(v, L.pre[n]), True
                yield "%s: number of batches" % n, eq(v, k), True
                yield "%s: batches" % n, v >= 0, True
                if self.train:
                    yield "%s: size of the group" % n, eq(v, g.s), True
                    yield "%s: size of the group if not empty" % n, Implies(g.s > 0, eq(v, g.s)), True
        if self.train:
            yield "gradients: exactly those of the current group", Or(g.s == 0, eq(g.p, g.s)), True
            yield "gradients: cleared", eq(g.p, g.s), True
            yield "global step counts the batches", eq(g.eng.global_train_step, g.gs0 + k)
            if L.mode == "prove":
                end_of_batch(L)
                yield "learning rate is set for the next batch", g.lr_ok()
            else:
                yield "learning rate is set for the next batch", g.lr_ok()
        elif L.mode == "prove":
            S.prove(g.ran == 1, "every batch is run exactly once")
            S.prove(g.backs == 0, "evaluation computes no gradients")


def end_of_batch(L):
    g = S.g
    S.prove(g.ran == 1 and g.backs == 1, "every batch is run exactly once and its gradients are computed once")
    if g.updates == 0 and g.cur is not None:
        S.prove(g.s < g.acc_of(g.cur), "the update is done as soon as the configured number of batches is reached")


def lr_expected():
    """arguments of the learning rate for batch k: global step, epoch, part of the training finished before it"""
    g = S.g
    k = g.k
    prev = SymNum(g.frac(_simp(_t(k) - 1)))
    none = And(k > 0, prev < 0)
    cont = If(eq(k, 0), SymNum(z3.ToReal(_t(g.epoch - 1))), SymNum(z3.ToReal(_t(g.epoch))) - 1 + prev)
    return SymNum(_t(g.gs0) + _t(k)), g.epoch, cont, none


def u_train(accum, save, scaler=False):
    def un():
        g = S.g
        eng = common()
        g.train = True
        g.gs0 = S.int("global_step", lo=0)
        eng.global_train_step = g.gs = g.gs0
        g.p, g.s = S.int("old_gradients", lo=0), SymNum(z3.IntVal(0))
        g.updates = g.fetched = 0
        g.A = S.int("accum", lo=1)
        if accum == "func":
            Af = S.func("accum_f", z3.IntSort(), z3.IntSort())

            def dyn(*, epoch, epoch_continuous, global_train_step, **kw):
                f = SymNum(g.frac(_t(g.cur)))
                S.prove(And(eq(epoch, g.epoch), eq(global_train_step, g.gs0 + g.cur)), "accumulation function: epoch and global step")
                if epoch_continuous is None:
                    S.prove(f < 0, "accumulation function: fraction")
                else:
                    S.prove(And(f >= 0, eq(epoch_continuous, g.epoch - 1 + f)), "accumulation function: fraction")
                r = SymNum(Af(_t(g.cur)))
                S.assume(r >= 1)
                return r

            dyn._pv_types = None
            eng.config.typed_dict["accum_grad_multiple_step"] = dyn
            g.acc_of = lambda j: SymNum(Af(_t(j)))
        elif accum == "typed":
            eng.config.typed_dict["accum_grad_multiple_step"] = g.A
            g.acc_of = lambda j: g.A
        else:
            eng.config = Config({})
            eng.config.int = lambda key, default, *a: g.A if key == "accum_grad_multiple_step" else default
            g.acc_of = lambda j: g.A

        def lr_ok():
            a, b = g.lr_args, lr_expected()
            return And(eq(a[0], b[0]), eq(a[1], b[1]), eq(a[3], b[3]), Or(b[3], eq(a[2], b[2])))

        g.lr_ok = lr_ok
        g.lr_args = (g.gs0, g.epoch, SymNum(z3.ToReal(_t(g.epoch - 1))), mkbool(z3.BoolVal(False)))  # set by init_train_epoch (own unit)

        def set_step(*, global_train_step, epoch, epoch_continuous=None):
            none = epoch_continuous is None
            g.lr_args = (global_train_step, epoch, SymNum(z3.RealVal(0)) if none else epoch_continuous, mkbool(z3.BoolVal(none)))

        if scaler:
            eng._grad_scaler = Obj(scale=lambda x: x)

        def step(*, grad_scaler=None):
            S.prove(grad_scaler is eng._grad_scaler, "the configured gradient scaler is used")
            S.prove(g.backs == 1, "an update comes after the gradients of the batch")
            S.prove(eq(g.p, g.s), "an update uses the gradients of exactly the batches of its group")
            S.prove(g.s >= g.acc_of(g.cur), "an update only after the configured number of batches")
            S.prove(g.lr_ok(), "an update uses the learning rate of this step")
            S.prove(g.updates == 0, "one update per group")
            g.updates += 1
            g.s = SymNum(z3.IntVal(0))

        def zero():
            S.prove(eq(g.s, 0), "gradients are only cleared between groups")
            g.p = SymNum(z3.IntVal(0))

        eng._updater = Obj(get_effective_learning_rate=lambda: 0.1, get_optimizer=lambda: Obj(zero_grad=zero), step=step, set_current_train_step=set_step)

        def finish_batch():
            """the batch in work, if any, was finished before the next one is asked for"""
            if g.cur is not None:
                S.prove(g.ran == 1 and g.backs == 1, "every batch is run exactly once and its gradients are computed once")

        class It:
            def __iter__(self):
                return self

            def __next__(self):
                S.prove(g.fetched == 0, "one batch per step")
                g.fetched += 1
                g.ran = g.backs = g.updates = 0
                if not S.decide(g.k < g.n):
                    raise StopIteration
                g.cur = g.k
                unfold(g.k)
                if S.decide(g.k > 0):
                    S.assume(True)
                return batch(g.k)

        eng._train_dataloader = It()
        g.events = []
        ev = g.events
        eng._save_model = lambda: ev.append("model")
        eng._save_optimizer = lambda: ev.append("optimizer")
        eng.eval_model = lambda **kw: ev.append("eval")
        eng.cleanup_old_models = lambda: ev.append("cleanup")
        eng._final_epoch = S.int("final_epoch", lo=1)
        eng._save_model_epoch_interval = S.int("save_interval", lo=1)
        S.assume(eng._final_epoch >= g.epoch)
        if save == "cleanup":
            eng.config.typed_dict["cleanup_old_models"] = True
        if save == "no model":
            eng.model_filename = None
        S.assume(g.n >= 1)
        S.reachable()
        eng.train_epoch()
        n = g.k
        S.prove(eq(n, g.n), "all batches of the epoch are used")
        S.prove(eq(eng.global_train_step, g.gs0 + g.n), "the global step counts the batches")
        S.prove(And(eq(g.meta.get("epoch_num_train_steps"), g.n), eq(g.meta.get("global_train_step_end"), g.gs0 + g.n)), "the number of steps is recorded")
        errs = [x for x in ev if isinstance(x, tuple)]
        S.prove(len(errs) == 1, "the scores of the epoch are recorded once")
        sums_fact(g.n)
        check_scores(errs[0][1], "train_loss_", n)
        names = [x for x in ev if isinstance(x, str)]
        due = Or(eq(g.epoch % eng._save_model_epoch_interval, 0), eq(g.epoch, eng._final_epoch))
        want = save != "no model" and S.decide(due)
        exp = ["train mode", "save lr"] + (["model", "optimizer"] if want else []) + ["eval"] + (["cleanup"] if save == "cleanup" else [])
        S.prove([x for x in names] == exp, "scores are saved, then the model and the optimizer state if due, then evaluation, then clean-up")

    return un


def check_scores(d, prefix, n):
    g = S.g
    S.prove(set(d) == {prefix + x for x in LOSSES}, "a score for every loss")
    for x in LOSSES:
        S.prove(eq(d[prefix + x] * SymNum(g.sumN[x](_t(n))), SymNum(g.sumL[x](_t(n)))), "the score is the sum of the losses divided by the sum of the norm factors")


def u_eval(skip):
    def un():
        g = S.g
        eng = common()
        g.train = False
        g.p = g.s = SymNum(z3.IntVal(0))
        g.updates = g.fetched = 0
        done = {"dev": S.bool("dev_done"), "devtrain": S.bool("devtrain_done")}
        eng._is_dataset_evaluated = lambda name: done[name]

        def mk(j):
            g.cur = SymNum(_t(j))
            g.ran = g.backs = 0
            unfold(j)
            return batch(j)

        g.stream = Fn(g.n.t, mk, "batches")
        eng.eval_datasets = {"dev": object(), "devtrain": object()}
        eng._eval_dataloaders = {k: PList(g.stream) for k in eng.eval_datasets}
        eng._updater = None
        S.assume(g.n >= 1)
        S.reachable()
        eng.eval_model(**({"skip_already_evaluated": True} if skip else {}))
        errs = [x[1] for x in g.events if isinstance(x, tuple)]
        want = [k for k in done if not (skip and S.decide(done[k]))]
        S.prove(len(errs) == len(want), "scores are recorded for every data set to evaluate")
        sums_fact(g.n)
        for k, d in zip(want, errs):
            check_scores(d, k + "_loss_", g.n)
        S.prove(g.events[:1] == ["eval mode"], "the model is in evaluation mode")
        names = [x if isinstance(x, str) else "error" for x in g.events if x != "eval mode"]
        S.prove(names == ["error", "save lr"] * len(want), "scores are saved after every data set")

    return un


class Epochs(LoopContract):
    name = "epochs"

    def match(self, L):
        return True

    def havoc(self, L):
        g = S.g
        if L.kind == "for":
            g.e = g.start - 1 + SymNum(L.i)
        else:
            g.e = S.int("e", lo=0)
            S.assume(And(g.e >= g.start - 1, Or(g.e <= g.final, eq(g.e, g.start - 1))))
        g.eng.epoch = g.e
        L.modifies_attr(g.eng, "epoch")
        L.ghost("e", "did")
        g.did = ()
        return {}

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            S.prove(eq(g.eng.epoch, g.e + 1), "the epochs follow each other")
            S.prove(g.did == ("init", "train"), "every epoch is initialised and trained once")
            g.e = g.e + 1
        yield "epoch reached", eq(g.eng.epoch, g.e)
        if L.kind != "for":
            yield "not beyond the last", Or(g.e <= g.final, eq(g.e, g.start - 1))


def u_epochs():
    g = S.g
    eng = object.__new__(TE.Engine)
    g.eng = eng
    g.start, g.final = S.int("start_epoch", lo=1), S.int("final_epoch", lo=0)
    S.inputs.update(start=g.start, final=g.final)
    g.did = ()

    def ini():
        g.did += ("init",)

    def trn():
        g.did += ("train",)

    def set_epoch(e):
        eng.epoch = e

    g.e = g.start - 1
    eng.__dict__.update(_pt_model=object(), train_dataset=object(), _check_missing_eval=lambda: None, _start_epoch=g.start, _final_epoch=g.final, global_train_step=S.int("step"), epoch=None,
                        set_epoch=set_epoch, init_train_epoch=ini, train_epoch=trn)
    S.reachable()
    eng.train()
    if S.decide(g.start > g.final):
        S.prove(g.did == () and eng.epoch is None, "nothing to train if all epochs are done")
    else:
        S.prove(eq(eng.epoch, g.final), "training goes on to the last epoch")


def u_init_epoch():
    g = S.g
    eng = common()
    g.train = True
    eng.global_train_step = S.int("global_step", lo=0)
    eng._start_epoch, eng._final_epoch = S.int("start_epoch", lo=1), S.int("final_epoch", lo=1)
    lr = S.real("rate")
    asked = []

    def rate(e):
        asked.append(e)
        return lr

    eng.learning_rate_control.get_learning_rate_for_epoch = rate
    calls = []
    eng._updater = Obj(set_learning_rate=lambda v: calls.append(("lr", v)), set_current_train_step=lambda *, global_train_step, epoch, epoch_continuous=None: calls.append(("step", global_train_step, epoch, epoch_continuous)),
                       get_effective_learning_rate=lambda: 1.0)
    seeds = S.func("seed_of", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    TE.merge_random_seeds = lambda d: ("seed",) + tuple(d)
    TE.util = Obj(describe_returnn_version=lambda: "", describe_torch_version=lambda: "", get_cpu_model_name=lambda: "")
    S.reachable()
    eng.init_train_epoch()
    S.prove(len(asked) >= 1 and all(z3.is_true(z3.simplify(_t(x) == _t(g.epoch))) for x in asked), "the rate of this epoch is asked for")
    S.prove([c[0] for c in calls if c[0] == "lr"] == ["lr"], "the rate is set")
    S.prove(eq([c for c in calls if c[0] == "lr"][-1][1], lr), "the rate of the epoch")
    last = [c for c in calls if c[0] == "step"][-1]
    S.prove(And(eq(last[1], eng.global_train_step), eq(last[2], g.epoch), eq(last[3], g.epoch - 1)), "step, epoch and fraction at the start of the epoch")
    s = [x for x in g.events if isinstance(x, tuple) and x[0] == "seed"]
    S.prove(len(s) == 1, "the random number generator is set once")
    sd = s[0][1]
    S.prove(len(sd) == 4, "the seed depends on epoch, step and configured seed only")
    S.prove(And(eq(sd[1], g.epoch), eq(sd[2], eng.global_train_step), eq(sd[3], 42)), "the seed depends on epoch, step and configured seed only")


# ---------------------------------------------------------------- updater


def updater(dyn, created, mult):
    """real Updater with an optimizer of two groups"""
    g = S.g
    f = S.func("dyn_lr", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.RealSort(), z3.RealSort())
    args = lambda st, ep, c, lr: (_t(st), _t(ep), z3.RealVal(0) if c is None else z3.ToReal(_t(c)) if z3.is_int(_t(c)) else _t(c), z3.BoolVal(c is None), _t(lr))

    def func(*, global_train_step, epoch, epoch_continuous, learning_rate, **kw):
        return SymNum(f(*args(global_train_step, epoch, epoch_continuous, learning_rate)))

    cfg = Config({})
    if dyn:
        cfg.typed_dict["dynamic_learning_rate"] = func
    g.lr = S.real("learning_rate")
    g.groups = [{"params": [], "lr": S.real("old0")}, {"params": [], "lr": S.real("old1")}]
    g.mult = 1

    class Opt(real_torch.optim.Optimizer):
        def __init__(self, params, lr):
            self.param_groups = params

        def __repr__(self):
            return "Opt"

    opts = {"class": Opt, "param_groups_custom": lambda **kw: g.groups}
    if mult:
        g.mult = S.real("mult")
        S.assume(g.mult > 0)
        opts["learning_rate_multiplier"] = g.mult
    cfg.typed_dict["optimizer"] = opts
    up = UP.Updater(config=cfg, network=real_torch.nn.Module(), device="cpu", initial_learning_rate=g.lr)
    if created:
        up.create_optimizer()
    g.expect = lambda st, ep, c, lr: SymNum(f(*args(st, ep, c, lr))) if dyn else lr
    return up


def check_lr(up, created, e):
    g = S.g
    S.prove(eq(up.get_effective_learning_rate(), e), "effective learning rate")
    if created:
        for grp in g.groups:
            S.prove(eq(grp["lr"], e * g.mult), "every group of parameters uses it")


def u_lr(dyn, created, mult):
    def un():
        g = S.g
        up = updater(dyn, created, mult)
        st, ep, lr2 = S.int("step", lo=0), S.int("epoch", lo=1), S.real("rate")
        c = None if S.choose(2, "no fraction") else S.real("cont")
        if S.choose(2, "order"):
            up.set_learning_rate(lr2)
            up.set_current_train_step(global_train_step=st, epoch=ep, epoch_continuous=c)
        else:
            up.set_current_train_step(global_train_step=st, epoch=ep, epoch_continuous=c)
            up.set_learning_rate(lr2)
        S.reachable()
        check_lr(up, created, g.expect(st, ep, c, lr2))
        st2 = S.int("step2", lo=0)
        up.set_current_train_step(global_train_step=st2, epoch=ep, epoch_continuous=c)
        check_lr(up, created, g.expect(st2, ep, c, lr2))

    return un


def u_upd_step(scaler):
    def un():
        g = S.g
        log = []
        up = UP.Updater(config=Config({}), network=Obj(parameters=lambda: "PARAMS"), device="cpu", initial_learning_rate=1.0)
        up._grad_noise, up._grad_clip, up._grad_clip_global_norm = S.real("noise"), S.real("clip"), S.real("norm")
        S.assume(And(up._grad_noise >= 0, up._grad_clip >= 0, up._grad_clip_global_norm >= 0))
        UP.gradient_noise_ = lambda p, std: log.append(("noise", p, std))
        nn = Obj(utils=Obj(clip_grad_value_=lambda p, v: log.append(("clip", p, v)), clip_grad_norm_=lambda p, v: log.append(("norm", p, v))))

        class T:
            def __getattr__(self, n):
                return nn if n == "nn" else getattr(real_torch, n)

        UP.torch = T()
        up.optimizer = Obj(step=lambda: log.append(("step",)))
        gs = Obj(unscale_=lambda o: log.append(("unscale", o)), step=lambda o: log.append(("step",)), update=lambda: log.append(("update",))) if scaler else None
        S.reachable()
        up.step(grad_scaler=gs)
        exp = [("unscale", up.optimizer)] if scaler else []
        for key, v in (("noise", up._grad_noise), ("clip", up._grad_clip), ("norm", up._grad_clip_global_norm)):
            if S.decide(v > 0):
                exp.append((key, "PARAMS", v))
        exp += [("step",)] + ([("update",)] if scaler else [])
        S.prove([x[0] for x in log] == [x[0] for x in exp], "unscale, noise, clipping, then exactly one optimizer step")
        for a, b in zip(log, exp):
            if len(a) == 3:
                S.prove(a[1] == "PARAMS", "all parameters")
                S.prove(eq(a[2], b[2]), "with the configured value")

    return un


def units(tier):
    fs = [F + "Engine.train_epoch"]
    for a in ("int", "typed", "func"):
        yield "train epoch, accumulation %s" % a, u_train(a, "cleanup" if a == "typed" else "plain"), dict(functions=fs, loops=[Steps(True)])
    yield "train epoch, not saved", u_train("int", "no model"), dict(functions=fs, loops=[Steps(True)])
    yield "train epoch, gradient scaler", u_train("typed", "plain", True), dict(functions=fs, loops=[Steps(True)])
    for skip in (False, True):
        yield "evaluation, skip=%s" % skip, u_eval(skip), dict(functions=[F + "Engine.eval_model"], loops=[Steps(False)])
    yield "epochs", u_epochs, dict(functions=[F + "Engine.train"], loops=[Epochs()])
    yield "start of an epoch", u_init_epoch, dict(functions=[F + "Engine.init_train_epoch"])
    for dyn in (False, True):
        for cr, mult in ((False, False), (True, False), (True, True)):
            yield "learning rate, dynamic=%s optimizer=%s multiplier=%s" % (dyn, cr, mult), u_lr(dyn, cr, mult), dict(
                functions=[UF + "Updater." + n for n in ("set_learning_rate", "set_current_train_step", "_update_effective_learning_rate", "create_optimizer", "_create_optimizer")]
            )
    for sc in (False, True):
        yield "optimizer step, scaler=%s" % sc, u_upd_step(sc), dict(functions=[UF + "Updater.step"])
    S.assumptions += [
        "contract of backward(): adds the gradients of the batch to those held; zero_grad clears them; optimizer.step applies those held",
        "losses and their norm factors of a batch are numbers, norm factors positive; two losses, two sequences per batch",
        "no distributed training, no gradient norm logging, finite scores",
    ]
