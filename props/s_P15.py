"""P15: the forward task: every sequence once, with its own outputs; splitting of batches"""
from props.lib import *
from props.lib import _t, _simp
import contextlib
import returnn.torch.engine as TE
import returnn.torch.data.extern_data as ED
import returnn.torch.data.queued_data_iter as QD
from returnn.datasets.basic import Dataset
from returnn.forward_iface import ForwardCallbackIface
from returnn.config import Config
from props.s_P14 import Obj, TorchStub, Clock, real_torch

F = "returnn/torch/engine.py:"
XF = "returnn/torch/data/extern_data.py:"


# ---------------------------------------------------------------- stand-ins for tensors: which values of which sequence


class Raw(Sym):
    """
    values of one output of the batch just run. axes: names of the axes left; b: the entry of the batch chosen;
    cut: upper limit per axis (None: whole, with padding)
    """

    def __init__(self, name, axes, run, b=None, cut=None, kind="torch"):
        self.name, self.axes, self.run, self.b, self.kind = name, list(axes), run, b, kind
        self.cut = list(cut) if cut is not None else [None] * len(self.axes)
        self.dtype = "dtype"

    def _pv_types(self):
        import numpy

        return (real_torch.Tensor,) if self.kind == "torch" else (numpy.ndarray,)

    def __getitem__(self, key):
        if isinstance(key, tuple):
            if len(key) != len(self.axes) or not all(isinstance(k, slice) and k.start is None and k.step is None for k in key):
                raise Unsupported("index %r" % (key,))
            return Raw(self.name, self.axes, self.run, self.b, [k.stop for k in key], self.kind)
        if not self.axes or self.axes[0] != "batch" or self.b is not None:
            raise Unsupported("index into axes %s" % self.axes)
        if isinstance(key, slice):
            if key.start is None or key.step is not None:
                raise Unsupported("slice")
            r = Raw(self.name, self.axes, self.run, key.start, self.cut, self.kind)
            r.one = eq(key.stop, key.start + 1)
            return r
        return Raw(self.name, self.axes[1:], self.run, key, self.cut[1:], self.kind)

    def reshape(self, shape):
        if tuple(shape) != () or self.axes != ["batch"]:
            raise Unsupported("reshape")
        S.prove(self.one, "exactly one entry of the batch is taken")
        return Raw(self.name, [], self.run, self.b, [], self.kind)

    def detach(self):
        return self

    cpu = detach

    def numpy(self):
        return Raw(self.name, self.axes, self.run, self.b, self.cut, "numpy")

    def item(self):
        return ("item", self.name, self.run, self.b)


class TDim:
    """a dim: batch, a static one or one with a length per sequence"""

    def __init__(self, name, dyn=None):
        self.name, self.dyn_size_ext = name, dyn

    def copy(self):
        return TDim(self.name, self.dyn_size_ext)

    def get_dim_value(self):
        g = S.g
        if self.name == "batch":
            return g.b
        if self.dyn_size_ext is None:
            return 7
        r = self.dyn_size_ext.raw_tensor
        if r.b is None:
            return SymNum(g.maxlen(_t(r.run)))
        S.prove(eq(r.run, g.run), "lengths of the current batch")
        return SymNum(g.len(_t(r.run), _t(r.b)))


class TT:
    """tensor"""

    def __init__(self, name=None, dims=(), raw=None, **kw):
        self.name, self.dims, self.raw_tensor = name, list(dims), raw

    @property
    def batch_ndim(self):
        return len(self.dims)

    def copy_move_axis(self, old, new):
        d = list(self.dims)
        x = d.pop(old)
        d.insert(new, x)
        r = self.raw_tensor
        ax = list(r.axes)
        y = ax.pop(old)
        ax.insert(new, y)
        return TT(self.name, d, Raw(r.name, ax, r.run, r.b, None, r.kind))

    def copy_template_excluding_axis(self, axis):
        d = list(self.dims)
        d.pop(axis)
        return TT(self.name, d)

    def get_kwargs(self):
        return dict(name=self.name, dims=list(self.dims))


class Batches(LoopContract):
    """every sequence given out by the loader so far, except those put back, was given to the callback, in order"""

    name = "batches"

    def match(self, L):
        return L.kind == "for" and L.seq is S.g.stream

    def havoc(self, L):
        g = S.g
        L.ghost("pos", "done", "b", "run", "cur", "back", "steps_run")
        g.pos = S.int("pos", lo=0)
        S.assume(g.pos <= g.N)
        g.done = g.pos
        g.cur = None
        g.run = S.int("run", lo=0)
        g.back, g.steps_run = False, 0
        return {}

    def inv(self, L):
        g = S.g
        if L.mode == "prove":
            if g.back:
                S.prove(eq(g.done, g.cur), "a batch that is put back was not given to the callback before")
                g.pos = g.cur
            else:
                g.pos = g.cur + g.b
            S.prove(g.steps_run == 1, "every batch is run once")
        yield "the callback got exactly the sequences given out so far", eq(g.done, g.pos)
        yield "within the data set", And(g.pos >= 0, g.pos <= g.N)


class Entries(LoopContract):
    """the first i sequences of the batch were given to the callback"""

    name = "entries"

    def match(self, L):
        return L.kind == "for" and S.g.cur is not None and S.g.steps_run == 1

    def havoc(self, L):
        g = S.g
        L.ghost("done")
        g.done = g.cur + SymNum(L.i)
        return {}

    def inv(self, L):
        g = S.g
        yield "one sequence after the other", eq(g.done, g.cur + SymNum(L.i))


def u_forward(oom, skip):
    def un():
        g = S.g
        I = z3.IntSort()
        g.N = S.int("N", lo=0)
        S.inputs["N"] = g.N
        g.len = S.func("len", I, I, I)
        g.maxlen = S.func("maxlen", I, I)
        g.pos = g.done = SymNum(z3.IntVal(0))
        g.cur, g.back, g.steps_run = None, False, 0
        g.run = g.b = SymNum(z3.IntVal(0))
        log = g.log = []
        eng = object.__new__(TE.Engine)
        ds = object.__new__(Dataset)
        ds.seq_ordering = "default"
        ds.name = "data"
        ds.supports_seq_order_sorting = lambda: bool(S.choose(2, "sorting supported"))
        B = TDim("batch")
        size = lambda n: TT("size", [B], Raw("size:" + n, ["batch"], None))
        calls = []

        def mk(i):
            g.b = S.int("b", lo=1)
            S.assume(g.pos + g.b <= g.N)
            g.cur = g.pos
            g.run = S.int("run", lo=0)
            g.back, g.steps_run = False, 0
            return {"complete_frac": S.real("complete_frac"), "num_seqs": S.int("num_seqs", lo=-1), "cur": g.cur, "b": g.b}

        g.n = S.int("iterations", lo=0)
        g.stream = Fn(g.n.t, mk, "batches")

        class Loader(Sym):
            def _pv_seq(self):
                return g.stream

            def __iter__(self):
                return iter(PList(g.stream))

            def extend(self, items):
                S.prove(isinstance(items, list) and items == ["first", "second"], "exactly the parts of the batch are put back")
                S.prove(not g.back, "put back once")
                g.back = True

        def create(dataset, *, train=False, dataset_init_epoch=True):
            S.prove(dataset is ds and not train, "the loader reads the data set given")
            calls.append("loader")
            return PList(g.stream)

        TE.QueuedDataIter = lambda dl: Loader()

        def to_extern(raw, **kw):
            S.prove(eq(raw["cur"], g.cur), "the current batch")
            return {"seq_tag": Obj(raw_tensor=Raw("tag", ["batch"], g.run, kind="numpy"))}

        def split(raw, *, splits):
            S.prove(eq(raw["cur"], g.cur), "the current batch is split")
            S.prove(g.b >= splits, "a batch is only split into non-empty parts")
            return ["first", "second"]

        TE.extern_data_util = Obj(raw_dict_to_extern_data=to_extern, get_batch_dim_from_extern_data=lambda x: B, raw_dict_can_split_batch=lambda raw, num_splits=2: g.b >= num_splits, raw_dict_split_batch=split)

        class Ctx:
            def check_outputs_complete(self):
                pass

            @property
            def outputs(self):
                S.prove(g.steps_run == 1, "outputs of the batch just run")
                T, F2 = TDim("time", size("time")), TDim("feat")
                T.dyn_size_ext.raw_tensor.run = g.run
                G = TDim("glob", TT("gs", [], Raw("size:glob", [], g.run, kind="torch")))
                r = g.run
                return Obj(data={
                    "bt": TT("bt", [B, T, F2], Raw("bt", ["batch", "time", "feat"], r)),
                    "tb": TT("tb", [T, B], Raw("tb", ["time", "batch"], r)),
                    "s": TT("s", [B], Raw("s", ["batch"], r)),
                    "f": TT("f", [B, F2], Raw("f", ["batch", "feat"], r)),
                    "g": TT("g", [B, G], Raw("g", ["batch", "glob"], r)),
                })

        expect = {"bt": ["time", "feat"], "tb": ["time"], "s": [], "f": ["feat"], "g": ["glob"]}
        TE.rf = Obj(get_run_ctx=Ctx)
        TE.Tensor = TT
        TE.torch = TorchStub()
        TE.time = Clock()
        TE._print_process = lambda *a, **kw: None
        TE.hms = lambda s: ""
        TE.help_on_torch_exception = lambda *a, **kw: None
        TE.diagnose_gpu = Obj(garbage_collect=lambda: None)
        TE.util = Obj(traceback_clear_frames=lambda *a: None)
        TE.log.verbose = [False] * 6

        def run_step(extern, *, train_flag=False, train_func):
            S.prove(not train_flag and not train_func, "the forward step is run, not in training mode")
            g.steps_run += 1
            if oom and S.choose(2, "out of memory"):
                if not S.decide(g.b >= 2):
                    raise PathEnd  # does not fit at all: the error is passed on
                raise real_torch.cuda.OutOfMemoryError("no memory")

        class CB(ForwardCallbackIface):
            def init(self, *, model):
                log.append("init")

            def finish(self):
                log.append("finish")
                # the loader is exhausted: it gave out (and did not get back) all sequences
                S.assume(eq(g.pos, g.N))

            def process_seq(self, *, seq_tag, outputs):
                S.prove(log == ["init"], "sequences come after init and before finish")
                j = g.done - g.cur
                S.prove(And(j >= 0, j < g.b), "a sequence of the batch")
                S.prove(isinstance(seq_tag, tuple) and seq_tag[1] == "tag", "the tag of the sequence")
                S.prove(And(eq(seq_tag[2], g.run), eq(seq_tag[3], j)), "the tag of the sequence")
                S.prove(set(outputs.data) == set(expect), "all outputs")
                for k, axes in expect.items():
                    y = outputs.data[k]
                    r = y.raw_tensor
                    S.prove(isinstance(r, Raw) and r.name == k and r.axes == axes and r.kind == "numpy", "output %s without the batch axis, as numpy array" % k)
                    S.prove(And(eq(r.run, g.run), eq(r.b, j)), "output %s of this sequence" % k)
                    S.prove([d.name for d in y.dims] == axes, "dims of output %s" % k)
                    for d, ax, cut in zip(y.dims, axes, r.cut):
                        if ax == "time":
                            S.prove(cut is not None, "padding of output %s is removed" % k)
                            n = SymNum(g.len(_t(g.run), _t(j)))
                            S.prove(eq(cut, n), "output %s has the length of this sequence" % k)
                            S.prove(eq(d.get_dim_value(), n), "the dim of output %s has the length of this sequence" % k)
                        elif ax == "feat" and cut is not None:
                            S.prove(cut >= 7, "static dims are kept whole")
                g.done = g.done + 1

        TE.TensorDict = lambda: Obj(data={})
        eng.__dict__.update(_pt_model=Obj(eval=lambda: log.append("eval") if log else calls.append("eval")), _orig_model=None, config=Config({}), epoch=1, _device="cpu", extern_data=None, _default_float_dtype=None,
                            _maybe_reset_dev_memory_caches=lambda **kw: None, _reset_dev_memory_stats=lambda: None, _maybe_report_dev_memory_stats=lambda: None,
                            _min_seq_length=None, _max_seq_length=None, _forward_auto_split_batch_on_oom=oom, _forward_step_expected_outputs=None, _log_batch_size=False, _log_memory_usage=False,
                            _create_data_loader=create, _run_step=run_step)
        if skip:
            if S.choose(2, "min or max"):
                eng._min_seq_length = Obj()
            else:
                eng._max_seq_length = Obj()
            S.reachable()
            try:
                eng.forward_with_callback(dataset=ds, callback=CB())
            except AssertionError:
                S.prove(not log, "refused before anything is given to the callback")
            else:
                S.prove(False, "without permission no sequence is skipped")
            return
        S.reachable()
        eng.forward_with_callback(dataset=ds, callback=CB())
        S.prove(log == ["init", "finish"] and "eval" in calls, "init once, finish once, model in evaluation mode")
        S.prove(eq(g.done, g.N), "every sequence was given to the callback exactly once")

    return un


# ---------------------------------------------------------------- splitting


class Arr(Sym):
    """entries lo..hi of the batched array `name`"""

    def __init__(self, name, lo, hi, kind, cut=None, ndim=2):
        self.name, self.lo, self.hi, self.kind, self.cut, self.ndim = name, lo, hi, kind, cut, ndim

    def _pv_types(self):
        import numpy

        return (real_torch.Tensor,) if self.kind == "torch" else (numpy.ndarray,)

    @property
    def shape(self):
        if self.ndim == 0:
            return ()
        return (self.hi - self.lo,) + (S.g.T,) * (self.ndim - 1)

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self.hi - self.lo

    _pv_len = __len__

    def __getitem__(self, key):
        if self.ndim == 0:
            raise IndexError("too many indices for array")
        if isinstance(key, tuple):
            if len(key) != 2 or key[0] != slice(None) or key[1].start is not None or key[1].step is not None:
                raise Unsupported("index")
            return Arr(self.name, self.lo, self.hi, self.kind, key[1].stop, self.ndim)
        if not isinstance(key, slice) or key.step is not None or self.cut is not None:
            raise Unsupported("index")
        a, b = 0 if key.start is None else key.start, self.hi - self.lo if key.stop is None else key.stop
        S.prove(And(a >= 0, b >= 0), "no negative positions")
        n = self.hi - self.lo
        return Arr(self.name, self.lo + Min(a, n), self.lo + If(Min(b, n) >= Min(a, n), Min(b, n), Min(a, n)), self.kind, None, self.ndim)


def Min(a, b):
    return If(SymNum(_t(a)) <= b, a, b)


def u_split(k, given):
    def un():
        g = S.g
        B = S.int("B", lo=1)
        S.inputs["B"] = B
        g.T = S.int("T", lo=1)
        ED.torch = type("T", (TorchStub,), {"max": lambda self, x: ("max", x.name, x.lo, x.hi)})()
        raw = {"data": Arr("data", 0, B, "torch"), "data:seq_len": Arr("data:seq_len", 0, B, "torch", ndim=1), "one": Arr("one", 0, B, "torch", ndim=1), "seq_tag": Arr("seq_tag", 0, B, "numpy", ndim=1),
               "epoch": Arr("epoch", 0, 0, "numpy", ndim=0), "num_seqs": Arr("num_seqs", 0, 0, "numpy", ndim=0), "complete_frac": Arr("complete_frac", 0, 0, "numpy", ndim=0)}
        S.reachable()
        can = ED.raw_dict_can_split_batch(raw, num_splits=k)
        S.prove(eq(can, B >= k), "can be split exactly if there are at least as many sequences as parts")
        if not S.decide(B >= k):
            return
        if given:
            sizes = [S.int("size%d" % i, lo=1) for i in range(k)]
            tot = sizes[0]
            for x in sizes[1:]:
                tot = tot + x
            S.assume(eq(tot, B))
            parts = ED.raw_dict_split_batch(raw, splits=sizes)
        else:
            sizes = None
            parts = ED.raw_dict_split_batch(raw, splits=k)
        parts = list(parts)
        S.prove(len(parts) == k, "number of parts")
        pos = 0
        for i, p in enumerate(parts):
            S.prove(set(p) == set(raw), "all keys in every part")
            for x in ("epoch", "num_seqs", "complete_frac"):
                S.prove(p[x] is raw[x], "values of the whole batch are kept")
            lo, hi = p["seq_tag"].lo, p["seq_tag"].hi
            S.prove(eq(lo, pos), "parts follow each other, nothing lost or repeated")
            S.prove(lo < hi, "no empty part")
            if sizes:
                S.prove(eq(hi - lo, sizes[i]), "part of the size asked for")
            for x in ("data", "data:seq_len", "one"):
                S.prove(And(eq(p[x].lo, lo), eq(p[x].hi, hi)), "all data keys are split alike")
                S.prove(p[x].name == x, "data stays with its key")
            c = p["data"].cut
            S.prove(c is None or isinstance(c, tuple) and c[0] == "max" and c[1] == "data:seq_len", "only padding is cut off")
            if c is not None:
                S.prove(And(eq(c[2], lo), eq(c[3], hi)), "cut to the longest sequence of the part")
            S.prove(p["one"].cut is None and p["data:seq_len"].cut is None, "other data is not cut")
            pos = hi
        S.prove(eq(pos, B), "nothing lost at the end")

    return un


def u_queue(m):
    """the queue of the loader: what is put back comes next, in order; then the rest of the queue, then the loader"""

    def un():
        g = S.g
        n = S.int("n", lo=0)
        stream = Fn(n.t, lambda i: ("item", SymNum(_t(i))), "items")
        q = QD.QueuedDataIter(PList(stream))
        S.prove(iter(q) is q, "an iterator")
        S.reachable()
        pos, pend = 0, []
        put = 0
        # an arbitrary history of m operations
        for _ in range(m):
            op = S.choose(2, "operation")
            if op == 0:
                try:
                    x = next(q)
                except StopIteration:
                    S.prove(not pend, "the end only when nothing is waiting")
                    S.prove(eq(pos, n), "the end only after the last item")
                    continue
                if pend:
                    S.prove(x is pend[0], "what was put back comes first, in order")
                    pend.pop(0)
                else:
                    S.prove(pos < n, "an item of the loader")
                    S.prove(isinstance(x, tuple) and len(x) == 2, "an item of the loader")
                    S.prove(eq(x[1], pos), "items of the loader in order, none lost or repeated")
                    pos = pos + 1
            else:
                k = 1 + S.choose(2, "number put back")
                items = [("put", put + i) for i in range(k)]
                put += k
                q.extend(list(items))
                pend = items + pend

    return un


def units(tier):
    fs = [F + "Engine.forward_with_callback"]
    yield "forward", u_forward(False, False), dict(functions=fs, loops=[Batches(), Entries()])
    yield "forward, out of memory", u_forward(True, False), dict(functions=fs, loops=[Batches(), Entries()])
    yield "forward, skipping refused", u_forward(False, True), dict(functions=fs, loops=[Batches(), Entries()])
    for k in (1, 2):
        yield "split into %d" % k, u_split(k, False), dict(functions=[XF + n for n in ("raw_dict_split_batch", "raw_dict_can_split_batch", "_make_split_seq_from_num_splits")])
    for k in (2, 3):
        yield "split into %d given sizes" % k, u_split(k, True), dict(functions=[XF + "raw_dict_split_batch"])
    yield "queue", u_queue(5), dict(functions=["returnn/torch/data/queued_data_iter.py:QueuedDataIter.extend", "returnn/torch/data/queued_data_iter.py:QueuedDataIter.__next__"], bounded="histories of 5 operations")
    S.assumptions += [
        "the data loader gives out every sequence of the data set once, in batches (P04, P09)",
        "contract of Tensor: copy_move_axis, copy_template_excluding_axis and get_kwargs keep names, dims and values; five outputs with dims [B,T,F], [T,B], [B], [B,F], [B,G]",
        "contract of torch indexing, max; batch of five data keys",
    ]
