"""P15 concrete side: real forward task with the torch engine, and splitting of batches"""
import os
import random
import shutil
import tempfile
import numpy
from pyvc.concrun import Violation, Skip
from props.p_P14 import data_class, model_class

CASE_S = 60


def cases(tier, seed):
    R = random.Random(seed)
    for i in range(220 if tier == "quick" else 4000):
        yield gen(R) if i % 3 else gen_split(R)


def gen(R):
    return dict(kind="forward", lens=[R.randint(1, 6) for _ in range(R.randint(0 if R.random() < 0.1 else 1, 12))], max_seqs=R.randint(1, 5), oom=R.choice([None, None, 1, 2, 3]), flaky=R.randint(0, 3), order=R.choice(["default", "default", "random", "sorted_reverse", "reverse"]),
                sort=R.random() < 0.5, expect=R.random() < 0.4, batch_axis=R.randint(0, 1), rnd=R.randint(0, 9999), batch_size=R.choice([10000, 10000, 12]), skip=R.choice([None, None, "min", "max"]), unk=R.random() < 0.2)


def gen_split(R):
    b = R.randint(1, 9)
    if R.random() < 0.5:
        cuts = sorted(R.randint(0, b) for _ in range(R.randint(0, 3)))
        splits = [y - x for x, y in zip([0] + cuts, cuts + [b])]
        splits = [s for s in splits if s]
    else:
        splits = R.randint(1, min(b, 2))
    return dict(kind="split", lens=[R.randint(1, 5) for _ in range(b)], splits=splits, rnd=R.randint(0, 9999), scalars=R.random() < 0.8, two=R.random() < 0.5)


def from_model(unit, label, m):
    R = random.Random(15)
    for k in range(60):
        if "split" in unit or "queue" in unit:
            c = gen_split(R) if k % 2 else dict(gen(R), oom=1 + k % 3, max_seqs=2 + k % 4)
        else:
            c = gen(R)
            if "memory" in unit:
                c["oom"] = 1 + k % 3
            if "skip" in unit:
                c["skip"] = ["min", "max"][k % 2]
        yield c


def run_case(c):
    if c["kind"] == "split":
        return run_split(c)
    tmp = tempfile.mkdtemp(prefix="pyvc_p15_", dir=os.environ.get("PYVC_TMP"))
    try:
        run_forward(c, tmp)
    finally:
        shutil.rmtree(tmp)


def run_split(c):
    import torch
    from returnn.torch.data import extern_data as E

    R = numpy.random.RandomState(c["rnd"])
    lens = c["lens"]
    seqs = [R.randint(1, 99, (t, 2)) for t in lens]
    x = numpy.zeros((len(lens), max(lens), 2), "int64")
    for i, s in enumerate(seqs):
        x[i, : len(s)] = s
    raw = {"data": torch.tensor(x), "data:seq_len": torch.tensor(lens, dtype=torch.int32)}
    if c["two"]:
        raw["one"] = torch.arange(len(lens))
    raw["seq_tag"] = numpy.array(["tag-%d" % i for i in range(len(lens))])
    if c["scalars"]:
        raw.update(epoch=numpy.array(3), num_seqs=numpy.array(77), complete_frac=numpy.array(0.5, dtype="float32"))
    can = E.raw_dict_can_split_batch(raw, num_splits=2)
    if can != (len(lens) >= 2):
        raise Violation("raw_dict_can_split_batch: %s for %d sequences" % (can, len(lens)))
    parts = E.raw_dict_split_batch(raw, splits=c["splits"])
    want = c["splits"] if isinstance(c["splits"], list) else None
    if want and [len(p["seq_tag"]) for p in parts] != want or not want and len(parts) != c["splits"]:
        raise Violation("parts of sizes %s, asked for %s" % ([len(p["seq_tag"]) for p in parts], c["splits"]))
    i = 0
    for p in parts:
        if len(p["seq_tag"]) == 0:
            raise Violation("empty part")
        if set(p) != set(raw):
            raise Violation("keys %s of a part" % sorted(p))
        for j in range(len(p["seq_tag"])):
            if p["seq_tag"][j] != "tag-%d" % i or int(p["data:seq_len"][j]) != lens[i] or not numpy.array_equal(p["data"][j, : lens[i]].numpy(), seqs[i]) or (c["two"] and int(p["one"][j]) != i):
                raise Violation("sequence %d is not in its place after the split" % i)
            i += 1
        for k in ("data", "one"):
            if k in p and len(p[k]) != len(p["seq_tag"]):
                raise Violation("%s of a part has %d entries" % (k, len(p[k])))
        if c["scalars"] and (int(p["num_seqs"]) != 77 or int(p["epoch"]) != 3 or float(p["complete_frac"]) != 0.5):
            raise Violation("values of the batch are changed by the split")
    if i != len(lens):
        raise Violation("%d of %d sequences left after the split" % (i, len(lens)))


def run_forward(c, tmp):
    c = dict(c)
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim, batch_dim, Tensor
    from returnn.config import Config, global_config_ctx
    from returnn.forward_iface import ForwardCallbackIface
    from returnn.torch.engine import Engine

    R = numpy.random.RandomState(c["rnd"])
    lens = c["lens"]
    if not lens:
        raise Skip("StaticDataset cannot be empty")
    seqs = [dict(data=R.uniform(-1, 1, (t, 2)).astype("float32")) for t in lens]
    time_dim, feat = Dim(None, name="time"), Dim(2, name="feat")
    short_e = Dim(None, name="short_e")
    events, state = [], dict(n=0)
    modes = set()

    def forward_step(*, model, extern_data, **kw):
        x = extern_data["data"]
        modes.add(model.training)
        state["n"] += 1
        nb = int(x.raw_tensor.shape[0])
        if c["oom"] and nb > c["oom"]:
            raise torch.cuda.OutOfMemoryError("no memory (simulated)")
        if c["oom"] and c["flaky"] and nb >= 2 and state["n"] % (c["flaky"] + 2) == 0:
            raise torch.cuda.OutOfMemoryError("no memory (simulated)")
        ctx = rf.get_run_ctx()
        t = x.dims[1]
        y = rf.convert_to_tensor(x.raw_tensor * 2 + 1, dims=x.dims)
        if c["batch_axis"]:
            y = rf.convert_to_tensor((x.raw_tensor * 2 + 1).transpose(0, 1).contiguous(), dims=[t, batch_dim, x.dims[2]])
        short_size = rf.convert_to_tensor((t.dyn_size_ext.raw_tensor + 1) // 2, dims=[batch_dim], dtype="int32")
        if c["expect"]:
            short = short_e
            short.dyn_size_ext = short_size
        else:
            short = Dim(short_size, name="short")
        z = x.raw_tensor[:, ::2].sum(-1)
        ctx.mark_as_output(y, "y", **({"dims": y.dims} if not c["expect"] else {}))
        ctx.mark_as_output(rf.convert_to_tensor(z, dims=[batch_dim, short]), "z", dims=[batch_dim, short])
        mask = torch.arange(x.raw_tensor.shape[1])[None, :] < t.dyn_size_ext.raw_tensor[:, None]
        ctx.mark_as_output(rf.convert_to_tensor((x.raw_tensor.sum(-1) * mask).sum(1), dims=[batch_dim]), "s", dims=[batch_dim])
        ctx.mark_as_output(rf.convert_to_tensor(x.raw_tensor[:, 0], dims=[batch_dim, x.dims[2]]), "f", dims=[batch_dim, x.dims[2]])

    class CB(ForwardCallbackIface):
        def init(self, *, model):
            events.append("init")

        def process_seq(self, *, seq_tag, outputs):
            events.append((seq_tag, {k: (numpy.array(v.raw_tensor), [int(d.get_dim_value()) for d in v.dims], type(v.raw_tensor).__name__) for k, v in outputs.data.items()}))

        def finish(self):
            events.append("finish")

    cfg = dict(task="forward", device="cpu", extern_data={"data": {"dims": [batch_dim, time_dim, feat], "dtype": "float32"}}, get_model=lambda **kw: model_class()(), forward_step=forward_step, batch_size=c["batch_size"], max_seqs=c["max_seqs"],
               forward_auto_split_batch_on_oom=bool(c["oom"]), sort_dataset=c["sort"], torch_dataloader_opts={"num_workers": 0}, model=os.path.join(tmp, "net"), load_epoch=1)
    if c["skip"]:
        cfg["%s_seq_length" % c["skip"]] = 3
    if c["expect"]:
        cfg["model_outputs"] = {"y": {"dims": [batch_dim, time_dim, feat] if not c["batch_axis"] else [time_dim, batch_dim, feat], "dtype": "float32"}, "z": {"dims": [batch_dim, short_e], "dtype": "float32"}, "s": {"dims": [batch_dim], "dtype": "float32"}, "f": {"dims": [batch_dim, feat], "dtype": "float32"}}
    torch.save(dict(model=model_class()().state_dict(), epoch=1, step=0), os.path.join(tmp, "net.001.pt"))

    def go(oom):
        cf = Config(dict(cfg, forward_auto_split_batch_on_oom=oom))
        ds = data_class(c["unk"])(seqs, name="fw", output_dim={"data": (2, 2)}, seq_ordering=c["order"])
        with global_config_ctx(cf):
            eng = Engine(config=cf)
            eng.init_network_from_config(cf)
            eng.forward_with_callback(dataset=ds, callback=CB())

    try:
        if c["oom"]:
            lim, c["oom"] = c["oom"], None
            go(False)
            c["oom"] = lim
            order = [e[0] for e in events[1:-1]]
            del events[:]
        go(bool(c["oom"]))
    except AssertionError:
        if c["skip"] and not events:
            return  # refused: sequences would be skipped
        raise
    if modes - {False}:
        raise Violation("the model was run in training mode")
    if events[:1] != ["init"] or events[-1:] != ["finish"] or any(isinstance(e, str) for e in events[1:-1]):
        raise Violation("callback: init, sequences, finish expected; got %s" % [e if isinstance(e, str) else e[0] for e in events])
    got = events[1:-1]
    tags = [e[0] for e in got]
    if sorted(tags) != sorted("seq-%d" % i for i in range(len(seqs))):
        raise Violation("sequences given to the callback: %s, expected each of %d once" % (tags, len(seqs)))
    if c["oom"] and tags != order:
        raise Violation("order %s after splitting batches, %s without" % (tags, order))
    for tag, out in got:
        x = seqs[int(tag.split("-")[1])]["data"]
        exp = dict(y=x * 2 + 1, z=x[::2].sum(-1), s=x.sum(), f=x[0])
        if set(out) != set(exp):
            raise Violation("outputs %s" % sorted(out))
        for k, v in exp.items():
            a, sizes, ty = out[k]
            if ty != "ndarray":
                raise Violation("output %s of %s is a %s" % (k, tag, ty))
            if a.shape != numpy.shape(v) or sizes != list(numpy.shape(v)):
                raise Violation("output %s of %s has shape %s, dims %s, expected %s" % (k, tag, a.shape, sizes, numpy.shape(v)))
            if not numpy.allclose(a, v, atol=1e-5):
                raise Violation("output %s of %s is not the one of this sequence: %s, expected %s" % (k, tag, a.tolist(), numpy.asarray(v).tolist()))
