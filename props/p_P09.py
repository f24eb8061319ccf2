"""P09 concrete side: the stages of the data pipeline neither lose, duplicate nor mix sequences"""
import random
import itertools
import numpy
from pyvc.concrun import Violation, Skip


def cases(tier, seed):
    R = random.Random(seed)
    reps = 400 if tier == "quick" else 5000
    for _ in range(reps):
        hi = R.choice([2, 5, 30])
        n = R.choice([0, 1, 2, 3, 5, 8, 13, 24])
        ls = [R.randint(0 if R.random() < 0.2 else 1, hi) for _ in range(n)]
        lim = lambda: R.choice([None, R.randint(0, hi + 1), dict(data=R.randint(0, hi + 1)), dict(classes=R.randint(0, 5)), dict(data=R.randint(0, hi), classes=R.randint(0, 4))])
        yield dict(kind="filter", lens=ls, cls=[R.randint(0, 5) for _ in ls], min=lim(), max=lim())
        lims = sorted(R.sample(range(1, 40), R.randint(1, 5)))
        bk = [[x, R.randint(1, 4)] for x in lims]
        R.shuffle(bk)
        yield dict(kind="buckets", lens=ls, buckets=bk, prob=R.choice([0.0, 0.0, 0.3, 1.0]), seed=R.randint(0, 99))
        yield dict(kind="shuffle", groups=[R.randint(1, 3) for _ in range(n)], size=R.choice([1, 2, 3, max(n, 1), n + 1, 4]), keys=R.choice([[], ["complete_frac"], ["complete_frac", "seq_idx"]]), seed=R.choice([None, 1, 7]), epochs=R.choice([1, 2]))
        yield dict(kind="laplace", lens=ls, size=R.choice([1, 2, 3, max(n, 1), n + 1, 4]))
        if n:
            yield dict(kind="collate", lens=ls, dt=R.choice(["float32", "int32", "uint16", "uint32", "uint8", "bool", "int64", "float16"]), feat=R.choice([None, 1, 3]), fracs=R.choice(["mono", "none", "down"]))
            yield dict(kind="wrap", lens=[max(1, x) for x in ls], order=R.choice(["default", "reverse", "random", "sorted"]), epochs=2)
    yield dict(kind="wrap", lens=[3], order="default", epochs=1)


def from_model(unit, label, m):
    def num(k, d):
        try:
            return max(0, min(int(m.get(k)), 60))
        except (TypeError, ValueError):
            return d

    n, size = num("n", 5), max(1, num("buffer_size", 3))
    R = random.Random(3)
    for nn in sorted({n, 0, 1, size - 1, size, size + 1, 2 * size, 2 * size + 1}):
        for s in {size, 1, 2, 3}:
            for keys in ([], ["complete_frac"]):
                yield dict(kind="shuffle", groups=[1 + i % 2 for i in range(nn)], size=s, keys=keys, seed=3, epochs=2)
            yield dict(kind="laplace", lens=[R.randint(1, 9) for _ in range(nn)], size=s)
    for a in (0, 1, 2, 5):
        for b in (0, 1, 2, 5):
            ls = [0, 1, 2, 3, 4, 5, 6, a, b]
            for mn, mx in ((a, b), (None, b), (a, None), (dict(data=a), dict(classes=b)), (None, dict(data=a, classes=b))):
                yield dict(kind="filter", lens=ls, cls=[i % 4 for i in range(len(ls))], min=mn, max=mx)
    lims = [max(1, num("lim%d" % b, 3 * b + 3)) for b in range(3)]
    for bk in ([lims[0]], lims[:2], lims):
        for sz in (1, 2, max(1, num("size0", 3))):
            for prob in (0.0, 0.5, 1.0):
                ls = [x + d for x in bk for d in (-1, 0, 1)] * 3
                yield dict(kind="buckets", lens=[max(0, x) for x in ls], buckets=[[x, sz] for x in sorted(set(bk))], prob=prob, seed=1)
    for nn in (1, 2, 5):
        for dt in ("float32", "uint16"):
            yield dict(kind="collate", lens=list(range(nn, 0, -1)), dt=dt, feat=2, fracs="mono")
        yield dict(kind="wrap", lens=list(range(1, nn + 1)), order="default", epochs=1)


def run_case(c):
    globals()["run_" + c["kind"]](c)


def _torch():
    import returnn.torch.data.pipeline as TP

    return TP


class _Src:
    """a plain iterable source, new dicts in every iteration"""

    def __init__(self, mk, n):
        self.mk, self.n = mk, n

    def __iter__(self):
        return (self.mk(i) for i in range(self.n))


def _take(it, limit):
    """all items, kept as given (a batch given out must not change afterwards)"""
    r = list(itertools.islice(iter(it), limit))
    if len(r) >= limit:
        raise Violation("does not end")
    return r


def _same(got, want, what):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def run_filter(c):
    TP = _torch()
    ls, cl = c["lens"], c["cls"]
    mk = lambda i: dict(data=numpy.full((ls[i], 2), i, "float32"), classes=numpy.full((cl[i],), i, "int32"), tag=i)
    pipe = TP.LenFilterDataPipe(_Src(lambda i: {k: v for k, v in mk(i).items() if k != "tag"}, len(ls)), min_seq_length=c["min"], max_seq_length=c["max"])
    got = _take(pipe, 3000)

    def ok(i):
        for k, n in (("data", ls[i]), ("classes", cl[i])):
            mn, mx = c["min"], c["max"]
            mn = mn.get(k) if isinstance(mn, dict) else mn
            mx = mx.get(k) if isinstance(mx, dict) else mx
            if mn is not None and n < mn or mx is not None and n > mx:
                return False
        return True

    want = [i for i in range(len(ls)) if ok(i)]
    _same([(g["data"].shape, g["classes"].shape) for g in got], [((ls[i], 2), (cl[i],)) for i in want], "sequences within the length limits")
    for g, i in zip(got, want):
        if not ((g["data"] == i).all() and (g["classes"] == i).all()):
            raise Violation("data of another sequence at %i" % i)


def run_buckets(c):
    TP = _torch()
    ls = c["lens"]
    bk = [tuple(b) for b in c["buckets"]]
    pipe = TP.BucketOrderingIterDataPipe(_Src(lambda i: dict(data=numpy.zeros((ls[i],)), id=i), len(ls)), buckets=bk, length_key="data", random_bucket_prob=c["prob"], seed=c["seed"])
    got = _take(pipe, 3000)
    lims = sorted(b[0] for b in bk)
    fits = [i for i in range(len(ls)) if ls[i] <= lims[-1]]
    ids = [[x["id"] for x in b] for b in got]
    flat = sorted(sum(ids, []))
    _same(flat, fits, "every sequence that fits some bucket is in exactly one batch")
    order = {b: [] for b in lims}
    size = dict(bk)
    for b in ids:
        if not b:
            raise Violation("empty batch")
        fit = [x for x in lims if all(ls[i] <= x for i in b)]
        if len(b) > max(size[x] for x in fit):
            raise Violation("batch of %i sequences %r, buckets %r" % (len(b), [ls[i] for i in b], bk))
        if not c["prob"]:
            own = {[x for x in lims if ls[i] <= x][0] for i in b}
            if len(own) != 1:
                raise Violation("sequences of different buckets %r in one batch" % (own,))
            order[own.pop()] += b
            if len(b) > size[[x for x in lims if ls[b[0]] <= x][0]]:
                raise Violation("batch larger than its bucket's batch size")
        if b != sorted(b):
            raise Violation("order within a bucket %r" % b)
    for k, v in order.items():
        if v != sorted(v):
            raise Violation("order of the sequences of a bucket %r" % v)


def run_shuffle(c):
    TP = _torch()
    gs = c["groups"]
    tot = sum(gs)
    starts = [sum(gs[:i]) for i in range(len(gs))]
    mk = lambda i: [dict(id=starts[i] + j, complete_frac=(starts[i] + j + 1) / max(tot, 1), seq_idx=starts[i] + j, data="d%i" % (starts[i] + j)) for j in range(gs[i])]
    pipe = TP.ShufflingDataPipe(_Src(mk, len(gs)), buffer_size=c["size"], monotonic_data_keys=c["keys"], seed=c["seed"])
    runs = []
    for ep in range(c["epochs"]):
        if c["seed"] is not None:
            pipe.set_seed(c["seed"])
        got = _take(pipe, 3000)
        runs.append([[x["id"] for x in b] for b in got])
        want = [[x["id"] for x in mk(i)] for i in range(len(gs))]
        _same(sorted(runs[-1]), sorted(want), "the shuffled batches are the batches given, each once")
        for k, w in enumerate(range(0, len(want), c["size"])):
            _same(sorted(runs[-1][w : w + c["size"]]), want[w : w + c["size"]], "batches are only reordered within a window of the buffer size")
        seq = [x for b in got for x in b]
        for k in ("complete_frac", "seq_idx"):
            if k in c["keys"]:
                _same([x[k] for x in seq], [x[k] for i in range(len(gs)) for x in mk(i)], "%s keeps its order" % k)
            else:
                _same([x[k] for x in seq], [(x["id"] + 1) / tot if k == "complete_frac" else x["id"] for x in seq], "%s stays with its sequence" % k)
        _same([x["data"] for x in seq], ["d%i" % x["id"] for x in seq], "data stays with its sequence")
    if c["seed"] is not None and c["epochs"] == 2:
        _same(runs[1], runs[0], "the same seed gives the same order")


def run_laplace(c):
    from returnn.datasets.postprocessing import LaplaceOrdering
    from returnn.tensor import TensorDict, Tensor, Dim

    ls = c["lens"]
    n = len(ls)

    def mk(i):
        td = TensorDict()
        td.data["data"] = Tensor("data", dims=[Dim(None, name="t"), Dim(1, name="f")], dtype="float32", raw_tensor=numpy.full((ls[i], 1), i, "float32"))
        td.data["complete_frac"] = Tensor("complete_frac", dims=[], dtype="float32", raw_tensor=numpy.array((i + 1) / n, "float32"))
        td.data["id"] = Tensor("id", dims=[], dtype="int32", raw_tensor=numpy.array(i, "int32"))
        return td

    got = _take(LaplaceOrdering(num_seqs_per_bin=c["size"])(mk(i) for i in range(n)), 3000)
    ids = [int(g.data["id"].raw_tensor) for g in got]
    _same(sorted(ids), list(range(n)), "every sequence of the stream is given out once")
    for k, w in enumerate(range(0, n, c["size"])):
        b = ids[w : w + c["size"]]
        _same(sorted(b), list(range(w, min(w + c["size"], n))), "a bin is a rearrangement of a window of the stream")
        bl = [ls[i] for i in b]
        _same(bl, sorted(bl, reverse=bool(k % 2)), "a bin is sorted by length, up and down alternating")
    for g, i in zip(got, ids):
        r = g.data["data"].raw_tensor
        if r.shape != (ls[i], 1) or not (r == i).all():
            raise Violation("data of another sequence at %i" % i)
    fr = [float(g.data["complete_frac"].raw_tensor) for g in got]
    if fr != [float(numpy.array((i + 1) / n, "float32")) for i in range(n)]:
        raise Violation("complete_frac does not keep its order: %r" % fr)


def run_collate(c):
    TP = _torch()
    import torch

    ls = c["lens"]
    n = len(ls)
    dt = c["dt"]
    R = numpy.random.RandomState(5)

    def arr(i):
        sh = (ls[i],) + ((c["feat"],) if c["feat"] else ())
        if dt == "bool":
            return R.randint(0, 2, size=sh).astype(dt)
        if dt == "uint16":
            return R.randint(0, 65536, size=sh).astype(dt)
        if dt == "uint32":
            return R.randint(0, 2**32, size=sh, dtype="int64").astype(dt)
        return R.randint(0, 120, size=sh).astype(dt)

    fr = {"mono": [(i + 1) / n for i in range(n)], "none": [-1.0] * n, "down": [1 - i / n for i in range(n)]}[c["fracs"]]
    batch = [dict(data=arr(i), seq_tag=numpy.array("tag-%i" % i), seq_idx=numpy.array(i + 3), complete_frac=numpy.array(fr[i], "float32"), epoch=numpy.array(4), num_seqs=numpy.array(99)) for i in range(n)]
    orig = [{k: v.copy() for k, v in b.items()} for b in batch]
    r = TP.collate_batch(batch)
    want = {"data", "data:seq_len", "seq_tag", "seq_idx", "complete_frac", "epoch", "num_seqs"}
    _same(set(r), want, "data keys of a batch")
    d = r["data"].numpy()
    _same(d.shape, (n, max(ls)) + ((c["feat"],) if c["feat"] else ()), "shape of the batch")
    _same(r["data:seq_len"].tolist(), ls, "sequence lengths")
    for i in range(n):
        if not (d[i, : ls[i]].astype("float64") == orig[i]["data"].astype("float64")).all():
            raise Violation("frames of sequence %i changed in the batch" % i)
        if d[i, ls[i] :].any():
            raise Violation("padding of sequence %i not zero" % i)
    _same([str(x) for x in r["seq_tag"]], ["tag-%i" % i for i in range(n)], "tags")
    _same(r["seq_idx"].tolist(), [i + 3 for i in range(n)], "indices")
    _same(float(r["complete_frac"]), float(numpy.float32(max(fr))), "complete_frac of the batch")
    _same((int(r["epoch"]), int(r["num_seqs"])), (4, 99), "epoch and number of sequences")


def run_wrap(c):
    import returnn.torch.data.returnn_dataset_wrapper as TW
    from returnn.datasets.basic import init_dataset

    ls = c["lens"]
    data = [dict(data=numpy.full((ls[i], 1), i, "float32"), classes=numpy.array([i] * (ls[i] // 2 + 1), "int32")) for i in range(len(ls))]
    ds = init_dataset({"class": "StaticDataset", "data": data, "target_list": ["classes"], "seq_ordering": c["order"], "output_dim": {"data": (1, 2), "classes": (99, 1)}})
    pipe = TW.ReturnnDatasetIterDataPipe(ds)
    for ep in range(1, c["epochs"] + 1):
        got = _take(pipe, 3000)
        order = [int(str(g["seq_tag"])[4:]) for g in got]
        if c["order"] in ("default", "reverse"):
            _same(order, list(range(len(ls)))[:: -1 if c["order"] == "reverse" else 1], "order")
        if c["order"] == "sorted":
            _same([ls[i] for i in order], sorted(ls), "lengths")
        _same(sorted(order), list(range(len(ls))), "order")
        _same(len(got), len(ls), "number of sequences given out")
        for k, (g, i) in enumerate(zip(got, order)):
            if g["data"].shape != (ls[i], 1) or not (g["data"] == i).all() or list(g["classes"]) != [i] * (ls[i] // 2 + 1):
                raise Violation("entry %i of the epoch is not sequence %i" % (k, i))
            _same(str(g["seq_tag"]), "seq-%i" % i, "tag")
            _same((int(g["seq_idx"]), int(g["epoch"]), int(g["num_seqs"])), (k, ep, len(ls)), "index, epoch, number of sequences")
            if abs(float(g["complete_frac"]) - (k + 1) / len(ls)) > 1e-6:
                raise Violation("complete_frac %r at %i of %i" % (g["complete_frac"], k, len(ls)))
