"""P04 concrete side: batches are a loss-free, in-order grouping within the limits"""
import random
import numpy
from pyvc.concrun import Violation, Skip

KEYS = ["data", "classes"]


def cases(tier, seed):
    R = random.Random(seed)
    reps = 500 if tier == "quick" else 6000

    def lens(lo=1):
        hi = R.choice([3, 10, 40])
        return [R.randint(lo, hi) for _ in range(R.choice([1, 2, 3, 7, 20]))]

    for _ in range(reps):
        ls = lens()
        two = R.choice([False, True])
        seqs = [dict(data=n, classes=R.choice([n, R.randint(1, n)])) if two else dict(data=n) for n in ls]
        bs = R.choice([R.randint(1, 30), R.randint(1, 100), max(ls) * R.randint(1, 4), max(ls) - 1 or 1])
        ms = R.choice([None, -1, 1, 2, 3, R.randint(1, 12)])
        lim = R.choice([bs, bs, dict(data=bs), dict(data=bs, classes=R.randint(1, 40)) if two else dict(data=bs)])
        yield dict(kind="torch", seqs=[dict(q, data=R.choice([0, q["data"]])) if R.random() < 0.1 else q for q in seqs], bs=R.choice([lim, lim, None]), ms=ms)
        yield dict(kind="torchfn", seqs=seqs, bs=[R.randint(1, 60) for _ in seqs], ms=[R.randint(1, 5) for _ in seqs])
        rc = dict(kind="rec", seqs=seqs, bs=lim, ms=ms or -1)
        if R.random() < 0.3:
            rc["max_len"] = R.choice([R.randint(1, 40), dict(data=R.randint(1, 40))])
        if R.random() < 0.3:
            rc["min_len"] = R.randint(0, 6)
        if R.random() < 0.3:
            rc["max_pad"] = R.choice([0, 1, R.randint(0, 20), dict(data=R.randint(0, 20))])
        if R.random() < 0.2:
            rc["ctx"] = R.randint(1, 3)
        if R.random() < 0.3:
            sz = R.randint(1, 9)
            rc["chunking"] = [sz, R.randint(1, sz)]
            rc["seqs"] = [dict.fromkeys(q, q["data"]) for q in seqs]
        yield rc
        yield dict(kind="frames", seqs=[dict(data=n) for n in ls], bs=R.choice([bs, R.randint(1, 9)]), ms=R.choice([-1, 1, 2, 5]))
        yield dict(kind="gen", n=R.randint(0, 9), cache=R.choice([False, True]), ops=[R.choice(["peek", "adv", "adv", "more"]) + ":%i" % R.randint(1, 4) for _ in range(R.randint(1, 14))])


def from_model(unit, label, m):
    def num(k, d):
        try:
            return max(1, min(int(m.get(k)), 5000))
        except (TypeError, ValueError):
            return d

    ms = num("max_seqs", 2)
    for bs in {num("limit", 10), num("limit_data", 10), num("limit.data", 7)}:
        for ln in ([bs // 2 + 1] * 5, [1] * (2 * ms + 1), list(range(1, 9)), list(range(8, 0, -1)), [bs + 1, 1, bs + 1, bs], [bs, 1, bs, 1, 1, 1]):
            ln = [max(1, x) for x in ln][:3000]
            for s in ([dict(data=x) for x in ln], [dict(data=x, classes=max(1, x // 2)) for x in ln]):
                yield dict(kind="torch", seqs=s, bs=bs, ms=ms)
                yield dict(kind="rec", seqs=s, bs=bs, ms=ms)
                yield dict(kind="rec", seqs=s, bs=bs, ms=ms, max_pad=num("maxpad", 1))
                yield dict(kind="rec", seqs=s, bs=bs, ms=ms, min_len=2, max_len=bs)
            yield dict(kind="frames", seqs=[dict(data=x) for x in ln], bs=bs, ms=ms)
    R = random.Random(5)
    for cache in (False, True):
        for n in (0, 1, 3, 6):
            for _ in range(12):
                yield dict(kind="gen", n=n, cache=cache, ops=[R.choice(["peek", "adv", "more"]) + ":%i" % R.randint(1, 4) for _ in range(8)])


def _lim(v, k, inf=10**18):
    if v is None:
        return inf
    if isinstance(v, dict):
        return v.get(k, inf)
    return v


def run_case(c):
    globals()["run_" + c["kind"]](c)


def _items(c):
    out, n = [], len(c["seqs"])
    for i, q in enumerate(c["seqs"]):
        d = {k: numpy.zeros((ln,), "int8") for k, ln in q.items()}
        d.update(seq_tag=numpy.array("seq-%i" % i), seq_idx=numpy.array(i), num_seqs=numpy.array(n), epoch=numpy.array(1), complete_frac=numpy.array((i + 1) / n))
        out.append(d)
    return out


def _check_groups(c, items, batches, bs_of, ms_of):
    flat = [d for b in batches for d in b]
    if len(flat) != len(items) or any(x is not y for x, y in zip(flat, items)):
        raise Violation("the batches do not contain the sequences exactly once in order: %r of %i" % ([[int(d["seq_idx"]) for d in b] for b in batches], len(items)))
    for j, b in enumerate(batches):
        if not b:
            raise Violation("empty batch")
        last = int(b[-1]["seq_idx"])
        ms = ms_of(last)
        if len(b) > ms:
            raise Violation("batch %i has %i sequences, max_seqs is %i" % (j, len(b), ms))
        for k in c["seqs"][0]:
            pad = max(len(d[k]) for d in b) * len(b)
            if len(b) > 1 and pad > _lim(bs_of(last), k):
                raise Violation("batch %i: padded size of %s %i is over the limit %r" % (j, k, pad, bs_of(last)))
        if j + 1 < len(batches):
            nx = batches[j + 1][0]
            i = int(nx["seq_idx"])
            over = len(b) + 1 > ms_of(i) or any(max(len(d[k]) for d in b + [nx]) * (len(b) + 1) > _lim(bs_of(i), k) for k in c["seqs"][0])
            if not over:
                raise Violation("batch %i was closed although sequence %i fits" % (j, i))


def run_torch(c):
    from returnn.torch.data.pipeline import BatchingIterDataPipe

    items = _items(c)
    pipe = BatchingIterDataPipe(items, batch_size=c["bs"], max_seqs=c["ms"])
    ms = 10**18 if c["ms"] in (None, -1) else c["ms"]
    for _ in range(2):
        batches = []
        for b in pipe:
            batches.append(list(b))
        _check_groups(c, items, batches, lambda i: c["bs"], lambda i: ms)
    # batches must not change after they were handed out
    kept = list(pipe)
    if [len(b) for b in kept] != [len(b) for b in batches]:
        raise Violation("batches change after they were given to the consumer")


def run_torchfn(c):
    from returnn.torch.data.pipeline import BatchingIterDataPipe

    items = _items(c)
    n = len(items)

    def bs(*, epoch, seq_idx, epoch_continuous, **_kw):
        if epoch != 1 or abs(epoch_continuous - (seq_idx + 1) / n) > 1e-6:
            raise Violation("batch_size function got epoch %r, epoch_continuous %r for sequence %r of %i" % (epoch, epoch_continuous, seq_idx, n))
        return c["bs"][seq_idx]

    def ms(*, epoch, seq_idx, epoch_continuous, **_kw):
        return c["ms"][seq_idx]

    pipe = BatchingIterDataPipe(items, batch_size=bs, max_seqs=ms)
    _check_groups(c, items, [list(b) for b in pipe], lambda i: c["bs"][i], lambda i: c["ms"][i])


def _ds(c):
    from returnn.datasets.generating import StaticDataset

    kw = {}
    if c.get("ctx"):
        kw["context_window"] = 2 * c["ctx"] + 1
    if c.get("chunking"):
        kw["chunking"] = tuple(c["chunking"])
    data = [{k: numpy.zeros((ln,), "int32") for k, ln in q.items()} for q in c["seqs"]]
    ds = StaticDataset(data, output_dim={k: (10, 1) for k in c["seqs"][0]}, **kw)
    ds.init_seq_order(epoch=1)
    return ds


def _drain(gen):
    out = []
    while gen.has_more():
        (b,) = gen.peek_next_n(1)
        out.append(b)
        gen.advance(1)
        if len(out) > 100000:
            raise Violation("the batch generator does not end")
    return out


def run_rec(c):
    ds = _ds(c)
    keys = list(c["seqs"][0])
    slices = [(s, a, b) for s, a, b in ds.iterate_seqs(recurrent_net=True)]
    slices = [(s, {k: a[k] for k in keys}, {k: b[k] for k in keys}) for s, a, b in slices]
    cl = {k: ds.ctx_left.get(k, 0) for k in keys} if c.get("ctx") else dict.fromkeys(keys, 0)
    cr = {k: ds.ctx_right.get(k, 0) for k in keys} if c.get("ctx") else dict.fromkeys(keys, 0)
    if c.get("ctx") and (cl["data"], cr["data"]) != (c["ctx"], c["ctx"]):
        raise Violation("context_window %i: left %r, right %r" % (2 * c["ctx"] + 1, cl, cr))
    exp = []
    for s, a, b in slices:
        a, b = {k: a[k] - cl[k] for k in keys}, {k: b[k] + cr[k] for k in keys}
        ln = {k: b[k] - a[k] for k in keys}
        if any(ln[k] > _lim(c.get("max_len"), k) for k in keys) or any(ln[k] < _lim(c.get("min_len"), k, 0) for k in keys):
            continue
        exp.append((s, a, b, ln))
    kw = {}
    if c.get("max_len") is not None:
        kw["max_seq_length"] = c["max_len"]
    if c.get("min_len") is not None:
        kw["min_seq_length"] = c["min_len"]
    if c.get("max_pad") is not None:
        kw["max_pad_size"] = c["max_pad"]
    batches = _drain(ds.generate_batches(recurrent_net=True, batch_size=c["bs"], max_seqs=c["ms"], **kw))
    pos = 0
    ms = 10**18 if c["ms"] == -1 else c["ms"]

    def fits(ls):
        if len(ls) > ms:
            return False
        for k in keys:
            m = max(x[k] for x in ls)
            if m * len(ls) > _lim(c["bs"], k) or m * len(ls) - sum(x[k] for x in ls) > _lim(c.get("max_pad"), k):
                return False
        return True

    for j, b in enumerate(batches):
        parts = list(b.seqs)
        if not parts:
            raise Violation("empty batch")
        ls = []
        for i, p in enumerate(parts):
            if pos >= len(exp):
                raise Violation("more slices than expected")
            s, a, e, ln = exp[pos]
            pos += 1
            ls.append(ln)
            got = (p.seq_idx, {k: p.seq_start_frame[k] for k in keys}, {k: p.seq_end_frame[k] for k in keys})
            if got != (s, a, e):
                raise Violation("batch %i part %i is %r, expected %r" % (j, i, got, (s, a, e)))
            if p.batch_slice != i or any(p.batch_frame_offset[k] != 0 for k in keys):
                raise Violation("batch %i part %i: slice %r offset %r" % (j, i, p.batch_slice, p.batch_frame_offset))
        if b.num_slices != len(parts):
            raise Violation("num_slices %r for %i parts" % (b.num_slices, len(parts)))
        if len(parts) > 1 and not fits(ls):
            raise Violation("batch %i (%r) exceeds the limits batch_size %r, max_seqs %r, max_pad_size %r" % (j, ls, c["bs"], c["ms"], c.get("max_pad")))
        if j + 1 < len(batches) and fits(ls + [exp[pos][3]]):
            raise Violation("batch %i was closed although the next slice fits" % j)
        for k in keys:
            if b.max_num_frames_per_slice[k] != max(x[k] for x in ls):
                raise Violation("batch %i: frame count %r, longest part %r" % (j, b.max_num_frames_per_slice[k], max(x[k] for x in ls)))
            if b.get_total_num_frames()[k] != sum(x[k] for x in ls):
                raise Violation("batch %i: total frames %r" % (j, b.get_total_num_frames()[k]))
    if pos != len(exp):
        raise Violation("%i slices are in no batch (batches %r)" % (len(exp) - pos, [[p.seq_idx for p in b.seqs] for b in batches]))


def run_frames(c):
    ds = _ds(c)
    batches = _drain(ds.generate_batches(recurrent_net=False, batch_size=c["bs"], max_seqs=c["ms"]))
    stream = [(s, f) for s, q in enumerate(c["seqs"]) for f in range(q["data"])]
    got = []
    for j, b in enumerate(batches):
        off = 0
        for p in b.seqs:
            a, e = p.seq_start_frame["data"], p.seq_end_frame["data"]
            if p.batch_frame_offset["data"] != off or p.batch_slice != 0 or e <= a:
                raise Violation("batch %i: part [%s,%s) at offset %r, expected offset %i" % (j, a, e, p.batch_frame_offset["data"], off))
            off += e - a
            got += [(p.seq_idx, f) for f in range(a, e)]
        if not 0 < off <= c["bs"]:
            raise Violation("batch %i has %i frames, limit %i" % (j, off, c["bs"]))
        if b.max_num_frames_per_slice["data"] != off:
            raise Violation("batch %i declares %r frames, has %i" % (j, b.max_num_frames_per_slice["data"], off))
        if j + 1 < len(batches) and off < c["bs"] and c["ms"] == -1:
            raise Violation("batch %i closed early with %i of %i frames" % (j, off, c["bs"]))
    if got != stream:
        raise Violation("frames in batches differ from the frames of the dataset")


class _DS:
    def __init__(self):
        self.num_seqs = 1

    def get_complete_frac(self, i, **kw):
        return 0.5


def run_gen(c):
    from returnn.engine.batch import BatchSetGenerator, Batch

    bs = []
    for i in range(c["n"]):
        b = Batch()
        b.add_sequence_as_slice(seq_idx=i, seq_start_frame=0, length=3)
        bs.append(b)
    gen = BatchSetGenerator(dataset=_DS(), generator=iter(bs), cache_whole_epoch=c["cache"])
    for rnd in range(2 if c["cache"] else 1):
        pos = 0
        for op in c["ops"]:
            o, k = op.split(":")
            k = int(k)
            if o == "peek":
                r = gen.peek_next_n(k)
                e = bs[pos : pos + k]
                if len(r) != len(e) or any(x is not y for x, y in zip(r, e)):
                    raise Violation("peek_next_n(%i) at %i of %i gives %i batches, expected the next %i" % (k, pos, c["n"], len(r), len(e)))
            elif o == "adv":
                k = min(k, c["n"] - pos)
                if k <= 0:
                    continue
                gen.advance(k)
                pos += k
                if gen.get_current_batch_idx() != pos:
                    raise Violation("batch counter %r after %i batches" % (gen.get_current_batch_idx(), pos))
            else:
                if bool(gen.has_more()) != (pos < c["n"]):
                    raise Violation("has_more() is %r at %i of %i" % (gen.has_more(), pos, c["n"]))
        if c["cache"] and rnd == 0:
            _drain(gen)
            gen.reset()
