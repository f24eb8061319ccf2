"""P03 concrete side: the chunks of a sequence tile it with the configured size / step / minimum, in order, for every data key"""
import random
import numpy
from pyvc.concrun import Violation, Skip


def _arr(s, key, n):
    return (numpy.arange(n) + 1000 * s + (500000 if key != "data" else 0)).astype("int32")


def _ds(c):
    from returnn.datasets.generating import StaticDataset

    data = [{k: _arr(i, k, n) for k, n in q.items()} for i, q in enumerate(c["seqs"])]
    keys = list(c["seqs"][0].keys())
    kw = {}
    if c.get("chunking") is not None:
        ch = c["chunking"]
        kw["chunking"] = tuple(ch) if isinstance(ch, list) else ch
    if c.get("minc") is not None:
        kw["min_chunk_size"] = c["minc"]
    if c.get("var"):
        kw["chunking_variance"] = c["var"]
    ds = StaticDataset(data, output_dim={k: (1000000, 1) for k in keys}, **kw)
    ds.init_seq_order(epoch=c.get("epoch", 1))
    return ds, keys


def cases(tier, seed):
    R = random.Random(seed)
    reps = 500 if tier == "quick" else 6000

    def lens(hi=30, lo=0):
        return [R.choice([R.randint(lo, 6), R.randint(lo, hi)]) for _ in range(R.randint(1, 5))]

    for _ in range(reps):
        size = R.randint(1, 12)
        step = R.choice([None, size, R.randint(1, 12), R.randint(1, size)])
        minc = R.choice([0, 0, R.randint(0, 6), R.randint(0, size)])
        ch = R.choice([[size, step], ["%i:%i" % (size, step or size)], [size]])
        ch = ch if len(ch) == 2 else ch[0]
        if isinstance(ch, int) and step not in (None, size):
            ch = [size, step]
        yield dict(kind="tf", seqs=[dict(data=n) for n in lens()], chunking=ch, size=size, step=step or size, minc=minc)
        yield dict(kind="tf", seqs=[dict(data=n, classes=n) for n in lens()], chunking=ch, size=size, step=step or size, minc=minc, used=R.choice([None, ["data"], ["data", "classes"], ["classes"]]))
        yield dict(kind="tf", seqs=[dict(data=n, classes=R.choice([0, 1, n])) for n in lens()], chunking=ch, size=size, step=step or size, minc=minc, used=R.choice([None, ["data", "classes"]]))
        yield dict(kind="tf", seqs=[dict(data=n, classes=n) for n in lens(lo=1)], chunking=None, minc=minc)
        # different sizes per key with constant ratio
        r = R.randint(2, 4)
        st = step or size
        mc = R.choice([0, 0, 1])
        yield dict(kind="tf", seqs=[dict(data=n * r, classes=n) for n in lens(lo=1)], chunking=[dict(data=size * r, classes=size), dict(data=st * r, classes=st)], size=dict(data=size * r, classes=size), step=dict(data=st * r, classes=st), minc=dict(data=mc * r, classes=mc), used=R.choice([None, ["data", "classes"]]))
        yield dict(kind="var", seqs=[dict(data=n) for n in lens(60, 1)], chunking=[size, st], size=size, step=st, minc=R.choice([0, 1]), var=R.choice([0.1, 0.3, 0.9]))
        # torch
        yield dict(kind="torch", seqs=[dict(data=n) for n in lens()], chunking=[size, step], size=size, step=st, minc=minc)
        yield dict(kind="torch", seqs=[dict(data=n, classes=n) for n in lens()], chunking=[size, step], size=size, step=st, minc=minc)
        yield dict(kind="torch", seqs=[dict(data=n, other=m) for n, m in zip(lens(), lens())] or [dict(data=3, other=1)], chunking=[dict(data=size), dict(data=st)], size=size, step=st, minc=minc, only=["data"])
        yield dict(kind="torch", seqs=[dict(data=n * r, classes=n) for n in lens()], chunking=[dict(data=size * r, classes=size), dict(data=st * r, classes=st)], size=dict(data=size * r, classes=size), step=dict(data=st * r, classes=st), minc=0)
        yield dict(kind="torch", seqs=[dict(data=n) for n in lens()], chunking=size, size=size, step=size, minc=minc)


def from_model(unit, label, m):
    def num(k, d):
        v = m.get(k)
        try:
            return int(v)
        except (TypeError, ValueError):
            return d

    size, step, minc, n = max(1, num("size", 3)), max(1, num("step", 2)), max(0, num("minc", 0)), max(1, min(50, num("n", 2)))
    if size > 10**5:
        return
    for ln in sorted({0, 1, 2, size - 1, size, size + 1, step, step + 1, 2 * step, size + step, size + step + minc, 3 * size + 1}):
        if ln < 0:
            continue
        for torch in (False, True):
            yield dict(kind="torch" if torch else "tf", seqs=[dict(data=ln)] * n, chunking=[size, step], size=size, step=step, minc=minc)
            yield dict(kind="torch" if torch else "tf", seqs=[dict(data=ln, classes=ln)] * n, chunking=[size, step], size=size, step=step, minc=minc)
        yield dict(kind="tf", seqs=[dict(data=ln, classes=1)] * n, chunking=[size, step], size=size, step=step, minc=minc)
        yield dict(kind="torch", seqs=[dict(data=ln, other=3)] * n, chunking=[dict(data=size), dict(data=step)], size=size, step=step, minc=minc, only=["data"])


def _get(v, k):
    return v[k] if isinstance(v, dict) else v


def run_case(c):
    if c["kind"] in ("tf", "var"):
        return run_tf(c)
    return run_torch(c)


def run_tf(c):
    ds, keys = _ds(c)
    used = c.get("used")
    kw = dict(used_data_keys=set(used)) if used else {}
    if c["kind"] == "var":
        kw = dict(used_data_keys=set(keys))
        used = keys
    got = [(s, dict(a.items()) if hasattr(a, "items") else a, a, b) for s, a, b in ds.iterate_seqs(**kw)]
    got = [(s, a, b) for s, _, a, b in got]
    exp = []
    for s, q in enumerate(c["seqs"]):
        if c.get("chunking") is None:
            exp.append((s, {k: (0, n) for k, n in q.items()}))
            continue
        ks = used or keys
        dk = "data" if "data" in ks else sorted(ks)[0]
        full = [k for k in ks if not (q[k] == q[dk] and _get(c["step"], k) == _get(c["step"], dk)) and q[k] <= 1]
        if c["kind"] == "var":
            continue
        t = {k: 0 for k in ks}
        while q[dk] > t[dk]:
            exp.append((s, {k: (0, q[k]) if k in full else (t[k], min(t[k] + _get(c["size"], k), q[k])) for k in ks}))
            for k in ks:
                t[k] += _get(c["step"], k)
            if any(q[k] - t[k] <= _get(c["minc"], k) for k in ks if k not in full):
                break
    if c["kind"] == "var":
        return run_var(c, got)
    if [g[0] for g in got] != [e[0] for e in exp]:
        raise Violation("chunks of sequences %r, expected %r" % ([g[0] for g in got], [e[0] for e in exp]))
    for (s, a, b), (_, e) in zip(got, exp):
        for k, (x, y) in e.items():
            if (a[k], b[k]) != (x, y):
                raise Violation("sequence %i key %s: chunk [%s,%s), expected [%s,%s)" % (s, k, a[k], b[k], x, y))


def run_var(c, got):
    per = {}
    for s, a, b in got:
        per.setdefault(s, []).append((a["data"], b["data"]))
    if [s for s, _, _ in got] != sorted(s for s, _, _ in got):
        raise Violation("chunks not in sequence order")
    for s, q in enumerate(c["seqs"]):
        n = q["data"]
        ch = per.get(s, [])
        if not ch or ch[0][0] != 0:
            raise Violation("sequence %i: first chunk does not start at 0: %r" % (s, ch[:2]))
        steps = {y[0] - x[0] for x, y in zip(ch, ch[1:])}
        if len(steps) > 1:
            raise Violation("sequence %i: irregular chunk steps %r" % (s, steps))
        for st in steps:
            if not 1 <= st <= c["step"]:
                raise Violation("sequence %i: chunk step %i outside [1,%i]" % (s, st, c["step"]))
        sizes = [y - x for x, y in ch]
        if max(sizes) > c["size"] or min(sizes) < 1:
            raise Violation("sequence %i: chunk sizes %r outside [1,%i]" % (s, sizes, c["size"]))
        if any(y > n for _, y in ch):
            raise Violation("chunk past the end")
        for (x, y), sz in zip(ch[:-1], sizes[:-1]):
            if sz != sizes[0] and y != n:
                raise Violation("sequence %i: chunk sizes vary inside the sequence: %r" % (s, sizes))
        if c["size"] == c["step"] and n - ch[-1][1] > c["minc"]:
            raise Violation("sequence %i: %i frames at the end are lost (min_chunk_size %i)" % (s, n - ch[-1][1], c["minc"]))


def run_torch(c):
    from returnn.torch.data.pipeline import ChunkingIterDataPipe

    items = []
    for s, q in enumerate(c["seqs"]):
        d = {k: _arr(s, k, n) for k, n in q.items()}
        d.update(seq_tag=numpy.array("seq-%i" % s), seq_idx=numpy.array(s), num_seqs=numpy.array(len(c["seqs"])), epoch=numpy.array(1), complete_frac=numpy.array((s + 1) / len(c["seqs"])))
        items.append(d)
    ch = c["chunking"]
    ch = tuple(ch) if isinstance(ch, list) else ch
    pipe = ChunkingIterDataPipe(items, ch, min_chunk_size=c["minc"])
    got = list(pipe)
    for rnd in range(2):
        pos = 0
        for s, d in enumerate(items):
            ks = c.get("only") or list(c["seqs"][s].keys())
            cand = {k: [(a, min(a + _get(c["size"], k), len(d[k]))) for a in range(0, len(d[k]), _get(c["step"], k))] for k in ks}
            cand = {k: [(a, b) for a, b in v if b - a >= _get(c["minc"], k)] for k, v in cand.items()}
            n = len(cand[ks[0]])
            for j in range(n):
                if pos >= len(got):
                    raise Violation("sequence %i: chunk %i is missing" % (s, j))
                g = got[pos]
                pos += 1
                if sorted(g.keys()) != sorted(d.keys()):
                    raise Violation("keys %r, expected %r" % (sorted(g.keys()), sorted(d.keys())))
                for k in d:
                    e = d[k][cand[k][j][0] : cand[k][j][1]] if k in ks else d[k]
                    if not numpy.array_equal(g[k], e):
                        raise Violation("sequence %i chunk %i key %s: %r, expected %r" % (s, j, k, g[k], e))
        if pos != len(got):
            raise Violation("%i additional chunks" % (len(got) - pos))
        if rnd == 0:
            got = list(pipe)  # a second epoch gives the same
