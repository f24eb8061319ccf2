"""P01 concrete side: sub-epochs x shards tile the epoch order exactly (real Dataset classes)"""
import random
from pyvc.concrun import Violation, Skip

ORDERINGS = ["default", "reverse", "sorted", "sorted_reverse", "random", "random:2", "sort_bin_shuffle:3", "sort_bin_shuffle_x2:.4:2", "laplace:3", "laplace:.3:2"]


def _mk(n, ordering, P, S, s, off=0):
    from returnn.datasets.basic import Dataset

    class D(Dataset):
        def supports_sharding(self):
            return True

        def get_total_num_seqs(self, **kw):
            return n

        def get_all_tags(self):
            return ["t%i" % i for i in range(n)]

    return D(seq_ordering=ordering, partition_epoch=P, _num_shards=S, _shard_index=s, random_seed_offset=off)


def seq_len(i):
    return (i * 7919 + 13) % 11 + 1


def cases(tier, seed):
    R = random.Random(seed)
    if tier == "quick":
        for n in list(range(1, 14)):
            for P in (1, 2, 3, 4, 5, 7):
                for S in (1, 2, 3):
                    yield dict(kind="tile", n=n, P=P, S=S, full=R.randint(0, 3), ordering=R.choice(ORDERINGS), off=R.choice([0, 1, 17]))
                    yield dict(kind="part", n=n, P=P, S=S, full=R.randint(0, 2))
    for _ in range(1500 if tier == "quick" else 4000):
        n = R.choice([R.randint(1, 30), R.randint(30, 400), R.randint(1, 8)])
        yield dict(kind="tile", n=n, P=R.randint(1, 12), S=R.randint(1, 5), full=R.randint(0, 7), ordering=R.choice(ORDERINGS), off=R.randint(0, 100))
        yield dict(kind="part", n=R.choice([0, n]), P=R.randint(1, 12), S=R.randint(1, 5), full=R.randint(0, 7))
    for _ in range(300):
        yield dict(kind="seed", P=R.randint(1, 9), nth=R.randint(1, 4), full=R.randint(0, 9), off=R.randint(0, 1000), fixed=R.choice([None, None, 5]))
    for _ in range(40):
        yield dict(kind="dummy", n=R.randint(1, 25), P=R.randint(1, 6), full=R.randint(0, 3), ordering=R.choice(["default", "random", "reverse"]))


def from_model(unit, label, m):
    P, S, n = m.get("P", 1), m.get("S", 1), m.get("n", 1)
    e1 = m.get("e1") or 1
    for o in ORDERINGS:
        yield dict(kind="tile", n=max(n, 1), P=P, S=S, full=(e1 - 1) // P, ordering=o, off=0)
    yield dict(kind="part", n=n, P=P, S=S, full=(e1 - 1) // P)
    yield dict(kind="seed", P=P, nth=m.get("nth", 1), full=(e1 - 1) // P, off=0, fixed=None)


def check_parts(parts, expect, P, S):
    cat = [int(x) for p in parts for x in p]
    if cat != [int(x) for x in expect]:
        raise Violation("concatenated sub-epoch/shard parts %r != epoch order %r" % (cat[:50], list(expect)[:50]))
    sizes = [len(p) for p in parts]
    if sizes and max(sizes) - min(sizes) > 1:
        raise Violation("unbalanced parts %r" % sizes)


def run_case(c):
    from returnn.datasets.basic import Dataset

    if c["kind"] == "part":
        f = getattr(Dataset, "_apply_partition_epoch_and_sharding", None)
        if f is None:
            raise Skip("no _apply_partition_epoch_and_sharding")
        order = [(i * 31) % 97 * 1000 + i for i in range(c["n"])]
        P, S = c["P"], c["S"]
        parts = [f(list(order), P, c["full"] * P + p + 1, S, s) for p in range(P) for s in range(S)]
        check_parts(parts, order, P, S)
        # epoch None / 0 count as the first epoch
        if list(f(list(order), P, None, S, 0)) != list(f(list(order), P, 1, S, 0)):
            raise Violation("epoch None is not treated as epoch 1")
    elif c["kind"] == "tile":
        n, P, S, o = c["n"], c["P"], c["S"], c["ordering"]
        parts = []
        for p in range(P):
            for s in range(S):
                ds = _mk(n, o, P, S, s, c["off"])
                parts.append(list(ds.get_seq_order_for_epoch(c["full"] * P + p + 1, n, seq_len)))
        cat = sorted(int(x) for q in parts for x in q)
        if cat != list(range(n)):
            raise Violation("a full epoch of %r does not contain every sequence exactly once: %r" % (o, cat[:60]))
        sizes = [len(q) for q in parts]
        if max(sizes) - min(sizes) > 1:
            raise Violation("unbalanced parts %r" % sizes)
        # parts are contiguous pieces of the order of the full epoch
        ref = _mk(n, o, 1, 1, 0, c["off"])
        full = list(ref.get_seq_order_for_epoch(c["full"] + 1, n, seq_len))
        check_parts(parts, full, P, S)
    elif c["kind"] == "seed":
        ds = _mk(5, "random", c["P"], 1, 0, c["off"])
        ds.fixed_random_seed = c["fixed"]
        f = getattr(ds, "_get_random_seed_for_epoch", None)
        if f is None:
            raise Skip("no _get_random_seed_for_epoch")
        P, nth = c["P"], c["nth"]
        seeds = [f(epoch=c["full"] * P + p + 1, num_epochs_fixed=nth) for p in range(P)]
        if len(set(seeds)) != 1:
            raise Violation("random seed changes within a full epoch: %r" % seeds)
        if c["fixed"] is not None and seeds[0] != c["fixed"]:
            raise Violation("fixed_random_seed not honoured: %r" % seeds)
        if c["fixed"] is None:
            blk = c["full"] // nth
            s2 = [f(epoch=(blk * nth + k) * P + 1, num_epochs_fixed=nth) for k in range(nth)]
            if len(set(s2)) != 1:
                raise Violation("random seed changes within %i epochs that should share it: %r" % (nth, s2))
            s3 = f(epoch=(blk + 1) * nth * P + 1, num_epochs_fixed=nth)
            if s3 == seeds[0]:
                raise Violation("random seed does not change after the fixed epochs")
    elif c["kind"] == "dummy":
        from returnn.datasets.generating import DummyDataset

        n, P = c["n"], c["P"]
        tags = []
        for p in range(P):
            ds = DummyDataset(input_dim=2, output_dim=3, num_seqs=n, seq_len=2)
            ds.seq_ordering, ds.partition_epoch = c["ordering"], P
            ds.initialize()
            ds.init_seq_order(epoch=c["full"] * P + p + 1)
            k = 0
            while ds.is_less_than_num_seqs(k):
                ds.load_seqs(k, k + 1)
                tags.append(ds.get_tag(k))
                k += 1
        if len(tags) != n or len(set(tags)) != n:
            raise Violation("full epoch over the dataset gives tags %r for %i sequences" % (tags, n))
