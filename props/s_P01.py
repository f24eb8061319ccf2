from props.lib import *
from props.lib import _t, _simp
import returnn.datasets.basic as B

D = B.Dataset


def mkds(**kw):
    ds = object.__new__(D)
    attrs = dict(
        partition_epoch=1, repeat_epoch=1, _seq_order_seq_lens_file=None, _seq_order_seq_lens_by_idx=None,
        seq_ordering="default", fixed_random_seed=None, _random_seed_offset=S.int("off"), unique_seq_tags=False,
        seq_tags_filter=None, _num_shards=1, _shard_index=0, name="ds", epoch=None,
    )
    attrs.update(kw)
    ds.__dict__.update(attrs)
    return ds


def inputs():
    n, P, Sh = S.int("n", lo=0), S.int("P", lo=1), S.int("S", lo=1)
    s1, e1 = S.int("s1", lo=0), S.int("e1", lo=1)
    S.assume(s1 < Sh)
    S.inputs.update(n=n, P=P, S=Sh, s1=s1, e1=e1)
    return n, P, Sh, s1, e1


def second(P, Sh):
    s2, e2 = S.int("s2", lo=0), S.int("e2", lo=1)
    S.assume(s2 < Sh)
    S.inputs.update(s2=s2, e2=e2)
    return s2, e2


def u_tile():
    n, P, Sh, s1, e1 = inputs()
    seq = int_fn("seq", n.t)
    f = D._apply_partition_epoch_and_sharding
    v = view_of(f(PList(seq), P, e1, Sh, s1), seq)
    S.reachable()
    k = ((e1 - 1) % P) * Sh + s1
    if S.decide(eq(k, 0)):
        S.prove(True if v is None and S.decide(n.t == 0) else v[0] == 0, "the first part starts at the beginning of the order")
    if S.decide(eq(k, P * Sh - 1)):
        S.prove(True if v is None and S.decide(n.t == 0) else v[1] == n.t, "the last part ends at the end of the order")
        return
    s2, e2 = second(P, Sh)
    S.assume(eq(((e2 - 1) % P) * Sh + s2, k + 1))
    v2 = view_of(f(PList(seq), P, e2, Sh, s2), seq)
    if v is None or v2 is None:
        raise Unsupported("empty literal part")
    S.prove(v[1] == v2[0], "part k+1 starts exactly where part k ends")


def u_balance():
    n, P, Sh, s1, e1 = inputs()
    seq = int_fn("seq", n.t)
    f = D._apply_partition_epoch_and_sharding
    r1 = f(PList(seq), P, e1, Sh, s1)
    s2, e2 = second(P, Sh)
    r2 = f(PList(seq), P, e2, Sh, s2)
    d = SymNum(r1.v.n - r2.v.n)
    S.prove(And(d <= 1, d >= -1), "sizes of any two parts differ by at most one")


def u_seed():
    P, nth, e1, e2 = S.int("P", lo=1), S.int("nth", lo=1), S.int("e1", lo=1), S.int("e2", lo=1)
    S.inputs.update(P=P, nth=nth, e1=e1, e2=e2)
    ds = mkds(partition_epoch=P)
    same_full = eq((e1 - 1) // P, (e2 - 1) // P)
    a = ds._get_random_seed_for_epoch(epoch=e1, num_epochs_fixed=nth)
    b = ds._get_random_seed_for_epoch(epoch=e2, num_epochs_fixed=nth)
    S.reachable()
    S.prove(Implies(same_full, eq(a, b)), "the seed is constant within a full epoch")
    blk = eq(((e1 - 1) // P) // nth, ((e2 - 1) // P) // nth)
    S.prove(Implies(blk, eq(a, b)), "the seed is constant within num_epochs_fixed full epochs")
    S.prove(Implies(Not(blk), Not(eq(a, b))), "another block of full epochs gets another seed")


def u_seed_fixed():
    P, e1, fs = S.int("P", lo=1), S.int("e1", lo=1), S.int("fixed")
    ds = mkds(partition_epoch=P, fixed_random_seed=fs)
    S.prove(eq(ds._get_random_seed_for_epoch(epoch=e1), fs), "fixed_random_seed is used as is")


def u_compose(ordering):
    """through get_seq_order_for_epoch: consecutive parts of the same full epoch are adjacent pieces of one order"""

    def u():
        n, P, Sh, s1, e1 = inputs()
        S.assume(n >= 1)
        s2, e2 = second(P, Sh)
        S.assume(eq((e1 - 1) // P, (e2 - 1) // P))
        off = S.int("off0")
        k = ((e1 - 1) % P) * Sh + s1
        S.assume(eq(((e2 - 1) % P) * Sh + s2, k + 1))
        r1 = mkds(partition_epoch=P, _num_shards=Sh, _shard_index=s1, seq_ordering=ordering, _random_seed_offset=off).get_seq_order_for_epoch(e1, n, None)
        r2 = mkds(partition_epoch=P, _num_shards=Sh, _shard_index=s2, seq_ordering=ordering, _random_seed_offset=off).get_seq_order_for_epoch(e2, n, None)
        a, b = to_seq(r1), to_seq(r2)
        S.reachable()
        if a.conc_len() == 0 and b.conc_len() == 0:
            return S.prove(True, "adjacent pieces (both empty)")
        if not (isinstance(a, Slice) and isinstance(b, Slice)):
            raise Unsupported("parts are not visibly slices")
        if a.s is b.s:
            S.prove(True, "both parts are pieces of the same order")
        elif type(a.s) is Range and type(b.s) is Range:
            S.prove(And(a.s.start == b.s.start, a.s.step == b.s.step, a.s.n == b.s.n), "both parts are pieces of the same order")
        else:
            S.prove(False, "both parts are pieces of the same order")
        S.prove(a.hi == b.lo, "part k+1 starts exactly where part k ends")

    return u


F = "returnn/datasets/basic.py:Dataset."


def units(tier):
    fp = [F + "_apply_partition_epoch_and_sharding"]
    yield "tiling", u_tile, dict(loops=[CumSum()], functions=fp, max_paths=3000)
    yield "balance", u_balance, dict(loops=[CumSum()], functions=fp, max_paths=3000)
    yield "seed constant per full epoch", u_seed, dict(functions=[F + "_get_random_seed_for_epoch"])
    yield "fixed seed", u_seed_fixed, dict(functions=[F + "_get_random_seed_for_epoch"])
    for o in ("default", "reverse", "random"):
        yield "order+partition composed: " + o, u_compose(o), dict(
            loops=[CumSum()], functions=fp + [F + "get_seq_order_for_epoch", F + "_get_random_seed_for_epoch"], max_paths=3000
        )
    S.assumptions.append("numpy.random.RandomState.permutation(n): a permutation of range(n) that is a function of the seed")
