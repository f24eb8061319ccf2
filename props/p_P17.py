"""P17 concrete side: arithmetic of dimensions against plain integer arithmetic (eager, torch)"""
import itertools
import pickle
import random
import numpy
from pyvc.concrun import Violation, Skip

CASE_S = 30
COUNT = itertools.count()
OPS = ["add", "radd", "sub", "sub_left", "mul", "rmul", "floordiv", "truediv", "div_left", "ceildiv", "ceildiv_left"]


def cases(tier, seed):
    R = random.Random(seed)
    for c in FIXED:
        yield c
    for i in range(4000 if tier == "quick" else 30000):
        yield gen(R)


def gen(R):
    nb = R.randint(1, 3)
    leaves = []
    for i in range(R.randint(2, 4)):
        k = R.choice(["dyn", "dyn", "dyn", "static", "scalar"])
        leaves.append((k, R.randint(1, 9)))
    steps = []
    n = len(leaves)
    for i in range(R.choice([2, 3, 4, 5, 6, 7, 14])):
        x = R.randrange(n) if R.random() < 0.5 else n - 1
        y = ("dim", R.randrange(n)) if R.random() < 0.6 else ("int", R.randint(0 if R.random() < 0.1 else 1, 4))
        if steps and R.random() < 0.25:  # the operands of an earlier step, another operation
            _, x, y = R.choice(steps)
            if y[0] == "dim" and R.random() < 0.5:
                x, y = y[1], ("dim", x)
        steps.append((R.choice(OPS) if R.random() < 0.92 else "same", x, y))
        n += 1
    c = dict(nb=nb, leaves=leaves, steps=steps, rounds=R.choice([1, 1, 2, 3]), rnd=R.randint(0, 10 ** 6), bv=R.choice([1, 16, 22]), reset=R.choice(["leaf", "leaf", "all"]), kinds=R.random() < 0.5, keep=False, pickle=R.random() < 0.2)
    c["keep"] = c["reset"] == "all" and R.random() < 0.6
    return c


FIXED = [
    # b * (a // 2) // 3
    dict(nb=2, leaves=[("dyn", 3), ("dyn", 5)], steps=[("floordiv", 1, ("int", 2)), ("mul", 0, ("dim", 2)), ("floordiv", 3, ("int", 3))], rounds=1, rnd=1, bv=22, reset="leaf", kinds=False, keep=False),
    # a - b
    dict(nb=2, leaves=[("dyn", 9), ("dyn", 4)], steps=[("sub", 0, ("dim", 1))], rounds=2, rnd=3, bv=22, reset="leaf", kinds=False, keep=False),
    # (a * 2) ceildiv 3, ceildiv 2
    dict(nb=3, leaves=[("dyn", 9)], steps=[("mul", 0, ("int", 2)), ("ceildiv", 1, ("int", 3)), ("ceildiv", 2, ("int", 2)), ("add", 3, ("dim", 0))], rounds=3, rnd=4, bv=22, reset="leaf", kinds=False, keep=False),
]


def from_model(unit, label, m):
    R = random.Random(17)
    for c in FIXED:
        yield c
    for k in range(3000):
        c = gen(R)
        yield c


def arith(op, x, y):
    if op == "same":
        return x
    if op in ("add", "radd"):
        return x + y
    if op in ("sub", "sub_left"):
        return x - y
    if op in ("mul", "rmul"):
        return x * y
    if op in ("floordiv", "truediv", "div_left"):
        return x // y
    return -(-x // y)


def apply(op, d, o):
    if op == "same":
        from returnn.tensor import Dim

        n = Dim(None, name="same%d" % next(COUNT))
        n.declare_same_as(d)
        return n
    if op == "add":
        return d + o
    if op == "radd":
        return o + d
    if op == "sub":
        return d - o
    if op == "sub_left":
        return d.sub_left(o)
    if op == "mul":
        return d * o
    if op == "rmul":
        return o * d
    if op == "floordiv":
        return d // o
    if op == "truediv":
        return d.div_right(o)
    if op == "div_left":
        return d.div_left(o)
    if op == "ceildiv":
        return d.ceildiv_right(o)
    return d.ceildiv_left(o)


def tree_value(d, leaf, neg):
    """exact value of the expression the dim says it is derived from; records whether a sum on the way is negative"""
    d = d.get_same_base()
    if id(d) in leaf:
        return leaf[id(d)]
    op = d.derived_from_op
    if op is None:
        raise Violation("%s is derived from nothing" % d.description)
    if op.kind == "constant":
        return numpy.array(op.attribs["value"])
    vals = [tree_value(x, leaf, neg) for x in op.inputs]
    r = vals[0]
    kind = op.kind.replace("_right", "").replace("_left", "")
    for v in vals[1:]:
        if kind.endswith("div") and (v == 0).any():
            neg.append(d)
            return r
        r = arith({"add": "add", "mul": "mul", "floordiv": "floordiv", "truediv": "truediv", "ceildiv": "ceildiv"}[kind], r, v)
        if kind == "add" and (r < 0).any():
            neg.append(d)
    return r


def run_case(c):
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim
    from returnn.util.basic import BehaviorVersion

    rf.select_backend_torch()
    old = BehaviorVersion._get_state()
    try:
        BehaviorVersion._reset((c["bv"], c["bv"]))
        BehaviorVersion._handle_new_min_version()
        _run(c, torch, rf, Tensor, Dim)
    finally:
        BehaviorVersion._reset(old)
        BehaviorVersion._handle_new_min_version()


def _run(c, torch, rf, Tensor, Dim):
    R = random.Random(c["rnd"])
    nb = c["nb"]
    batch = Dim(Tensor("batch", [], "int32", raw_tensor=torch.tensor(nb, dtype=torch.int32)), name="batch")

    def sizes(k, mx, first):
        if k == "dyn":
            v = [R.randint(1, mx) for _ in range(nb)]
            if first:
                v[R.randrange(nb)] = mx
            return v
        return R.randint(1, mx)

    leaves, val = [], {}
    for i, (k, mx) in enumerate(c["leaves"]):
        kind = dict(kind=[Dim.Types.Spatial, Dim.Types.Feature][i % 2]) if c["kinds"] else {}
        if k == "static":
            d = Dim(mx, name="s%d" % i, **kind)
            val[i] = numpy.array(mx)
        else:
            v = sizes(k, mx, True)
            d = Dim(Tensor("z%d" % i, [batch] if k == "dyn" else [], "int32", raw_tensor=torch.tensor(v, dtype=torch.int32)), name="d%d" % i, **kind)
            val[i] = numpy.array(v)
        if c.get("pickle") and k == "static":
            d = pickle.loads(pickle.dumps(d))
        leaves.append(d)
    pool = {i: d for i, d in enumerate(leaves)}
    bad = set()

    def operand(y):
        if y[0] == "int":
            return y[1], numpy.array(y[1])
        return pool[y[1]], val[y[1]]

    def ok(op, x, y, xk):
        """precondition: sizes stay non-negative, divisors are positive, true division without remainder"""
        if (x < 0).any() or (y < 0).any():
            return False
        if op == "same":
            return pool[xk].dimension is None
        if op.startswith("sub"):
            return bool((x - y >= 0).all())
        if op in ("floordiv", "ceildiv", "ceildiv_left", "truediv", "div_left"):
            if (y <= 0).any():
                return False
        if op in ("truediv", "div_left"):
            return bool((x % y == 0).all())
        if op in ("mul", "rmul"):
            return bool((x * y < 10 ** 6).all())
        return True

    n0 = len(leaves)
    for rnd in range(c["rounds"]):
        if rnd:
            # a new batch: other sizes of the dynamic dims
            nb = R.randint(1, 3)
            if c["reset"] == "all":
                for d in pool.values():
                    d.reset_batch_and_raw()
            else:
                for i, d in enumerate(leaves):
                    if d.dimension is None:
                        d.reset_raw()
            batch.reset_raw()
            batch.dyn_size_ext = Tensor("batch", [], "int32", raw_tensor=torch.tensor(nb, dtype=torch.int32))
            for i, (k, mx) in enumerate(c["leaves"]):
                if k == "static":
                    continue
                v = sizes(k, mx + 2, True)
                leaves[i].dyn_size_ext = Tensor("z%d" % i, [batch] if k == "dyn" else [], "int32", raw_tensor=torch.tensor(v, dtype=torch.int32))
                val[i] = numpy.array(v)
        for j, (op, x, y) in enumerate(c["steps"]):
            k = n0 + j
            if x not in pool or (y[0] == "dim" and y[1] not in pool):
                continue
            if x in bad or y[0] == "dim" and y[1] in bad:
                bad.add(k)
                continue
            o, ov = operand(y)
            if not ok(op, val[x], ov, x):
                bad.add(k)
                continue
            exp = arith(op, val[x], ov)
            d = apply(op, pool[x], o)
            fresh = not (rnd and k in pool and c["keep"]) or op == "same"
            if not fresh:
                d = pool[k]  # derived once, used for every batch
            pool[k], val[k] = d, exp
            what = "%s of sizes %s and %s" % (op, val[x].tolist(), ov.tolist())
            neg = []
            leaf = {id(l.get_same_base()): val[i] for i, l in enumerate(leaves)}
            t = tree_value(d, leaf, neg)
            if not neg and not (numpy.broadcast_to(t, numpy.broadcast_shapes(t.shape, exp.shape)) == exp).all():
                raise Violation("%s (%s): derived as %s, which is %s, expected %s" % (what, d.description, d.derived_from_op, t.tolist(), exp.tolist()))
            if neg:
                bad.add(k)
                continue
            check_sizes(d, exp, what, numpy, batch, nb, rf)
            d2 = apply(op, pool[x], o) if fresh else d
            if d2 != d and d.dimension is None:
                raise Violation("%s: building it again gives another dim: %s, %s" % (what, d, d2))
        # equal dims have equal sizes
        ks = [k for k in pool if k not in bad]
        for a in ks:
            for b in ks:
                if a < b and pool[a] == pool[b]:
                    if hash(pool[a]) != hash(pool[b]):
                        raise Violation("%s and %s are equal but have different hashes" % (pool[a], pool[b]))
                    if not numpy.array_equal(*numpy.broadcast_arrays(val[a], val[b])):
                        raise Violation("%s and %s are equal but have sizes %s and %s" % (pool[a], pool[b], val[a].tolist(), val[b].tolist()))
        # after further dims were derived, the sizes are still the same
        for k in ks:
            check_sizes(pool[k], val[k], "dim %s" % pool[k].description, numpy, batch, nb, rf)
        bad = set()


def check_sizes(d, exp, what, numpy, batch, nb, rf):
    if d.dimension is not None:
        if exp.ndim and not (exp == exp.flat[0]).all() or int(exp.max()) != d.dimension:
            raise Violation("%s (%s): size %s, expected %s" % (what, d.description, d.dimension, exp.tolist()))
        return
    d.complete_dyn_size()
    if d.dyn_size_ext is None or d.dyn_size_ext.raw_tensor is None:
        raise Violation("%s (%s): size not known" % (what, d.description))
    s = d.dyn_size_ext
    got = s.raw_tensor.numpy()
    e = numpy.broadcast_to(exp, got.shape) if exp.ndim <= got.ndim else exp
    if got.shape != e.shape:
        if (exp == exp.flat[0]).all() and got.size == 1 and int(got) == exp.flat[0]:
            return
        raise Violation("%s (%s): sizes %s, expected %s" % (what, d.description, got.tolist(), exp.tolist()))
    if not (got == e).all():
        raise Violation("%s (%s): sizes %s, expected %s" % (what, d.description, got.tolist(), exp.tolist()))
    if str(s.dtype) != "int32":
        raise Violation("%s: sizes of type %s" % (what, s.dtype))
    mx = int(d.get_dim_value())
    if mx < int(got.max()):
        raise Violation("%s (%s): the size of the axis is %d, but a sequence has %d" % (what, d.description, mx, int(got.max())))
    if s.dims and mx < 400 and int(got.max()) > 0:
        m = d.get_mask(dim_order=[batch, d]).raw_tensor.numpy()
        if m.shape != (nb, mx):
            raise Violation("%s (%s): the mask has shape %s, expected %s" % (what, d.description, m.shape, (nb, mx)))
        if not (m == (numpy.arange(mx)[None, :] < got[:, None])).all():
            raise Violation("%s (%s): mask %s for sizes %s" % (what, d.description, m.tolist(), got.tolist()))
