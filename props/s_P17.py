"""
P17: arithmetic of dimensions.
 - expressions: the real operators build a dim from others; the expression it says it is derived from has, for all sizes
   of the leaves, the value of plain integer arithmetic (sizes unbounded, structure enumerated)
 - sizes: Dim.complete_dyn_size on one operation: at every batch entry the sizes are that operation on the sizes of the
   operands, and the axis is not smaller than any sequence (sizes and number of entries unbounded)
"""
from props.lib import *
from props.lib import _t, _simp
import returnn.frontend as rf
import returnn.tensor.dim as DM
import returnn.tensor._dim_extra as DX
from returnn.tensor import Dim, Tensor
from props import p_P17 as PP

F = "returnn/tensor/_dim_extra.py:"
OPS = PP.OPS


# ---------------------------------------------------------------- canonical integer polynomials over atoms


class Poly:
    """sum of coefficient * product of atoms; atoms are leaves and floor/ceil quotients. Laws used: commutative ring,
    (d*x)/d = x, floor(floor(x/p)/q) = floor(x/(p*q)), the same for ceil (p, q > 0)"""

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v}

    @classmethod
    def const(cls, c):
        return cls({(): c})

    @classmethod
    def atom(cls, a):
        return cls({(a,): 1})

    def key(self):
        return tuple(sorted(self.m.items(), key=repr))

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __mul__(self, o):
        m = {}
        for k, v in self.m.items():
            for k2, v2 in o.m.items():
                kk = tuple(sorted(k + k2, key=repr))
                m[kk] = m.get(kk, 0) + v * v2
        return Poly(m)

    def neg(self):
        return Poly({k: -v for k, v in self.m.items()})

    def as_const(self):
        if not self.m:
            return 0
        if set(self.m) == {()}:
            return self.m[()]
        return None


def div_mono(k, d):
    k = list(k)
    for a in d:
        if a not in k:
            return None
        k.remove(a)
    return tuple(k)


def quot(kind, x, d):
    """x / d, d > 0"""
    c = d.as_const()
    if c == 1:
        return x
    if len(d.m) == 1:
        ((dk, dc),) = d.m.items()
        r = {}
        for k, v in x.m.items():
            kk = div_mono(k, dk)
            if kk is None or v % dc:
                break
            r[kk] = v // dc
        else:
            return Poly(r)
        # nested quotient: combine the divisors
        if len(x.m) == 1:
            ((xk, xc),) = x.m.items()
            if xc == 1 and len(xk) == 1 and xk[0][0] == kind:
                return quot(kind, poly_of(xk[0][1]), poly_of(xk[0][2]) * d)
        if x.as_const() is not None and c is not None:
            return Poly.const(PP.arith("floordiv" if kind == "fd" else "ceildiv", x.as_const(), c))
    elif x.key() == d.key():
        return Poly.const(1)
    return Poly.atom((kind, x.key(), d.key()))


def poly_of(key):
    return Poly(dict(key))


class Val:
    """z3 terms of polynomials"""

    def __init__(self, leaves):
        self.leaves = leaves
        self.memo = {}

    def term(self, p):
        r = z3.IntVal(0)
        for k, v in sorted(p.m.items(), key=repr):
            t = z3.IntVal(v)
            for a in k:
                t = t * self.atom(a)
            r = r + t
        return r

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        if a[0] == "leaf":
            r = self.leaves[a[1]].t
        else:
            x, d = poly_of(a[1]), poly_of(a[2])
            xt, dt = self.term(x), self.term(d)
            q = S.int("q").t
            # definition of the quotient
            if a[0] == "fd":
                S.assume(SymBool(z3.And(q * dt <= xt, xt < q * dt + dt)))
            else:
                S.assume(SymBool(z3.And(q * dt >= xt, xt > q * dt - dt)))
            r = q
        self.memo[a] = r
        return r


def apply_poly(op, x, y):
    if op in ("add", "radd"):
        return x + y
    if op in ("sub", "sub_left"):
        return x + y.neg()
    if op in ("mul", "rmul"):
        return x * y
    if op in ("floordiv", "truediv", "div_left"):
        return quot("fd", x, y)
    return quot("cd", x, y)


def tree(d, leaf, sums):
    """the expression the dim says it is"""
    d = d.get_same_base()
    for i, l in enumerate(leaf):
        if d is l[0]:
            return l[1]
    op = d.derived_from_op
    if op is None:
        S.prove(False, "a dim derived from its operands")
    kind = op.kind
    if kind == "constant":
        return Poly.const(int(op.attribs["value"]))
    kind = kind.replace("_right", "").replace("_left", "")
    r = None
    for x in list(op.inputs):
        v = tree(x, leaf, sums)
        r = v if r is None else apply_poly(kind, r, v)
        if kind == "add" and r is not v:
            sums.append(r)
    return r


def u_expr(first, starts, second, third=None):
    """r = x op1 y; then r op2 z, or z op2 r"""

    def un():
        S.suspend_counts = False
        a, c = Dim(None, name="a"), Dim(None, name="c")
        s = Dim(6, name="s")
        va, vc = S.int("a", lo=1), S.int("c", lo=1)
        V = Val([va, vc])
        leaf = [(a, Poly.atom(("leaf", 0))), (c, Poly.atom(("leaf", 1))), (s, Poly.const(6))]
        S.reachable()
        # the shape of the expression
        seq = []
        st = starts[S.choose(len(starts), "start")]
        cur, curv = leaf[st]
        progs = [first, second] + ([third] if third else [])
        for n, choices in enumerate(progs):
            if n == 0:
                op, y, swap = choices
            else:
                op, y, swap = choices[S.choose(len(choices), "operation %d" % n)]
            o, ov = leaf[y] if y < 3 else (y - 1, Poly.const(y - 1))
            x, xv = cur, curv
            if swap == "again":  # the operands of the first operation, another operation
                x, xv = leaf[st]
                o, ov = leaf[first[1]] if first[1] < 3 else (first[1] - 1, Poly.const(first[1] - 1))
                if y:
                    if isinstance(o, int):
                        return
                    x, xv, o, ov = o, ov, x, xv
            elif swap:
                if isinstance(o, int):
                    return
                x, xv, o, ov = o, ov, x, xv
            seq.append("%s %s %s" % (op, y, swap))
            # precondition: no negative size, divisors positive, true division without remainder
            if op.startswith("sub"):
                dv = V.term(xv + ov.neg())
                if not S.decide(SymBool(dv >= 0)):
                    return
            div = op in ("floordiv", "truediv", "div_left", "ceildiv", "ceildiv_left")
            if div and not S.decide(SymBool(V.term(ov) > 0)):
                return
            if op in ("truediv", "div_left"):
                q = quot("fd", xv, ov)
                k = (q * ov + xv.neg()).as_const()
                if k != 0:
                    if k is not None or not S.decide(SymBool(V.term(q) * V.term(ov) == V.term(xv))):
                        return
            exp = apply_poly(op, xv, ov)
            try:
                cur = PP.apply(op, x, o)
            except ValueError as e:
                if "only allowed if the result is an integer" in str(e):
                    # an intermediate result which is not an integer, for static dims
                    S.prove(False, "%s of dims: no error" % op)
                raise
            curv = exp
            sums = []
            got = tree(cur, leaf, sums)
            for p in sums:
                k = p.as_const()
                if k is not None and k >= 0:
                    continue
                if not S.decide(SymBool(V.term(p) >= 0)):
                    return  # a partial sum is negative: clipped, not covered
            if (got + exp.neg()).as_const() == 0:
                S.prove(True, "%s: the value is that of integer arithmetic" % op)
            else:
                S.prove(SymBool(V.term(got) == V.term(exp)), "%s: the value is that of integer arithmetic" % op)
            if cur.dimension is not None:
                S.prove(SymBool(z3.IntVal(cur.dimension) == V.term(exp)), "%s: static size" % op)

    return un


# ---------------------------------------------------------------- sizes of one operation


class Size(Sym):
    """tensor of sizes: its value at one arbitrary batch entry (or a scalar)"""

    _raw_backend = None
    batch = None
    control_flow_ctx = None
    available_for_inference = True

    def is_valid_in_current_graph(self):
        return True


    def __init__(self, v, dims, raw=True):
        self.v, self.dims, self.dtype = v, dims, "int32"
        self.raw_tensor = self if raw else None
        self.placeholder = self.raw_tensor
        self.dim_tags = dims
        self.batch_ndim = len(dims)
        self._raw_backend = BACKEND

    def reset(self):
        self.raw_tensor = self.placeholder = self.batch = None

    def _pv_types(self):
        return (Tensor,)

    def copy(self, name=None):
        return Size(self.v, self.dims)

    def copy_template(self, *a, **k):
        return Size(self.v, self.dims, raw=False)

    def __neg__(self):
        return Size(-self.v, self.dims)

    def __add__(self, o):
        return combine_bc(self, "add", o)

    __radd__ = __add__

    def __sub__(self, o):
        return combine_bc(self, "sub", o)

    def __rsub__(self, o):
        return combine_bc(o, "sub", self)

    def __mul__(self, o):
        return combine_bc(self, "mul", o)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return combine_bc(self, "floordiv", o)


class Backend:
    is_tensorflow = False
    RawTensorType = Size

    @staticmethod
    def convert_to_tensor(value, *, dims, dtype, name=None, device=None):
        if isinstance(value, Size):
            return value
        return Size(SymNum(term(value)), tuple(dims))


BACKEND = Backend()


def _v(x):
    return x.v if isinstance(x, Size) else x


def _dims(x):
    return x.dims if isinstance(x, Size) else ()


def floor_div(x, y):
    """Python's floor division; y > 0 has to hold"""
    S.prove(y > 0, "division by a positive size")
    q = S.int("q")
    S.assume(And(q * y <= x, x < q * y + y))
    return q


def combine_bc(a, kind, b):
    x, y = _v(a), _v(b)
    if kind in ("add", "+"):
        r = x + y
    elif kind in ("sub", "-"):
        r = x - y
    elif kind in ("mul", "*"):
        r = x * y
    elif kind in ("floordiv", "//"):
        r = floor_div(x, y)
    else:
        raise Unsupported("combine %s" % kind)
    d = _dims(a) if len(_dims(a)) >= len(_dims(b)) else _dims(b)
    return Size(r, d)


def relu(a):
    x = _v(a)
    return Size(ite(x >= 0, x, 0), _dims(a))


def ite(c, x, y):
    return SymNum(z3.If(bterm(c), term(x), term(y)))


def reduce_max(x, *, axis, use_mask=False):
    """contract: not smaller than the value at any entry, and one of them"""
    if not isinstance(x, Size):
        raise Unsupported("max of %r" % (x,))
    m = S.int("max")
    S.assume(m >= x.v)
    return Size(m, ())


EXPECT = {
    "add": lambda x, y: x + y,
    "mul": lambda x, y: x * y,
    "floordiv": lambda x, y: floor_div(x, y),
    "truediv": lambda x, y: floor_div(x, y),
    "ceildiv": lambda x, y: -floor_div(-x, y),
}


def u_sizes(kind, shapes, neg=None, lazy=False):
    """shapes: per operand 'dyn', 'scalar' or an int"""

    def un():
        patched(body)()

    def body():
        b = Dim(None, name="batch", kind=Dim.Types.Batch)
        dims, vals = [], []
        for i, sh in enumerate(shapes):
            if isinstance(sh, int):
                dims.append(DX._make_constant_static_dim(sh))
                vals.append(sh)
                continue
            d = Dim(None, name="d%d" % i)
            v = S.int("size%d" % i, lo=1)
            if sh == "neg":  # -1 * e, sizes negative
                e = Dim(None, name="e%d" % i)
                e.dyn_size_ext = Size(v, (b,))
                m = S.int("emax%d" % i)
                S.assume(m >= v)
                e._dyn_size_max_value = Size(m, ())
                d = DX._math_get_dim_via_bin_op(DX._make_constant_static_dim(-1), e, "mul")
                dims.append(d)
                vals.append(-v)
                continue
            ext = (b,) if sh == "dyn" else ()
            d.dyn_size_ext = Size(v, ext)
            if sh == "dyn":
                m = S.int("axis%d" % i)
                S.assume(m >= v)  # the axis is not smaller than any sequence
                d._dyn_size_max_value = Size(m, ())
            else:
                d._dyn_size_max_value = Size(v, ())
            dims.append(d)
            vals.append(v)
        S.reachable()
        exp = vals[0]
        k = kind.replace("_right", "").replace("_left", "")
        for v in vals[1:]:
            exp = EXPECT[k](exp, v)
        if k == "add" and not S.decide(exp >= 0):
            return
        res = Dim(None, name="res", derived_from_op=DX.Op(kind=kind, inputs=dims))
        res.complete_dyn_size()
        S.prove(isinstance(res.dyn_size_ext, Size), "the sizes are computed")
        S.prove(res.dyn_size_ext.raw_tensor is not None, "the sizes are computed")
        S.prove(eq(res.dyn_size_ext.v, exp), "sizes of every entry: the operation on the sizes of the operands")
        dyn = any(isinstance(sh, str) and sh != "scalar" for sh in shapes)
        S.prove(res.dyn_size_ext.dims == ((b,) if dyn else ()), "one size per entry of the batch")
        mx = res.get_dim_value_tensor()
        S.prove(_v(mx) >= exp, "the axis is not smaller than the sequence of any entry")
        # asked again, nothing changes
        res.complete_dyn_size()
        S.prove(eq(res.dyn_size_ext.v, exp), "sizes of every entry: the operation on the sizes of the operands")

    return un


def patched(body):
    def un():
        old = {n: getattr(rf, n) for n in ("combine_bc", "relu", "reduce_max")}
        for n, f in (("combine_bc", combine_bc), ("relu", relu), ("reduce_max", reduce_max)):
            setattr(rf, n, f)
        try:
            body()
        finally:
            for n, f in old.items():
                setattr(rf, n, f)

    return un


def u_reset(op, pair):
    """x op y in one batch; then the sizes of the dynamic dims are reset and set for another batch, and x op y again"""

    def body():
        b = Dim(None, name="batch", kind=Dim.Types.Batch)
        named = {"a": Dim(None, name="a"), "c": Dim(None, name="c"), "s": Dim(6, name="s")}
        S.reachable()
        for rnd in range(3):
            val = {"s": 6}
            for n in ("a", "c"):
                d = named[n]
                if rnd:
                    d.reset_raw()
                    S.prove(d.dyn_size_ext is None or d.dyn_size_ext.raw_tensor is None, "no sizes after they were reset")
                v, m = S.int("size_%s_%d" % (n, rnd), lo=1), S.int("max")
                S.assume(m >= v)
                d.dyn_size_ext = Size(v, (b,))
                S.prove(d._dyn_size_max_value is None, "no size of the axis after it was reset")
                d._dyn_size_max_value = Size(m, ())
                val[n] = v
            x, xv = named[pair[0]], val[pair[0]]
            y, yv = (named[pair[1]], val[pair[1]]) if isinstance(pair[1], str) else (pair[1], pair[1])
            exp = xv - yv if op.startswith("sub") else EXPECT[{"radd": "add", "rmul": "mul", "div_left": "truediv", "ceildiv_left": "ceildiv"}.get(op, op)](xv, yv)
            if op.startswith("sub") and not S.decide(exp >= 0):
                return
            if op in ("truediv", "div_left") and not S.decide(eq(exp * yv, xv)):
                return
            for again in range(2):
                r = PP.apply(op, x, y)
                if r.dimension is not None:
                    S.prove(eq(r.dimension, exp), "static size")
                    continue
                r.complete_dyn_size()
                S.prove(isinstance(r.dyn_size_ext, Size), "the sizes are computed")
                S.prove(eq(r.dyn_size_ext.v, exp), "sizes of every entry in this batch: the operation on the sizes of the operands in this batch")
                S.prove(_v(r.get_dim_value_tensor()) >= exp, "the axis is not smaller than the sequence of any entry, in this batch")

    return patched(body)


def units(tier):
    fs = [F + n for n in ("_DimMixin.reset_raw", "_DimMixin._cache_dim_math_key", "_CacheDimMath", "_DimMixin.complete_dyn_size", "_DimMixin.get_dim_value_tensor")]
    for op in OPS:
        for pair in [("a", "c"), ("a", "s"), ("s", "a"), ("a", 2), ("a", "a")]:
            yield "batches %s %s" % (op, pair), u_reset(op, pair), dict(functions=fs)
    fs = [F + "_DimMixin.complete_dyn_size", F + "_DimMixin.get_dim_value_tensor", F + "_dim_may_be_negative"]
    sh = {
        "add": [("dyn", "dyn"), ("dyn", 3), (2, "dyn"), ("dyn", "neg"), ("neg", "dyn"), ("dyn", -2), ("dyn", "scalar"), ("scalar", "dyn"), ("scalar", 1)],
        "mul": [("dyn", "dyn"), ("dyn", 3), (2, "dyn"), (-1, "dyn"), ("neg", "dyn"), ("dyn", "neg"), ("scalar", "dyn"), ("scalar", 4)],
        "floordiv_right": [("dyn", 2), ("dyn", "dyn"), (7, "dyn"), ("dyn", "scalar"), ("scalar", 3)],
        "floordiv_left": [("dyn", 2)],
        "truediv_right": [("dyn", 2), ("dyn", "dyn")],
        "truediv_left": [("dyn", 2)],
        "ceildiv_right": [("dyn", 3), ("dyn", "dyn"), (7, "dyn"), ("scalar", "dyn")],
        "ceildiv_left": [("dyn", 2)],
    }
    for kind, l in sh.items():
        for s in l:
            yield "sizes %s %s" % (kind, s), u_sizes(kind, s), dict(functions=fs)
    fs = [F + n for n in ("_OpLinearTerm.extend_add_sub_", "_OpLinearTerm.extend_mul_div_", "_OpLinearTerm.as_dim", "_OpMultTerm.extend_mul_div_", "_OpMultTerm._simplify_term_idx", "_OpMultTerm.divisible", "_OpMultTerm.negative", "_OpMultTerm.new_div_dim", "_OpMultTerm.as_dim", "_math_get_dim_via_bin_op", "_DimMixin._cache_dim_math_get")]
    # operand: 0 a, 1 c, 2 s (static 6), n+1: the int n (so 3: 2, 4: 3)
    second = [(op, y, False) for op in OPS for y in (0, 1, 2, 3, 4)] + [(op, y, True) for op in OPS for y in (0, 2) if op not in ("radd", "rmul")]
    second += [(op, y, "again") for op in OPS for y in (0, 1)]
    for op in OPS:
        for y in (1, 2, 3, 0):
            yield "expression a/s %s %s" % (op, ["a", "c", "s", "2"][y]), u_expr((op, y, False), [0, 2], second), dict(functions=fs)
    mid = [(op, y, swap) for op in ("add", "mul", "radd") for y, swap in ((0, False), (1, False), (1, True), (2, False), (3, False)) if not (swap and op == "radd")]
    last = [(op, y, False) for op in ("add", "sub", "mul", "floordiv", "ceildiv", "truediv") for y in (0, 1, 3, 4)]
    for op, y in (("floordiv", 3), ("ceildiv", 3), ("mul", 3), ("mul", 1), ("add", 1)):
        yield "expression a %s %s, 3 operations, selected" % (op, ["a", "c", "s", "2"][y]), u_expr((op, y, False), [0], mid, last), dict(functions=fs)
    if tier != "quick":
        th = [(op, y, False) for op in OPS for y in (0, 1, 2, 3)]
        for op in OPS:
            for y in (1, 3):
                yield "expression a %s %s, 3 operations" % (op, ["a", "c", "s", "2"][y]), u_expr((op, y, False), [0], th, th), dict(functions=fs)
