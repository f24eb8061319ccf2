"""
Mechanical extraction of /repo's source, done anew on every run.

An import hook loads the ``returnn.*`` modules from /repo through an AST rewriting which keeps the
program text's meaning on ordinary values (the helpers fall through to the native operation) and only
routes to the engine the operations CPython would not dispatch to symbolic operands:

* ``for``/``while`` loops in functions  -> loop protocol of loops.py (cut only if a loop contract applies)
* comprehensions with one ``for``       -> H.comp (native unless the iterable is symbolic)
* list displays, subscripts, ``in``, ``"..." % x`` -> H helpers
* calls of builtins by name (len, range, int, ...) -> H.b_<name>
* attribute assignment                  -> H.setattr_ (frame log)
* modules in PROXIES (numpy, os, ...)   -> stand-ins that fall through for non-symbolic arguments

Dropped: type annotations of local variables (not evaluated), nothing else.
"""
from __future__ import annotations
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")

SHADOW = {
    "len", "range", "int", "float", "bool", "min", "max", "sum", "sorted", "abs", "list", "tuple", "set", "frozenset",
    "dict", "enumerate", "zip", "reversed", "any", "all", "map", "filter", "iter", "next", "isinstance", "round",
    "divmod", "str", "repr", "type", "print", "id", "callable", "open", "slice", "hash", "pow",
}


def _assigned_names(nodes):
    """names (re)bound in these statements, not descending into nested scopes except nonlocal"""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    class V(ast.NodeVisitor):
        def visit_Name(self, node):
            if isinstance(node.ctx, (ast.Store, ast.Del)):
                add(node.id)

        def visit_FunctionDef(self, node):
            add(node.name)
            for sub in ast.walk(node):
                if isinstance(sub, ast.Nonlocal):
                    for n in sub.names:
                        add(n)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, node):
            add(node.name)

        def visit_Lambda(self, node):
            pass

        def visit_ListComp(self, node):
            for sub in ast.walk(node):
                if isinstance(sub, ast.NamedExpr):
                    add(sub.target.id)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, node):
            if node.name:
                add(node.name)
            self.generic_visit(node)

        def visit_Import(self, node):
            for a in node.names:
                add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

    v = V()
    for n in nodes:
        v.visit(n)
    return out


def _has_call(nodes):
    return any(isinstance(sub, (ast.Call, ast.Await, ast.Yield)) for n in nodes for sub in ast.walk(n))


class _Scope:
    def __init__(self, node, outer=()):
        self.node = node
        self.outer = list(outer)
        self.own_nonlocal = set()
        todo = list(node.body) if isinstance(getattr(node, "body", None), list) else []
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Nonlocal):
                self.own_nonlocal.update(n.names)
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))
        self.add_nonlocal = set()
        self.loop_ord = 0
        self.global_names = set()
        for sub in ast.walk(node):
            if isinstance(sub, (ast.Global,)):
                self.global_names.update(sub.names)
        self.local_shadow = set()
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.local_shadow.add(x.arg)
            if a.vararg:
                self.local_shadow.add(a.vararg.arg)
            if a.kwarg:
                self.local_shadow.add(a.kwarg.arg)
            if isinstance(node.body, list):
                self.local_shadow.update(_assigned_names(node.body))


    def shared(self):
        """variables this function can see which some nested function assigns (nonlocal): a call may change them"""
        out = []
        chain = self.outer + [self]
        for k, sc in enumerate(chain):
            for sub in ast.walk(sc.node):
                if sub is sc.node or not isinstance(sub, ast.Nonlocal):
                    continue
                for n in sub.names:
                    if n in out or n not in sc.local_shadow or n in sc.own_nonlocal:
                        continue  # not owned by sc
                    if any(n in x.local_shadow and n not in x.own_nonlocal for x in chain[k + 1 :]):
                        continue  # hidden by another local
                    if sc is not self and any(not isinstance(x.node, (ast.FunctionDef, ast.AsyncFunctionDef)) for x in chain[k + 1 :]):
                        continue
                    out.append(n)
                    if sc is not self and n not in self.own_nonlocal:
                        self.add_nonlocal.add(n)
        return out


def _H(name, lineno=None):
    return ast.Attribute(value=ast.Name(id="_pv_H_", ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_H(name), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, module_globals):
        self.modg = module_globals
        self.scopes = []
        self.names = []
        self.tmp = 0
        self.comp_depth = 0

    # -- scopes
    def _func(self, node):
        node.decorator_list = [self.visit_outer(d) for d in node.decorator_list]
        node.args = self._visit_args(node.args)
        sc = _Scope(node, self.scopes)
        self.scopes.append(sc)
        self.names.append(node.name)
        node.body = self._block(node.body)
        if sc.add_nonlocal:  # so that a loop contract can set them; no effect otherwise
            d = ast.Nonlocal(names=sorted(sc.add_nonlocal))
            node.body = [ast.fix_missing_locations(ast.copy_location(d, node.body[0]))] + node.body
        self.names.pop()
        self.scopes.pop()
        return node

    def visit_outer(self, n):
        return n

    def _visit_args(self, a):
        if self.scopes:
            a.defaults = [self.visit(d) for d in a.defaults]
            a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        saved, self.scopes = self.scopes, []
        self.names.append(node.name)
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body]
        self.names.pop()
        self.scopes = saved
        return node

    def visit_Lambda(self, node):
        if not self.scopes:
            return node
        self.scopes.append(_Scope(node, self.scopes))
        node.body = self.visit(node.body)
        self.scopes.pop()
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def generic_visit(self, node):
        if not self.scopes and not isinstance(node, (ast.Module, ast.If, ast.Try, ast.With)):
            if isinstance(node, (ast.stmt, ast.expr)):
                return node
        return super().generic_visit(node)

    def visit_AnnAssign(self, node):
        if not self.scopes:
            return node
        if node.value is None:
            return node
        n = ast.Assign(targets=[node.target], value=node.value)
        ast.copy_location(n, node)
        return self.visit(n)

    # -- statements
    def visit_For(self, node):
        if not self.scopes:
            return node
        sc = self.scopes[-1]
        sc.loop_ord += 1
        ordn = sc.loop_ord
        it = self.visit(node.iter)
        assigned = [n for n in _assigned_names(node.body) if n not in sc.global_names]
        if _has_call(node.body):
            assigned += [n for n in sc.shared() if n not in assigned]
        tnames = _assigned_names([node.target])
        target = self.visit(node.target)
        body = self._block(node.body)
        orelse = self._block(node.orelse)
        return self._loop(node, "for", ordn, it, target, assigned, tnames, body, orelse)

    def visit_While(self, node):
        if not self.scopes:
            return node
        sc = self.scopes[-1]
        sc.loop_ord += 1
        ordn = sc.loop_ord
        if node.orelse:
            node.test = self.visit(node.test)
            node.body = self._block(node.body)
            node.orelse = self._block(node.orelse)
            return node
        assigned = [n for n in _assigned_names(node.body + [ast.Expr(node.test)]) if n not in sc.global_names]
        if _has_call(node.body + [node.test]):
            assigned += [n for n in sc.shared() if n not in assigned]
        test = self.visit(node.test)
        body = self._block(node.body)
        return self._loop(node, "while", ordn, test, None, assigned, [], body, [])

    def _loop(self, node, kind, ordn, it, target, assigned, tnames, body, orelse):
        self.tmp += 1
        lv = "_pv_l%d_" % self.tmp
        qual = ".".join(self.names)
        loc = dict(lineno=node.lineno, col_offset=node.col_offset)
        names = list(assigned)
        for n in tnames:
            if n not in names:
                names.append(n)
        names = [n for n in names if not n.startswith("_pv_")]
        begin = ast.Assign(
            targets=[ast.Name(id=lv, ctx=ast.Store())],
            value=ast.Call(
                func=_H("loop_begin"),
                args=[
                    ast.Constant(kind),
                    ast.Constant(qual),
                    ast.Constant(ordn),
                    ast.Constant(node.lineno),
                    it if kind == "for" else ast.Constant(None),
                    ast.Constant(tuple(names)),
                    ast.Constant(tuple(tnames)),
                ],
                keywords=[],
            ),
        )
        out = [begin]
        if names:
            hv = ast.If(
                test=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="cut", ctx=ast.Load()),
                body=[
                    ast.Assign(
                        targets=[
                            ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names], ctx=ast.Store())
                        ],
                        value=ast.Call(
                            func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="havoc", ctx=ast.Load()),
                            args=[],
                            keywords=[],
                        ),
                    )
                ],
                orelse=[],
            )
        else:
            hv = ast.If(
                test=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="cut", ctx=ast.Load()),
                body=[
                    ast.Expr(
                        ast.Call(
                            func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="havoc", ctx=ast.Load()),
                            args=[],
                            keywords=[],
                        )
                    )
                ],
                orelse=[],
            )
        out.append(hv)
        itercall = ast.Call(
            func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="iter", ctx=ast.Load()), args=[], keywords=[]
        )
        if kind == "for":
            f = ast.For(target=target, iter=itercall, body=body, orelse=orelse)
        else:
            guard = ast.If(
                test=ast.UnaryOp(op=ast.Not(), operand=it),
                body=[
                    ast.Expr(
                        ast.Call(
                            func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="exit", ctx=ast.Load()),
                            args=[],
                            keywords=[],
                        )
                    ),
                    ast.Break(),
                ],
                orelse=[],
            )
            f = ast.For(
                target=ast.Name(id="_pv_unused_", ctx=ast.Store()), iter=itercall, body=[guard] + body, orelse=[]
            )
        out.append(f)
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_Assign(self, node):
        if not self.scopes:
            return node
        node.value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript):
                n = ast.Expr(_call("setitem", self.visit(t.value), self._slice(t.slice), node.value))
                return ast.fix_missing_locations(ast.copy_location(n, node))
            if isinstance(t, ast.Attribute) and not t.attr.startswith("__"):
                n = ast.Expr(_call("setattr_", self.visit(t.value), ast.Constant(t.attr), node.value))
                return ast.fix_missing_locations(ast.copy_location(n, node))
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        if not self.scopes:
            return node
        val = self.visit(node.value)
        t = node.target
        op = ast.Constant(type(node.op).__name__)
        if isinstance(t, ast.Subscript):
            n = ast.Expr(_call("augitem", self.visit(t.value), self._slice(t.slice), op, val))
            return ast.fix_missing_locations(ast.copy_location(n, node))
        if isinstance(t, ast.Attribute) and not t.attr.startswith("__"):
            n = ast.Expr(_call("augattr", self.visit(t.value), ast.Constant(t.attr), op, val))
            return ast.fix_missing_locations(ast.copy_location(n, node))
        node.value = val
        return node

    def visit_Delete(self, node):
        if not self.scopes:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call("delitem", self.visit(t.value), self._slice(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return [ast.fix_missing_locations(ast.copy_location(o, node)) for o in out]

    def visit_Import(self, node):
        if not self.scopes:
            return node
        out = [node]
        for a in node.names:
            nm = a.asname or a.name.split(".")[0]
            if nm == "*":
                continue
            out.append(
                ast.Assign(
                    targets=[ast.Name(id=nm, ctx=ast.Store())],
                    value=_call("proxied", ast.Name(id=nm, ctx=ast.Load())),
                )
            )
        return [ast.fix_missing_locations(ast.copy_location(o, node)) for o in out]

    visit_ImportFrom = visit_Import

    # -- expressions
    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return _call(
                "mkslice",
                self.visit(s.lower) if s.lower else ast.Constant(None),
                self.visit(s.upper) if s.upper else ast.Constant(None),
                self.visit(s.step) if s.step else ast.Constant(None),
            )
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)

    def visit_Subscript(self, node):
        if not self.scopes:
            return node
        if isinstance(node.ctx, ast.Load):
            n = _call("getitem", self.visit(node.value), self._slice(node.slice))
            return ast.fix_missing_locations(ast.copy_location(n, node))
        return super().generic_visit(node)

    def visit_List(self, node):
        if not self.scopes:
            return node
        super().generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            n = _call("mklist", node)
            return ast.fix_missing_locations(ast.copy_location(n, node))
        return node

    def visit_Dict(self, node):
        if not self.scopes:
            return node
        super().generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        n = _call(
            "mkdict",
            *[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)],
        )
        return ast.fix_missing_locations(ast.copy_location(n, node))

    def visit_Set(self, node):
        if not self.scopes:
            return node
        super().generic_visit(node)
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        n = _call("mkset", *node.elts)
        return ast.fix_missing_locations(ast.copy_location(n, node))

    def visit_Compare(self, node):
        if not self.scopes:
            return node
        super().generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = _call("contains", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                n = ast.UnaryOp(op=ast.Not(), operand=n)
            return ast.fix_missing_locations(ast.copy_location(n, node))
        return node

    def visit_BinOp(self, node):
        if not self.scopes:
            return node
        super().generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            n = _call("fmt", node.left, node.right)
            return ast.fix_missing_locations(ast.copy_location(n, node))
        return node

    def visit_JoinedStr(self, node):
        if not self.scopes:
            return node
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            elif isinstance(v, ast.FormattedValue) and (
                v.format_spec is None or all(isinstance(x, ast.Constant) for x in v.format_spec.values)
            ):
                spec = "".join(x.value for x in v.format_spec.values) if v.format_spec else ""
                args.append(
                    ast.Tuple(
                        elts=[self.visit(v.value), ast.Constant(v.conversion), ast.Constant(spec)], ctx=ast.Load()
                    )
                )
            else:
                return super().generic_visit(node)
        n = _call("fstr", *args)
        return ast.fix_missing_locations(ast.copy_location(n, node))

    def visit_Call(self, node):
        if not self.scopes:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in SHADOW:
            nm = node.func.id
            if nm not in self.modg and not any(nm in sc.local_shadow for sc in self.scopes):
                super().generic_visit(node)
                node.func = ast.copy_location(_H("b_" + nm), node.func)
                return ast.fix_missing_locations(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars"):
            return node
        super().generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return ast.fix_missing_locations(ast.copy_location(ast.Call(func=_H("strjoin"), args=[f.value, node.args[0]], keywords=[]), node))
        return node

    def _comp(self, node, kind):
        if not self.scopes:
            return node
        gen = node.generators[0]
        # names used by walrus etc. keep native
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)) or gen.is_async:
            return node
        it = self.visit(gen.iter)
        tn = _assigned_names([gen.target])
        self.scopes.append(_Scope(node))
        self.scopes[-1].local_shadow = set(tn)
        for g in node.generators[1:]:
            self.scopes[-1].local_shadow.update(_assigned_names([g.target]))
        if len(node.generators) == 1:
            conds = [self.visit(c) for c in gen.ifs]
            if kind == "dict":
                elt = ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())
            else:
                elt = self.visit(node.elt)
            simple = isinstance(gen.target, ast.Name)
        else:
            # nested: native over the (possibly symbolic) outer iterable is not supported; inner exprs rewritten
            inner = []
            for g in node.generators[1:]:
                g.iter = self.visit(g.iter)
                g.ifs = [self.visit(c) for c in g.ifs]
                inner.append(g)
            conds = [self.visit(c) for c in gen.ifs]
            if kind == "dict":
                node.key, node.value = self.visit(node.key), self.visit(node.value)
            else:
                node.elt = self.visit(node.elt)
            simple = None
        self.scopes.pop()

        def lam(body):
            # lambda __x: (target := ...) -- use nested lambda with tuple unpack for non-simple targets
            if isinstance(gen.target, ast.Name):
                return ast.Lambda(
                    args=ast.arguments(
                        posonlyargs=[], args=[ast.arg(arg=gen.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]
                    ),
                    body=body,
                )
            # [body for target in [_pv_x_]][0]
            import copy

            return ast.Lambda(
                args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg="_pv_x_")], kwonlyargs=[], kw_defaults=[], defaults=[]
                ),
                body=ast.Subscript(
                    value=ast.ListComp(
                        elt=body,
                        generators=[
                            ast.comprehension(
                                target=copy.deepcopy(gen.target),
                                iter=ast.List(elts=[ast.Name(id="_pv_x_", ctx=ast.Load())], ctx=ast.Load()),
                                ifs=[],
                                is_async=0,
                            )
                        ],
                    ),
                    slice=ast.Constant(0),
                    ctx=ast.Load(),
                ),
            )

        if simple is None:
            gen.iter = _call("iterable", it)
            gen.ifs = conds
            n = node
            if kind in ("list",):
                n = _call("mklist", node)
            return ast.fix_missing_locations(ast.copy_location(n, node))
        lelt = lam(elt)
        lcond = ast.Constant(None)
        if conds:
            c = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
            lcond = lam(c)
        n = _call("comp", ast.Constant(kind), it, lelt, lcond, ast.Constant(".".join(self.names)), ast.Constant(node.lineno))
        return ast.fix_missing_locations(ast.copy_location(n, node))

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


def transform_source(src, filename):
    tree = ast.parse(src, filename)
    modg = set(_assigned_names(tree.body))
    for sub in ast.walk(tree):
        if isinstance(sub, ast.ImportFrom):
            for a in sub.names:
                modg.add(a.asname or a.name)
    rw = Rewriter(modg)
    body = []
    for s in tree.body:
        r = rw.visit(s)
        if isinstance(r, list):
            body.extend(r)
        elif r is not None:
            body.append(r)
    tree.body = body
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import helpers

        with open(self.path, encoding="utf8") as f:
            src = f.read()
        tree = transform_source(src, self.path)
        code = compile(tree, self.path, "exec")
        module.__dict__["_pv_H_"] = helpers.H
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)
        for k, v in list(module.__dict__.items()):
            p = helpers.H.proxied(v)
            if p is not v:
                module.__dict__[k] = p


LOADED = {}
SKIP_PREFIX = ("returnn.util.better_exchook", "returnn.extern", "returnn.tensor._generated", "returnn.util.debug")


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes

    def find_spec(self, name, path, target=None):
        if not any(name == p or name.startswith(p + ".") for p in self.prefixes):
            return None
        if name.startswith(SKIP_PREFIX):
            return None
        parts = name.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p))
        return None


def install(prefixes=("returnn",)):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder(list(prefixes)))
