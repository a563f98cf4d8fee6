"""Load the library under test in an instrumented copy.

The source files of the package are read from the working tree, rewritten by
a fixed syntactic transformation (operators, calls, subscripts, f-strings,
comprehensions and loops become calls of the hooks in ``hooks.py``) and
executed as package ``epcpy_sym``.  The files themselves are not touched.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

SRC, DST = "epcpy", "epcpy_sym"
H = "vt__h"

OPN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
}
CMPN = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in",
    ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not",
}
RAW_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__", "setattr", "delattr"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update",
            "setdefault", "popitem", "appendleft", "popleft"}


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def hook(fn, *args):
    return ast.Call(func=ast.Attribute(value=name(H), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def lam(body, args=()):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=body,
    )


def contains(node, kinds, stop=(ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
    """Does the subtree hold one of the node kinds (not inside nested defs)?"""
    work = list(node) if isinstance(node, list) else [node]
    while work:
        n = work.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, stop):
            continue
        work.extend(ast.iter_child_nodes(n))
    return False


def uses_super(node):
    nodes = node if isinstance(node, list) else [node]
    return any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for x in nodes for n in ast.walk(x))


def stored(stmts):
    """Names bound by the statements (not inside nested functions)."""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    add(c.target.id)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in stmts:
        walk(s)
    return out


def mutated(stmts):
    """Plain names mutated through methods or subscript stores."""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                out.add(n.func.value.id if isinstance(n.func.value, ast.Name) else None)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.value.id if isinstance(n.value, ast.Name) else None)
    return out


def called_names(node, local=()):
    """Names through which functions may be called; local variables are not functions of the package."""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            out.add(n.attr)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in local:
            out.add(n.id)
    return out


def impure_names(trees):
    """Names of functions and methods that have side effects visible outside."""
    info = {}
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                bad = False
                params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
                if n.args.vararg:
                    params.add(n.args.vararg.arg)
                loc = set(stored(n.body))
                if n.name != "__init__":
                    for x in ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            bad = True
                        if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await)):
                            bad = True
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr", "print", "open", "next"):
                            bad = True
                    for m in mutated(n.body):
                        if m is None or m in params or m not in loc:
                            bad = True
                prev = info.setdefault(n.name, [False, set()])
                prev[0] |= bad
                prev[1] |= called_names(n, params | loc)
    changed = True
    while changed:
        changed = False
        bad = {k for k, v in info.items() if v[0]}
        for k, v in info.items():
            if not v[0] and v[1] & bad:
                v[0] = True
                changed = True
    return {k for k, v in info.items() if v[0]}


#: functions of the package, and those entered by symbolic executions
NAMES = set()


class Tr(ast.NodeTransformer):
    def __init__(self, impure, module=None):
        self.module = module
        self.cls = []
        self.impure = impure
        self.scope = ["module"]
        self.fn = []
        self.n = 0
        self.lenient = 0
        self.intry = 0
        self.stats = {"functions": 0, "loops": 0, "loops_native": 0}

    def fresh(self, p):
        self.n += 1
        return f"vt__{p}{self.n}"

    @property
    def infunc(self):
        return self.scope[-1] == "func"

    # ---- definitions
    def visit_FunctionDef(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d else d for d in node.args.kw_defaults]
        self.scope.append("func")
        save = self.intry
        self.intry = 0
        params = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        g = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g.update(x.names)
        self.fn.append((params, set(stored(node.body)) | params, g))
        q = ".".join(self.cls + [node.name])
        if self.module:
            NAMES.add(self.module + ":" + q)
        body = self.stmts(node.body)
        i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        body.insert(i, ast.Expr(value=hook("enter", const((self.module or "") + ":" + q))))
        node.body = body
        self.fn.pop()
        self.intry = save
        self.scope.pop()
        self.stats["functions"] += 1
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        self.scope.append("class")
        self.cls.append(node.name)
        node.body = self.stmts(node.body)
        self.cls.pop()
        self.scope.pop()
        return node

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Module(self, node):
        out = []
        for s in node.body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
            if isinstance(s, ast.FunctionDef) and s.name not in self.impure and not s.decorator_list:
                out.append(ast.Assign(
                    targets=[ast.Attribute(value=name(s.name), attr="__vt_pure__", ctx=ast.Store())], value=const(True)))
        node.body = out
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.scope.append("func")
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    # ---- imports
    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == SRC or a.name.startswith(SRC + "."):
                if a.asname:
                    out.append(ast.Import(names=[ast.alias(name=DST + a.name[len(SRC):], asname=a.asname)]))
                else:
                    out.append(ast.Import(names=[ast.alias(name=DST + a.name[len(SRC):], asname=None)]))
                    out.append(ast.Assign(targets=[name(SRC, ast.Store())], value=name(DST)))
            else:
                out.append(ast.Import(names=[a]))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module and (node.module == SRC or node.module.startswith(SRC + ".")):
            node.module = DST + node.module[len(SRC):]
        return node

    # ---- expressions
    def visit_BinOp(self, node):
        self.generic_visit(node)
        return hook("binop", const(OPN[type(node.op)]), node.left, node.right)

    def visit_UnaryOp(self, node):
        if isinstance(node.operand, ast.Constant):
            return node
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return hook("not_", node.operand)
        return hook("unop", const({ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(node.op)]), node.operand)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return hook("compare", const(CMPN[type(node.ops[0])]), node.left, node.comparators[0])
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in RAW_CALLS:
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        if isinstance(f, ast.Attribute) and not (f.attr.startswith("__") and not f.attr.endswith("__")):
            f = node.func
            if isinstance(f, ast.Attribute):
                return ast.Call(
                    func=ast.Attribute(value=name(H), attr="callm", ctx=ast.Load()),
                    args=[f.value, const(f.attr)] + node.args,
                    keywords=node.keywords,
                )
        return ast.Call(
            func=ast.Attribute(value=name(H), attr="call", ctx=ast.Load()),
            args=[node.func] + node.args,
            keywords=node.keywords,
        )

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return hook("getitem", node.value, node.slice)
        return node

    def visit_Slice(self, node):
        self.generic_visit(node)
        n = const(None)
        return ast.Call(func=ast.Attribute(value=name(H), attr="slice_", ctx=ast.Load()),
                        args=[node.lower or n, node.upper or n, node.step or n], keywords=[])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = chr(v.conversion) if v.conversion != -1 else ""
                spec = self.visit(v.format_spec) if v.format_spec is not None else const("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(conv), spec], ctx=ast.Load()))
        return hook("fstring_lenient" if self.lenient else "fstring", *parts)

    def visit_Raise(self, node):
        self.lenient += 1
        self.generic_visit(node)
        self.lenient -= 1
        return node

    def visit_IfExp(self, node):
        blocked = not self.infunc or contains(node, (ast.NamedExpr, ast.Yield, ast.Await)) or uses_super(node)
        self.generic_visit(node)
        if blocked:
            return node
        return hook("ifexp", node.test, lam(node.body), lam(node.orelse))

    def _comp(self, node, kind):
        ok = (
            len(node.generators) == 1
            and not node.generators[0].is_async
            and not contains(node, (ast.NamedExpr, ast.Yield, ast.Await))
            and not uses_super(node)
            and self.scope[-1] != "class"
        )
        g = node.generators[0]
        tgt = g.target
        if ok and isinstance(tgt, ast.Name):
            wrap = lambda e: lam(e, [tgt.id])
        elif ok and isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            def wrap(e):
                inner = lam(e, [x.id for x in tgt.elts])
                return lam(
                    ast.Call(func=inner, args=[ast.Starred(value=hook("unpack", name("vt__t"), const(len(tgt.elts)), const(False), const(0)), ctx=ast.Load())], keywords=[]),
                    ["vt__t"],
                )
        else:
            self.generic_visit(node)
            return node
        it = self.visit(g.iter)
        self.scope.append("func")
        conds = [self.visit(c) for c in g.ifs]
        if kind == "dict":
            elts = [self.visit(node.key), self.visit(node.value)]
        else:
            elts = [self.visit(node.elt)]
        self.scope.pop()
        cond = const(None)
        if conds:
            cond = wrap(conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds))
        args = [const(kind), wrap(elts[0]), it, cond]
        if kind == "dict":
            args.append(wrap(elts[1]))
        return hook("comp", *args)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    # ---- statements
    def visit_Assign(self, node):
        v = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, (ast.Tuple, ast.List)):
                return self.unpack(t, v, node)
            if isinstance(t, ast.Subscript):
                o, i = self.visit(t.value), self.visit(t.slice)
                return ast.Expr(value=hook("setitem", o, i, v))
        node.value = v
        return node

    def unpack(self, t, v, node):
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if stars:
            b, a = stars[0], len(t.elts) - stars[0] - 1
        else:
            b, a = len(t.elts), 0
        tgt = ast.Tuple(elts=[self.visit(e.value if isinstance(e, ast.Starred) else e) for e in t.elts], ctx=ast.Store())
        return ast.Assign(targets=[tgt], value=hook("unpack", v, const(b), const(bool(stars)), const(a)))

    def visit_AugAssign(self, node):
        t = node.target
        op = const(OPN[type(node.op)])
        if isinstance(t, ast.Name):
            return ast.Assign(targets=[t], value=hook("augop", op, name(t.id), self.visit(node.value)))
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            cur = ast.Attribute(value=name(t.value.id), attr=t.attr, ctx=ast.Load())
            return ast.Assign(targets=[t], value=hook("augop", op, cur, self.visit(node.value)))
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, (ast.Name, ast.Constant)):
            cur = hook("getitem", name(t.value.id), t.slice)
            return ast.Expr(value=hook("setitem", name(t.value.id), t.slice, hook("augop", op, cur, self.visit(node.value))))
        self.generic_visit(node)
        return node

    def visit_Try(self, node):
        self.intry += 1
        node.body = self.stmts(node.body)
        self.intry -= 1
        for hd in node.handlers:
            hd.body = self.stmts(hd.body)
        node.orelse = self.stmts(node.orelse)
        node.finalbody = self.stmts(node.finalbody)
        return node

    def _loop_ok(self, node):
        if not self.infunc or self.intry or not self.fn:
            return False
        body = node.body + node.orelse
        if contains(body, (ast.Yield, ast.YieldFrom, ast.Await, ast.Delete, ast.Global, ast.Nonlocal)):
            return False
        if uses_super(body):
            return False
        st = set(stored(node.body))
        if isinstance(node, ast.For):
            st |= set(stored([node.target]))
        if st & self.fn[-1][2]:
            return False
        return True

    def visit_For(self, node):
        return self._loop(node)

    def visit_While(self, node):
        return self._loop(node)

    def _loop(self, node):
        isfor = isinstance(node, ast.For)
        if not self._loop_ok(node):
            self.stats["loops_native"] += 1
            self.generic_visit(node)
            if isfor:
                node.iter = hook("iterate", node.iter)
            return node
        self.stats["loops"] += 1
        params, locs, _ = self.fn[-1]
        st = stored(node.body)
        if isfor:
            for x in stored([node.target]):
                if x not in st:
                    st.append(x)
        else:
            for x in stored([node.test]):
                if x not in st:
                    st.append(x)
        pure = True
        for m in mutated(node.body):
            if m is None or m in params or m not in locs:
                pure = False
            elif m not in st:
                st.append(m)
        if contains(node.body, (ast.Attribute,)):
            for n in node.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        pure = False
        if called_names(ast.Module(body=node.body, type_ignores=[]), set(params) | set(locs)) & self.impure:
            pure = False
        walrus_test = not isfor and contains(node.test, (ast.NamedExpr,))
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        bname, rname = self.fresh("b"), self.fresh("r")
        state = lambda: ast.Tuple(
            elts=[hook("get", lam(name(x))) for x in st], ctx=ast.Load())

        class Ret(ast.NodeTransformer):
            def visit_FunctionDef(s, n):
                return n

            visit_Lambda = visit_FunctionDef
            visit_ClassDef = visit_FunctionDef

            def visit_Return(s, n):
                return ast.Return(value=ast.Tuple(elts=[const(2), state(), n.value or const(None)], ctx=ast.Load()))

            def visit_For(s, n):  # native inner loop: its own break/continue
                n.body = [y for x in n.body for y in s.inner(x)]
                n.orelse = [y for x in n.orelse for y in s.inner(x)]
                return n

            visit_While = visit_For

            def inner(s, x):
                r = InnerRet().visit(x)
                return r if isinstance(r, list) else [r]

            def visit_Break(s, n):
                return ast.Return(value=ast.Tuple(elts=[const(1), state()], ctx=ast.Load()))

            def visit_Continue(s, n):
                return ast.Return(value=ast.Tuple(elts=[const(0), state()], ctx=ast.Load()))

        class InnerRet(Ret):
            def visit_Break(s, n):
                return n

            def visit_Continue(s, n):
                return n

        new = []
        for x in body:
            r = Ret().visit(x)
            new.extend(r if isinstance(r, list) else [r])
        pre = []
        for x in st:
            pre.append(ast.If(
                test=ast.Compare(left=name(x), ops=[ast.Is()], comparators=[ast.Attribute(value=name(H), attr="UNBOUND", ctx=ast.Load())]),
                body=[ast.Delete(targets=[name(x, ast.Del())])], orelse=[]))
        args = lambda extra: ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=a) for a in extra + st], kwonlyargs=[], kw_defaults=[], defaults=[])
        import copy

        if isfor:
            if isinstance(node.target, (ast.Tuple, ast.List)):
                tgt = self.unpack(node.target, name("vt__it"), node)
            else:
                tgt = ast.Assign(targets=[node.target], value=name("vt__it"))
            fbody = copy.deepcopy(pre) + [tgt] + new + [ast.Return(value=ast.Tuple(elts=[const(0), state()], ctx=ast.Load()))]
            out = [
                ast.FunctionDef(name=bname, args=args(["vt__it"]), body=fbody, decorator_list=[]),
                ast.Assign(targets=[name(rname, ast.Store())],
                           value=hook("loop", self.visit(node.iter), name(bname), state(), const(pure))),
            ]
        elif walrus_test:
            # fold the test into the body
            fbody = copy.deepcopy(pre) + [
                ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.visit(node.test)),
                       body=[ast.Return(value=ast.Tuple(elts=[const(3), state()], ctx=ast.Load()))], orelse=[])
            ] + new + [ast.Return(value=ast.Tuple(elts=[const(0), state()], ctx=ast.Load()))]
            out = [
                ast.FunctionDef(name=bname, args=args(["vt__it"]), body=fbody, decorator_list=[]),
                ast.Assign(targets=[name(rname, ast.Store())],
                           value=hook("wloop", const(None), name(bname), state(), const(pure))),
            ]
        else:
            tname = self.fresh("t")
            fbody = copy.deepcopy(pre) + new + [ast.Return(value=ast.Tuple(elts=[const(0), state()], ctx=ast.Load()))]
            out = [
                ast.FunctionDef(name=tname, args=args([]), body=copy.deepcopy(pre) + [ast.Return(value=self.visit(node.test))], decorator_list=[]),
                ast.FunctionDef(name=bname, args=args(["vt__it"]), body=fbody, decorator_list=[]),
                ast.Assign(targets=[name(rname, ast.Store())],
                           value=hook("wloop", name(tname), name(bname), state(), const(pure))),
            ]
        item = lambda i: ast.Subscript(value=name(rname), slice=const(i), ctx=ast.Load())
        if st:
            out.append(ast.Assign(targets=[ast.Tuple(elts=[name(x, ast.Store()) for x in st], ctx=ast.Store())], value=item(1)))
            out.extend(copy.deepcopy(pre))
        if contains(node.body, (ast.Return,)):
            out.append(ast.If(test=ast.Compare(left=item(0), ops=[ast.Eq()], comparators=[const(2)]),
                              body=[ast.Return(value=item(2))], orelse=[]))
        if orelse:
            out.append(ast.If(test=ast.Compare(left=item(0), ops=[ast.Eq()], comparators=[const(0)]), body=orelse, orelse=[]))
        return out


def parse_package(repo):
    root = os.path.join(repo, SRC)
    trees = {}
    for dp, dn, fns in os.walk(root):
        dn[:] = [d for d in dn if d != "__pycache__"]
        for f in sorted(fns):
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
                pkg = rel.endswith(".__init__")
                mod = rel[: -len(".__init__")] if pkg else rel
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                trees[mod] = (p, pkg, ast.parse(src, p))
    return trees


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.mods:
            p, pkg, code = self.mods[fullname]
            spec = importlib.util.spec_from_loader(fullname, self, origin=p, is_package=pkg)
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import hooks

        module.__dict__[H] = hooks
        exec(self.mods[module.__name__][2], module.__dict__)


STATS = {}


def load(repo):
    """Instrument and import; returns the package module."""
    import copy
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        trees = parse_package(repo)
    impure = impure_names([t for _, _, t in trees.values()])
    mods = {}
    tot = {"functions": 0, "loops": 0, "loops_native": 0}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for m, (p, pkg, tree) in trees.items():
            tr = Tr(impure, m)
            t = tr.visit(copy.deepcopy(tree))
            ast.fix_missing_locations(t)
            for k in tot:
                tot[k] += tr.stats[k]
            mods[DST + m[len(SRC):]] = (p, pkg, compile(t, p, "exec", dont_inherit=True))
    STATS.update(tot)
    for k in [k for k in sys.modules if k == DST or k.startswith(DST + ".")]:
        del sys.modules[k]
    sys.meta_path[:] = [x for x in sys.meta_path if not isinstance(x, Finder)]
    sys.meta_path.insert(0, Finder(mods))
    pk = __import__(DST)
    return pk
