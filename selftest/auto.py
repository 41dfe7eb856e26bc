#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package; every check must stay quiet.

auto.py [--tests] [--keep DIR] [NAME...]   (env IDS: the checks to run)"""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE.parent))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
N = lambda i: ast.Name(i, ast.Load())
ST = lambda i: ast.Name(i, ast.Store())
count = [0]


def fresh(b="tmp"):
    count[0] += 1
    return f"{b}_{count[0]}"


def trivial(e):
    return isinstance(e, (ast.Name, ast.Constant)) or (isinstance(e, ast.Attribute) and trivial(e.value))


def pure(e):
    return not any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Subscript, ast.YieldFrom)) for n in ast.walk(e))


class Blocks(ast.NodeTransformer):
    """Rewrites statement lists: stmt() returns a list of statements."""

    def stmt(self, s): return [s]

    def visit(self, node):
        node = self.generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block([x for s in b for x in self.stmt(s)]))
        return node

    def block(self, b): return b


class Invert(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


class RetTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not trivial(s.value):
            t = fresh("result")
            return [ast.Assign([ST(t)], s.value), ast.Return(N(t))]
        return [s]


class Hoist(Blocks):
    """Arguments of a statement's outer call are named first."""
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and s.value is not None:
            c = s.value.value if isinstance(s.value, ast.Await) else s.value
            if isinstance(c, ast.Call) and trivial(c.func) and not any(isinstance(a, ast.Starred) for a in c.args) and all(k.arg for k in c.keywords):
                out = []
                for i, a in enumerate(c.args):
                    if not trivial(a):
                        t = fresh("arg"); out.append(ast.Assign([ST(t)], a)); c.args[i] = N(t)
                for k in c.keywords:
                    if not trivial(k.value):
                        t = fresh("arg"); out.append(ast.Assign([ST(t)], k.value)); k.value = N(t)
                return out + [s]
        return [s]


class IfExp(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) and isinstance(s.value, ast.IfExp):
            e = s.value
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = e.body, e.orelse
            if isinstance(b, ast.AnnAssign): b = ast.Assign([b.target], b.value)
            return [ast.If(e.test, [a], [b])]
        return [s]


class WithSplit(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.With, ast.AsyncWith)) and len(s.items) > 1:
            body = s.body
            for i in reversed(s.items): body = [type(s)([i], body)]
            return body
        return [s]


class AndSplit(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for v in reversed(s.test.values): b = [ast.If(v, b, [])]
            return b
        return [s]


class FString(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values): return n
        if any(isinstance(v, ast.Constant) and "redis.call" in v.value for v in n.values): return n
        out = None
        for v in n.values:
            x = v if isinstance(v, ast.Constant) else ast.Call(N("str"), [self.visit(v.value)], [])
            out = x if out is None else ast.BinOp(out, ast.Add(), x)
        return out or ast.Constant("")


class Format(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values): return n
        if any(isinstance(v, ast.Constant) and ("redis.call" in v.value or "{" in v.value or "}" in v.value) for v in n.values): return n
        t = "".join(v.value if isinstance(v, ast.Constant) else "{}" for v in n.values)
        return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), [self.visit(v.value) for v in n.values if isinstance(v, ast.FormattedValue)], [])


class Comp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
            t = fresh("items")
            return self.stmt(ast.Assign([ST(t)], s.value)) + [ast.Return(N(t))]
        tgt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
        if isinstance(tgt, ast.Name) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
            c = s.value
            if any(isinstance(x, ast.Name) and x.id == tgt.id for x in ast.walk(c)): return [s]
            names = {x.id: fresh(x.id) for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) for x in ast.walk(c) if x is not c): return [s]
            first = c.generators[0].iter
            inner = copy.deepcopy(c)
            for x in ast.walk(inner):
                if isinstance(x, ast.Name) and x.id in names: x.id = names[x.id]
            inner.generators[0].iter = first
            if isinstance(c, ast.DictComp): b = [ast.Assign([ast.Subscript(N(tgt.id), inner.key, ast.Store())], inner.value)]; z = ast.Dict([], [])
            else:
                b = [ast.Expr(ast.Call(ast.Attribute(N(tgt.id), "append" if isinstance(c, ast.ListComp) else "add", ast.Load()), [inner.elt], []))]
                z = ast.List([], ast.Load()) if isinstance(c, ast.ListComp) else ast.Call(N("set"), [], [])
            for g in reversed(inner.generators):
                for i in reversed(g.ifs): b = [ast.If(i, b, [])]
                b = [(ast.AsyncFor if g.is_async else ast.For)(g.target, g.iter, b, [])]
            h = copy.copy(s); h.value = z
            return [h] + b
        return [s]


class DictSteps(Blocks):
    def stmt(self, s):
        tgt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
        if isinstance(tgt, ast.Name) and isinstance(s.value, ast.Dict) and s.value.keys and all(s.value.keys) and not any(isinstance(x, ast.Name) and x.id == tgt.id for x in ast.walk(s.value)):
            h = copy.copy(s); d = s.value; h.value = ast.Dict([], [])
            return [h] + [ast.Assign([ast.Subscript(N(tgt.id), k, ast.Store())], v) for k, v in zip(d.keys, d.values)]
        return [s]


class IterTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not trivial(s.iter):
            t = fresh("seq"); i = s.iter; s.iter = N(t)
            return [ast.Assign([ST(t)], i), s]
        return [s]


class IfTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not trivial(s.test) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
            t = fresh("cond"); c = s.test; s.test = N(t)
            return [ast.Assign([ST(t)], c), s]
        return [s]


class Walrus(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If):
            t = s.test
            c = t if isinstance(t, ast.NamedExpr) else t.left if isinstance(t, ast.Compare) and isinstance(t.left, ast.NamedExpr) else t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.NamedExpr) else None
            if c is not None:
                a = ast.Assign([ST(c.target.id)], c.value); n = N(c.target.id)
                if t is c: s.test = n
                elif isinstance(t, ast.Compare): t.left = n
                else: t.operand = n
                return [a, s]
        return [s]


def leaves(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Else(Blocks):
    """if c: return x; rest -> if c: return x else: rest"""
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and b[i + 1:]:
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


class NoElse(Blocks):
    def block(self, b):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                r = s.orelse; s.orelse = []; out += r
        return out


class Compare(ast.NodeTransformer):
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.NotEq: ast.Eq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1: return n
        o, a, b = type(n.ops[0]), n.left, n.comparators[0]
        if o in self.SW and (pure(a) or pure(b)) and not isinstance(b, ast.Constant): return ast.Compare(b, [self.SW[o]()], [a])
        if o in (ast.IsNot, ast.NotIn): return ast.UnaryOp(ast.Not(), ast.Compare(a, [self.NEG[o]()], [b]))
        return n


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)):
            return ast.Assign([n.target], ast.BinOp(N(n.target.id), n.op, n.value))
        return n


class DeMorgan(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
            t = s.test
            o = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return [s]


def locals_of(f):
    a = f.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    st = []
    for n in own(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): st.append(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: st.append(n.name)
        if isinstance(n, FN) and n is not f: st.append(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)): st += [(x.asname or x.name).split(".")[0] for x in n.names]
    return ps, list(dict.fromkeys(st))


def own(f):
    """Nodes of the function, not of nested functions or comprehension targets."""
    todo = list(f.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, FN + (ast.Lambda, ast.ClassDef)): continue
        if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            todo += [g.iter for g in n.generators]
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


def functions(tree):
    """(function, owner list, class or None)"""
    def go(body, cls):
        for s in list(body):
            if isinstance(s, FN): yield s, body, cls
            elif isinstance(s, ast.ClassDef): yield from go(s.body, s)
    yield from go(tree.body, None)


def movable(f, cls):
    dec = [ast.unparse(d) for d in f.decorator_list]
    if any(d.split(".")[-1].split("(")[0] in ("overload", "classmethod", "staticmethod", "redis_script", "abstractmethod", "setter") for d in dec): return False
    for n in ast.walk(f):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)): return False
        if isinstance(n, ast.Name) and n.id == "super": return False
    if cls is not None and not (f.args.args and f.args.args[0].arg == "self"): return False
    return f.name not in ("__init__", "__post_init__", "__getattr__", "__class_getitem__")


def helper(f, cls, name, params, body):
    params = [p for p in params if p != "self"]
    a = ast.arguments([], [ast.arg(p) for p in (["self"] if cls else []) + params], None, [], [], None, [])
    h = type(f)(name, a, body, [], None) if sys.version_info < (3, 12) else type(f)(name=name, args=a, body=body, decorator_list=[], returns=None, type_params=[])
    c = ast.Call(ast.Attribute(N("self"), name, ast.Load()) if cls else N(name), [N(p) for p in params], [])
    return h, (ast.Await(c) if isinstance(f, ast.AsyncFunctionDef) else c)


def names_used(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name)}


def extract_tail(tree):
    for f, owner, cls in list(functions(tree)):
        if not movable(f, cls): continue
        b = f.body
        start = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        if len(b) - start < 3: continue
        k = max(start + 1, min(len(b) - 1, start + int((len(b) - start) * (extract_cut or 0.5))))
        head = copy.copy(f); head.body = b[:k]
        ps, st = locals_of(head)
        # a name bound only on some path of the head could be unbound: pass what is bound at its top level or a parameter
        top = set(ps)
        for s in b[:k]:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign) + FN):
                top |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | ({s.name} if isinstance(s, FN) else set())
        if any(isinstance(n, FN + (ast.Lambda,)) for s in b[:k] for n in ast.walk(s)): continue
        used = names_used(b[k:])
        if (set(st) - top) & used: continue
        params = [p for p in ps + st if p in used and p != "self"]
        h, c = helper(f, cls, fresh(f"_{f.name.strip('_')}_rest"), list(dict.fromkeys(params)), b[k:])
        f.body = b[:k] + [ast.Return(c)]
        owner.insert(owner.index(f) + 1, h)
    return tree


def extract_blocks(tree):
    """Bodies of if/for/with/try that bind nothing used elsewhere become helpers."""
    for f, owner, cls in list(functions(tree)):
        if not movable(f, cls): continue
        ps, st = locals_of(f)
        local = set(ps) | set(st)
        if any(isinstance(n, (ast.Lambda,) + FN) for s in f.body for n in ast.walk(s)): continue
        comp = [n for s in f.body for n in ast.walk(s) if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp))]
        def blocks(n):
            for ch in ast.iter_child_nodes(n):
                for fld in ("body", "orelse"):
                    b = getattr(ch, fld, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not (fld == "orelse" and isinstance(b[0], ast.If)):
                        if not isinstance(ch, (ast.ExceptHandler,)): yield ch, fld
                if not isinstance(ch, FN): yield from blocks(ch)
        done = False
        for node, fld in list(blocks(f)):
            b = getattr(node, fld)
            if any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Raise, ast.ExceptHandler, ast.NamedExpr)) for s in b for n in ast.walk(s)): continue
            if sum(1 for s in b for n in ast.walk(s)) < 12: continue
            bound = {n.id for s in b for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            outside = set()
            ids = {id(n) for s in b for n in ast.walk(s)}
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and id(n) not in ids: outside.add(n.id)
            if bound & outside: continue
            used = names_used(b)
            params = [p for p in list(dict.fromkeys(ps + st)) if p in used and p not in bound and p != "self"]
            # an unbound name would fail earlier: only names certainly bound; parameters and those stored before
            h, c = helper(f, cls, fresh(f"_{f.name.strip('_')}_part"), params, b)
            setattr(node, fld, [ast.Expr(c)])
            owner.insert(owner.index(f) + 1, h)
            break
    return tree


def split_at(frac):
    def go(tree):
        global extract_cut
        extract_cut = frac
        t = extract_tail(tree)
        extract_cut = None
        return t
    return go


extract_cut = None


def extract_exprs(which):
    """Values (or conditions) become helpers returning them."""
    def go(tree):
        for f, owner, cls in list(functions(tree)):
            if not movable(f, cls): continue
            if any(isinstance(n, (ast.Lambda,) + FN) for s in f.body for n in ast.walk(s)): continue
            ps, st = locals_of(f)
            imported = {(x.asname or x.name).split(".")[0] for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names}
            for n in list(ast.walk(f)):
                fld = "test" if which == "conds" and isinstance(n, ast.If) else "value" if which == "exprs" and isinstance(n, (ast.Assign, ast.AnnAssign, ast.Return)) else None
                e = getattr(n, fld) if fld else None
                if e is None or trivial(e) or sum(1 for _ in ast.walk(e)) < 8: continue
                bad = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Lambda)) for x in ast.walk(e))
                inner = {x.id for g in ast.walk(e) if isinstance(g, ast.comprehension) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                used = names_used([ast.Expr(e)]) - inner
                if bad or used & imported: continue
                params = [p for p in dict.fromkeys(ps + st) if p in used and p != "self"]
                aw = any(isinstance(x, ast.Await) for x in ast.walk(e))
                if aw and not isinstance(f, ast.AsyncFunctionDef): continue
                proto = ast.AsyncFunctionDef if aw else ast.FunctionDef
                kw = dict(name=fresh("_part"), args=ast.arguments([], [ast.arg(p) for p in (["self"] if cls else []) + params], None, [], [], None, []), body=[ast.Return(e)], decorator_list=[], returns=None)
                if sys.version_info >= (3, 12): kw["type_params"] = []
                h = proto(**kw)
                c = ast.Call(ast.Attribute(N("self"), h.name, ast.Load()) if cls else N(h.name), [N(p) for p in params], [])
                setattr(n, fld, ast.Await(c) if aw else c)
                owner.insert(owner.index(f) + 1, h)
        return tree
    return go


def rename_locals(tree):
    for f in [n for n in ast.walk(tree) if isinstance(n, FN)]:
        ps, st = locals_of(f)
        inner = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Nonlocal, ast.Global)): inner |= set(n.names)
        nested = [n for n in ast.walk(f) if n is not f and isinstance(n, FN + (ast.ClassDef, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp))]
        fnames = {n.name for n in ast.walk(f) if isinstance(n, FN)}
        shadow = set()
        for n in nested:
            if isinstance(n, FN): shadow |= set(sum(locals_of(n), []))
            elif isinstance(n, ast.Lambda): shadow |= {a.arg for a in n.args.args}
            elif not isinstance(n, ast.ClassDef): shadow |= {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        imports = {(x.asname or x.name).split(".")[0] for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names}
        handlers = {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler)}
        m = {x: x + "_v" for x in st if x not in ps and x not in inner and x not in shadow and x not in fnames and x not in imports and x not in handlers}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in m: n.id = m[n.id]
    return tree


def constants(tree):
    vals = {}
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, n): return n
        def visit_match_case(self, n):
            n.body = [self.visit(x) for x in n.body]
            return n
        def visit_FunctionDef(self, n):
            n.body = [self.visit(s) if not (i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) else s for i, s in enumerate(n.body)]
            return n
        visit_AsyncFunctionDef = visit_FunctionDef
        def visit_AnnAssign(self, n):
            if n.value: n.value = self.visit(n.value)
            return n
        def visit_Constant(self, n):
            if isinstance(n.value, (str, bytes)) and 2 < len(n.value) < 30:
                k = vals.setdefault(n.value, "_K%d" % len(vals))
                return N(k)
            return n
        def visit_Subscript(self, n):
            n.slice = self.visit(n.slice) if isinstance(n.ctx, ast.Store) or not isinstance(n.value, ast.Name) or n.value.id[0].islower() else n.slice
            return n
        def visit_Call(self, n):
            if isinstance(n.func, ast.Name) and n.func.id in ("cast", "TypeVar", "ParamSpec", "getattr", "NewType"): return n
            return self.generic_visit(n)
    for f, _, cls in functions(tree):
        v = V()
        v.visit(f)
    i = 0
    while i < len(tree.body) and (isinstance(tree.body[i], (ast.Import, ast.ImportFrom)) or isinstance(tree.body[i], ast.Expr)): i += 1
    tree.body[i:i] = [ast.Assign([ST(k)], ast.Constant(v)) for v, k in vals.items()]
    return tree


def self_alias(tree):
    """Attributes of self read several times in a method and assigned nowhere but in __init__ are read once."""
    for cls in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        stored = set()
        for m in cls.body:
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(m, FN) and m.name in ("__init__", "__aenter__", "__post_init__")): stored.add(n.attr)
        names = {m.name for m in cls.body if isinstance(m, FN)}
        for m in cls.body:
            if not isinstance(m, FN) or m.name.startswith("__") or any(isinstance(n, (ast.Yield, ast.Nonlocal)) for n in ast.walk(m)): continue
            if not (m.args.args and m.args.args[0].arg == "self"): continue
            if "docket" not in stored and "docket" not in sum(locals_of(m), []) and not any(isinstance(n, FN) for n in ast.walk(m) if n is not m):
                hits = [n for n in ast.walk(m) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr == "docket"]
                if hits and not any(isinstance(n, ast.Name) and n.id == "docket" for n in ast.walk(m)):
                    class R(ast.NodeTransformer):
                        def visit_Attribute(self, n):
                            if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr == "docket": return N("docket")
                            return self.generic_visit(n)
                    k = 1 if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else 0
                    m.body = m.body[:k] + [ast.Assign([ST("docket")], ast.Attribute(N("self"), "docket", ast.Load()))] + [R().visit(s) for s in m.body[k:]]
    return tree


class Swap(Blocks):
    """Adjacent independent call-free assignments change places."""
    def block(self, b):
        i = 0
        ok = lambda s: isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and pure(s.value) and all(isinstance(t, ast.Name) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))
        st = lambda s: {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        ld = lambda s: {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        while i + 1 < len(b):
            if ok(b[i]) and ok(b[i + 1]) and not st(b[i]) & ld(b[i + 1]) and not st(b[i + 1]) & ld(b[i]):
                b[i], b[i + 1] = b[i + 1], b[i]; i += 1
            i += 1
        return b


class Noop(Blocks):
    def visit(self, n):
        n = super().visit(n)
        if isinstance(n, FN):
            k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(k, ast.Expr(ast.Constant(None)))
        return n


class While(Blocks):
    """for over a plain iterable -> while with an explicit iterator"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            it, sent = fresh("it"), fresh("done")
            return [ast.Assign([ST(it)], ast.Call(N("iter"), [s.iter], [])),
                    ast.While(ast.Constant(True), [ast.Try([ast.Assign([s.target], ast.Call(N("next"), [N(it)], []))], [ast.ExceptHandler(N("StopIteration"), None, [ast.Break()])], [], [])] + s.body, [])]
        return [s]


class Index(Blocks):
    """for x in seq -> for i, x in enumerate(seq)"""
    def stmt(self, s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(N("enumerate"), [s.iter], []); s.target = ast.Tuple([ST(fresh("index")), s.target], ast.Store())
        return [s]


class TryElse(Blocks):
    """return inside try: the call is named, returned in else"""
    def stmt(self, s):
        if isinstance(s, ast.Try) and s.handlers and not s.orelse and s.body and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None:
            t = fresh("value")
            s.body[-1] = ast.Assign([ST(t)], s.body[-1].value)
            s.orelse = [ast.Return(N(t))]
        return [s]


class Lambda(ast.NodeTransformer):
    def visit_Lambda(self, n): return self.generic_visit(n)


class BoolRet(Blocks):
    """return <comparison> -> if: return True / return False"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and (isinstance(s.value, ast.Compare) or isinstance(s.value, ast.UnaryOp) and isinstance(s.value.op, ast.Not)):
            return [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
        return [s]


class OrDefault(Blocks):
    """x = a or b -> x = a; if not x: x = b"""
    def stmt(self, s):
        tgt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
        if isinstance(tgt, (ast.Name, ast.Attribute)) and isinstance(s.value, ast.BoolOp) and isinstance(s.value.op, ast.Or) and len(s.value.values) == 2:
            a, b = s.value.values
            t = fresh("value")
            h = copy.copy(s); h.value = N(t)
            return [ast.Assign([ST(t)], a), ast.If(ast.UnaryOp(ast.Not(), N(t)), [ast.Assign([ST(t)], b)], []), h]
        return [s]


def kwargs_in_order(tree):
    """Keyword arguments in reverse order (values without calls only)."""
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and n.keywords and all(k.arg and pure(k.value) for k in n.keywords): n.keywords.reverse()
    return tree


def lua_alias(tree):
    class V(ast.NodeTransformer):
        def visit_Constant(self, n):
            if isinstance(n.value, str) and "redis.call(" in n.value:
                return ast.Constant(n.value.replace("redis.call(", "docket_call("))
            return n
    class F(ast.NodeTransformer):
        def lua(self, n):
            parts = n.values if isinstance(n, ast.JoinedStr) else [n]
            if not any(isinstance(p, ast.Constant) and isinstance(p.value, str) and "redis.call(" in p.value for p in parts): return n
            n = V().visit(n)
            h = "local docket_call = redis.call\n"
            if isinstance(n, ast.JoinedStr): n.values.insert(0, ast.Constant(h)); return n
            return ast.Constant(h + n.value)
        def visit_JoinedStr(self, n): return self.lua(n)
        def visit_Constant(self, n): return self.lua(n) if isinstance(n.value, str) else n
    return F().visit(tree)


def lua_sub(fn):
    def go(tree):
        class F(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, str) and "redis.call(" in n.value: return ast.Constant(fn(n.value))
                return n
        return F().visit(tree)
    return go


def lua_rename(s):
    import re
    for v in dict.fromkeys(re.findall(r"\blocal (\w+) =", s)):
        if v in ("function",): continue
        s = re.sub(rf"(?<![\w'\".:]){v}(?![\w'\"])", v + "_v", s)
    return s


def lua_hoist(s):
    """if redis.call(...) == x then -> local r = redis.call(...); if r == x then"""
    import re
    n = [0]
    def f(m):
        n[0] += 1
        return f"{m.group(1)}local found_{n[0]} = {m.group(2)}\n{m.group(1)}if found_{n[0]} == {m.group(3)} then\n"
    return re.sub(r"(?m)^([ \t]*)if (redis\.call\([^()\n]*\)) == ([\w']+) then\n", f, s)


def lua_flip(s):
    import re
    s = re.sub(r"\bif (\w+) == (\w+|'\w*') then", r"if \2 == \1 then", s)
    return re.sub(r"\bif (\w+) ~= (\w+|'\w*') then", r"if not (\1 == \2) then", s)


def lua_comment(s):
    return s.replace("\n", " -- note\n") if "--" not in s and "[[" not in s else s


def private_names():
    import re
    tests = "\n".join(p.read_text() for p in Path("/repo/tests").rglob("*.py"))
    fns, attrs = set(), set()
    for p in Path("/repo/src/docket").rglob("*.py"):
        for n in ast.walk(ast.parse(p.read_text())):
            if isinstance(n, FN): fns.add(n.name)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): attrs.add(n.attr)
    ok = lambda x: x.startswith("_") and not x.startswith("__") and not re.search(r"\b" + x + r"\b", tests)
    return {x for x in fns if ok(x)}, {x for x in attrs - fns if ok(x)}


def rename_private(which):
    def go(tree):
        m = {x: x + "_impl" for x in private_names()[which]}
        for n in ast.walk(tree):
            if isinstance(n, FN) and n.name in m: n.name = m[n.name]
            elif isinstance(n, ast.Name) and n.id in m: n.id = m[n.id]
            elif isinstance(n, ast.Attribute) and n.attr in m: n.attr = m[n.attr]
            elif isinstance(n, ast.alias) and n.name in m: n.name = m[n.name]
        return tree
    return go


def nested_names(tree):
    """Functions defined inside functions get another name."""
    for f in [n for n in ast.walk(tree) if isinstance(n, FN)]:
        for g in [n for n in ast.walk(f) if isinstance(n, FN) and n is not f]:
            if any(isinstance(n, ast.Attribute) and n.attr == g.name for n in ast.walk(f)): continue
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id == g.name: n.id = g.name + "_inner"
            g.name += "_inner"
    return tree


VIS = dict(unparse=None, invert=Invert, rettemp=RetTemp, hoist=Hoist, ifexp=IfExp, withsplit=WithSplit, andsplit=AndSplit, fstring=FString, format=Format, comp=Comp,
           dictsteps=DictSteps, itertemp=IterTemp, iftemp=IfTemp, walrus=Walrus, els=Else, noelse=NoElse, compare=Compare, aug=Aug, demorgan=DeMorgan,
           swap=Swap, noop=Noop, whiles=While, index=Index, tryelse=TryElse, boolret=BoolRet, ordefault=OrDefault)
FUN = dict(privates=rename_private(0), attrs=rename_private(1), nested=nested_names, tail=extract_tail, tail2=split_at(0.25), tail3=split_at(0.8), exprs=extract_exprs('exprs'), conds=extract_exprs('conds'), blocks=extract_blocks, rename=rename_locals, constants=constants, alias=self_alias, kwargs=kwargs_in_order, luaalias=lua_alias,
           luarename=lua_sub(lua_rename), luahoist=lua_sub(lua_hoist), luaflip=lua_sub(lua_flip), luacomment=lua_sub(lua_comment))


def transform(name, src):
    tree = ast.parse(src)
    for n in name.split("+"):
        if n in FUN: tree = FUN[n](tree)
        elif VIS[n]: tree = VIS[n]().visit(tree)
        tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
    return ast.unparse(tree) + "\n"


def run(name, tests=False, keep=None):
    d = Path(keep or tempfile.mkdtemp(prefix="auto-", dir="/tmp"))
    try:
        if tests: shutil.copytree("/repo", d, dirs_exist_ok=True, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", ".venv", "node_modules"))
        else:
            shutil.copytree("/repo/src", d / "src", dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
            for f in ("pyproject.toml", "loq.toml"):
                if Path("/repo", f).exists(): shutil.copy(Path("/repo", f), d)
        for p in (d / "src/docket").rglob("*.py"):
            t = transform(name, p.read_text())
            compile(t, str(p), "exec")
            p.write_text(t)
        if tests:
            env = dict(os.environ, PYTHONPATH=str(d / "src"), REDIS_VERSION="memory")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:randomly", "-o", "addopts=--import-mode=importlib", "--timeout=60", "-n", "8", "tests"], cwd=d, env=env, capture_output=True, text=True)
            return name, "\n".join(r.stdout.splitlines()[-8:]), []
        ids = os.environ.get("IDS", "").split()
        r = subprocess.run([sys.executable, str(HERE.parent / "check.py"), *ids, "-"], env=dict(os.environ, DSA_REPO=str(d), DSA_EVIDENCE=str(d / "ev")), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if ": held" not in l] + r.stderr.splitlines()[-3:]
        bad = sorted({l.split("property=")[1].split()[0] for l in lines if l.startswith("VIOLATION")}) + sorted({l.split(":")[0] + "?" for l in lines if "analysis error" in l})
        return name, " ".join(bad) or "quiet", lines
    finally:
        if not keep: shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    tests = "--tests" in args
    keep = args[args.index("--keep") + 1] if "--keep" in args else None
    names = [a for a in args if a != "--tests" and a not in ("--keep", keep)] or [*VIS, *FUN]
    with ThreadPoolExecutor(1 if tests else int(os.environ.get("J", "6"))) as ex:
        for name, verdict, lines in ex.map(lambda n: run(n, tests, keep), names):
            print(name, "->", verdict, flush=True)
            if os.environ.get("V"): print("\n".join("   " + l[:400] for l in lines), flush=True)
