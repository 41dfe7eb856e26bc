"""Spellings of one computation brought to one form before the analysis.

Only rewrites that keep what the code does, statement by statement:
 - a loop driven by hand (iter/next, an index) becomes the for loop it is;
 - an index that enumerate() or range(len()) provides is dropped if unused
   but for indexing;
 - a container filled by a loop that does nothing else becomes a
   comprehension."""
from __future__ import annotations

import ast
import copy

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def is_call(e: ast.AST, name: str, n: int) -> bool:
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name and len(e.args) == n and not e.keywords


def named(e: ast.AST | None, ident: str) -> bool:
    return isinstance(e, ast.Name) and e.id == ident


def uses(nodes: list, ident: str) -> int:
    return sum(1 for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == ident)


def single(s: ast.stmt) -> tuple[str, ast.expr] | None:
    """name, value of a plain assignment to one name"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        return s.targets[0].id, s.value
    if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
        return s.target.id, s.value
    return None


def no_jumps(body: list) -> bool:
    """No continue of this loop (an index would not move on)."""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Continue):
            return False
        if not isinstance(n, (ast.For, ast.While, ast.AsyncFor) + FN):
            todo += list(ast.iter_child_nodes(n))
    return True


class Canon:
    def __init__(self, fn: ast.AST) -> None:
        self.fn = fn

    def block(self, b: list[ast.stmt]) -> list[ast.stmt]:
        for s in b:
            for f in ("body", "orelse", "finalbody"):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and not isinstance(s, FN + (ast.ClassDef,)):
                    setattr(s, f, self.block(x))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            for c in getattr(s, "cases", []):
                c.body = self.block(c.body)
        b = self.defaults(b)
        b = self.iterators(b)
        b = self.indices(b)
        for s in b:
            if isinstance(s, ast.For):
                self.enumerated(s)
        return self.filled(b)

    # x = a; if not x: x = b
    def defaults(self, b: list[ast.stmt]) -> list[ast.stmt]:
        out: list[ast.stmt] = []
        for s in b:
            if out and isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) and isinstance(s.test.operand, ast.Name):
                a, d = single(out[-1]), single(s.body[0])
                if a and d and a[0] == d[0] == s.test.operand.id and not uses([ast.Expr(d[1])], a[0]):
                    out[-1].value = self.at(ast.BoolOp(ast.Or(), [a[1], d[1]]), s)  # type: ignore[attr-defined,arg-type]
                    continue
            out.append(s)
        return out

    # it = iter(x); while True: try: t = next(it) except StopIteration: break; ...
    def iterators(self, b: list[ast.stmt]) -> list[ast.stmt]:
        out: list[ast.stmt] = []
        for s in b:
            got = None
            if isinstance(s, ast.While) and not s.orelse and isinstance(s.test, ast.Constant) and s.test.value and s.body and isinstance(s.body[0], ast.Try):
                t = s.body[0]
                if (len(t.body) == 1 and isinstance(t.body[0], ast.Assign) and len(t.body[0].targets) == 1 and is_call(t.body[0].value, "next", 1) and not t.finalbody and not t.orelse
                        and len(t.handlers) == 1 and named(t.handlers[0].type, "StopIteration") and len(t.handlers[0].body) == 1 and isinstance(t.handlers[0].body[0], ast.Break)):
                    a = t.body[0].value.args[0]  # type: ignore[attr-defined]
                    if isinstance(a, ast.Name):
                        for i in range(len(out) - 1, -1, -1):
                            n = single(out[i])
                            if n and n[0] == a.id and is_call(n[1], "iter", 1):
                                if uses([self.fn], a.id) == 2 and not uses(out[i + 1:], a.id):
                                    got = ast.For(t.body[0].targets[0], n[1].args[0], s.body[1:] or [ast.Pass()], [], None)  # type: ignore[attr-defined]
                                    if i == len(out) - 1:
                                        out.pop()
                                    else:
                                        out[i].value, got.iter = n[1].args[0], ast.Name(a.id, ast.Load())  # type: ignore[attr-defined]
                                break
            out.append(self.at(got, s) if got is not None else s)
        return out

    # i = 0; while i < len(x): t = x[i]; ...; i += 1
    def indices(self, b: list[ast.stmt]) -> list[ast.stmt]:
        out: list[ast.stmt] = []
        for s in b:
            got = None
            if (isinstance(s, ast.While) and not s.orelse and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Lt) and isinstance(s.test.left, ast.Name)
                    and is_call(s.test.comparators[0], "len", 1) and out and s.body):
                i, seq = s.test.left.id, s.test.comparators[0].args[0]  # type: ignore[attr-defined]
                n, last = single(out[-1]), s.body[-1]
                moves = (isinstance(last, ast.AugAssign) and named(last.target, i) and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1)
                where = [k for k, x in enumerate(s.body) if self.is_item(single(x), seq, i)]
                if n and n[0] == i and isinstance(n[1], ast.Constant) and n[1].value == 0 and isinstance(seq, ast.Name) and not self.stored(s.body, seq.id) and no_jumps(s.body):
                    pos = where[0] if where else None
                    if pos == 0 and moves and uses([self.fn], i) == 4:
                        got = ast.For(ast.Name(single(s.body[0])[0], ast.Store()), seq, s.body[1:-1] or [ast.Pass()], [], None)  # type: ignore[index]
            if got is not None:
                out.pop()
            out.append(self.at(got, s) if got is not None else s)
        return out

    def is_item(self, n: tuple[str, ast.expr] | None, seq: ast.expr, i: str) -> bool:
        return bool(n and isinstance(n[1], ast.Subscript) and ast.dump(n[1].value) == ast.dump(seq) and named(n[1].slice, i))

    def stored(self, body: list, ident: str) -> bool:
        return any(isinstance(n, ast.Name) and n.id == ident and not isinstance(n.ctx, ast.Load) for s in body for n in ast.walk(s))

    def enumerated(self, s: ast.For) -> None:
        it = s.iter
        if is_call(it, "enumerate", 1) and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
            if uses([self.fn], s.target.elts[0].id) == 1:
                s.iter, s.target = it.args[0], s.target.elts[1]  # type: ignore[attr-defined]
        elif is_call(it, "range", 1) and is_call(it.args[0], "len", 1) and isinstance(s.target, ast.Name):  # type: ignore[attr-defined]
            seq, i = it.args[0].args[0], s.target.id  # type: ignore[attr-defined]
            n = single(s.body[0])
            if isinstance(seq, ast.Name) and self.is_item(n, seq, i) and uses([self.fn], i) == 2 and not self.stored(s.body, seq.id):
                s.iter, s.target, s.body = seq, ast.Name(n[0], ast.Store()), s.body[1:] or [ast.Pass()]  # type: ignore[index]

    # x = []; for t in xs: if c: x.append(e)
    def filled(self, b: list[ast.stmt]) -> list[ast.stmt]:
        out: list[ast.stmt] = []
        for s in b:
            c = self.comprehension(s, out) if isinstance(s, (ast.For, ast.AsyncFor)) else None
            if c is None:
                out.append(s)
                continue
            i, comp = c
            a = out.pop(i)
            a.value = comp  # type: ignore[attr-defined]
            out.append(ast.copy_location(a, s))
        return out

    def comprehension(self, s: ast.For | ast.AsyncFor, before: list[ast.stmt]) -> tuple[int, ast.expr] | None:
        gens: list[ast.comprehension] = []
        cur: ast.stmt = s
        subst: dict[str, ast.expr] = {}
        while True:
            if isinstance(cur, (ast.For, ast.AsyncFor)) and not cur.orelse:
                gens.append(ast.comprehension(cur.target, self.put(cur.iter, subst), [], int(isinstance(cur, ast.AsyncFor))))
            elif isinstance(cur, ast.If) and not cur.orelse:
                gens[-1].ifs.append(self.put(cur.test, subst))
            else:
                break
            *pre, cur = cur.body
            if pre:
                return None
        if isinstance(cur, ast.Expr) and isinstance(cur.value, ast.Call) and isinstance(cur.value.func, ast.Attribute) and cur.value.func.attr in ("append", "add") \
                and isinstance(cur.value.func.value, ast.Name) and len(cur.value.args) == 1 and not cur.value.keywords and not isinstance(cur.value.args[0], ast.Starred):
            name, kind, parts = cur.value.func.value.id, cur.value.func.attr, [cur.value.args[0]]
        elif isinstance(cur, ast.Assign) and len(cur.targets) == 1 and isinstance(cur.targets[0], ast.Subscript) and isinstance(cur.targets[0].value, ast.Name):
            name, kind, parts = cur.targets[0].value.id, "set", [cur.targets[0].slice, cur.value]
        else:
            return None
        if uses([s], name) != 1 or any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in [*s.body, s.target] for n in ast.walk(x)) or isinstance(s, ast.AsyncFor):
            return None
        for i in range(len(before) - 1, -1, -1):
            n = single(before[i])
            if n and n[0] == name:
                break
            if uses([before[i]], name):
                return None
        else:
            return None
        v = n[1]  # type: ignore[index]
        empty = {"append": isinstance(v, ast.List) and not v.elts or is_call(v, "list", 0), "add": is_call(v, "set", 0),
                 "set": isinstance(v, ast.Dict) and not v.keys or is_call(v, "dict", 0)}[kind]
        if not empty:
            return None
        inner = sum(uses([s], t.id) for g in gens for t in ast.walk(g.target) if isinstance(t, ast.Name))
        if inner != sum(uses([self.fn], t.id) for g in gens for t in ast.walk(g.target) if isinstance(t, ast.Name)):
            return None
        e: ast.expr
        if kind == "set":
            e = ast.DictComp(parts[0], parts[1], gens)
        else:
            e = (ast.ListComp if kind == "append" else ast.SetComp)(parts[0], gens)
        return i, ast.fix_missing_locations(ast.copy_location(e, s))

    def put(self, e: ast.expr, subst: dict[str, ast.expr]) -> ast.expr:
        return e

    def at(self, new: ast.stmt, old: ast.stmt) -> ast.stmt:
        return ast.fix_missing_locations(ast.copy_location(new, old))


def canonical(tree: ast.Module) -> ast.Module:
    for n in ast.walk(tree):
        if isinstance(n, FN):
            n.body = Canon(n).block(n.body)
    return tree
