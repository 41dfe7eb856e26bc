"""The package's Lua scripts: parameters as declared, body parsed."""
from __future__ import annotations

import ast
from dataclasses import dataclass

from . import lua
from .paths import AnalysisError
from .program import Func, Program


@dataclass
class Param:
    name: str
    kind: str        # Key | Arg | Args
    type: str


@dataclass
class Script:
    func: Func
    params: list[Param]
    body: list[lua.Node]
    source: str


_cache: dict[int, dict[str, Script]] = {}


def script_of(prog: Program, f: Func) -> Script:
    c = _cache.setdefault(id(prog), {})
    if f.qual in c:
        return c[f.qual]
    src = ast.get_docstring(f.node)  # type: ignore[arg-type]
    if not src:
        raise AnalysisError(f"{f.site}: script {f.qual} has no Lua body")
    params: list[Param] = []
    for a in [*f.node.args.args, *f.node.args.kwonlyargs]:
        ann = a.annotation
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        if isinstance(ann, ast.Subscript):
            head = ast.unparse(ann.value).split(".")[-1]
            if head in ("Key", "Arg", "Args"):
                params.append(Param(a.arg, head, ast.unparse(ann.slice)))
    try:
        body = lua.parse(src)
    except lua.LuaSyntaxError as e:
        raise AnalysisError(f"{f.site}: Lua of {f.qual}: {e}") from e
    c[f.qual] = Script(f, params, body, src)
    return c[f.qual]


def nodes(x: object):
    """All nodes of a Lua body."""
    if isinstance(x, lua.Node):
        yield x
        for v in x.f.values():
            yield from nodes(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from nodes(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from nodes(v)


TEXT_REPLIES = {"GET", "HGET", "ZSCORE", "LINDEX", "LPOP", "RPOP", "GETDEL", "HINCRBYFLOAT"}


def text_orders(s: Script) -> list[tuple[lua.Node, bool]]:
    """The order comparisons of a script, and whether each compares texts, in
    the order of their characters, rather than numbers."""
    assigned: dict[str, list[lua.Node | None]] = {p.name: [lua.Node("const", 0, value="")] for p in s.params if p.kind == "Key" or p.kind == "Arg" and p.type in ("str", "bytes")}
    for n in nodes(s.body):
        if n.kind == "local":
            for i, name in enumerate(n.names):
                assigned.setdefault(name, []).append(n.values[i] if i < len(n.values) else None)
        elif n.kind == "assign":
            for i, t in enumerate(n.targets):
                if t.kind == "name":
                    assigned.setdefault(t.name, []).append(n.values[i] if i < len(n.values) else None)
        elif n.kind == "func":
            for name in n.params:
                assigned.setdefault(name, []).append(lua.Node("unknown", n.line))
        elif n.kind in ("forin", "fornum"):
            for name in n.names if n.kind == "forin" else [n.var]:
                assigned.setdefault(name, []).append(lua.Node("unknown", n.line))

    def text(e: lua.Node | None, deep: int = 0) -> bool:
        if e is None or deep > 8:
            return False
        if e.kind == "paren":
            return text(e.value, deep + 1)
        if e.kind == "const":
            return isinstance(e.value, str)
        if e.kind == "binop":
            if e.op == "..":
                return True
            if e.op in ("or", "and"):
                return text(e.left, deep + 1) and text(e.right, deep + 1) or e.op == "and" and text(e.right, deep + 1)
            return False
        if e.kind == "call" and e.func.kind == "name":
            return e.func.name == "tostring"
        if e.kind == "call" and e.func.kind == "index" and e.func.key.kind == "const" and e.func.key.value in ("call", "pcall"):
            return bool(e.args) and e.args[0].kind == "const" and str(e.args[0].value).upper() in TEXT_REPLIES
        if e.kind == "name":
            vs = [v for v in assigned.get(e.name, []) if v is not None]
            return bool(vs) and all(text(v, deep + 1) for v in vs)
        return False

    return [(n, text(n.left) or text(n.right)) for n in nodes(s.body) if n.kind == "binop" and n.op in ("<", ">", "<=", ">=")]
