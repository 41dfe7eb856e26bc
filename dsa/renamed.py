"""Functions and attributes of the package that go by a new private name.

The rules speak of some private functions by name.  names.json lists the
functions the rules were written against, with the words of their bodies; when
one of them is gone and the same scope has a new one that says nearly the same,
that one is called by the old name throughout, before the analysis."""
from __future__ import annotations

import ast
import json
from pathlib import Path
from typing import Any

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
TABLE = Path(__file__).with_name("names.json")


def words(f: ast.AST) -> dict[str, int]:
    out: dict[str, int] = {}
    for s in f.body:  # type: ignore[attr-defined]
        for n in ast.walk(s):
            w = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else n.value[:40] if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
            if w:
                out[w] = out.get(w, 0) + 1
    return out


def scopes(tree: ast.AST, prefix: str = "") -> dict[str, ast.AST]:
    out: dict[str, ast.AST] = {}

    def go(n: ast.AST, p: str) -> None:
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FN):
                out.setdefault(p + c.name, c)
                go(c, p + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                go(c, p + c.name + ".")
            else:
                go(c, p)
    go(tree, prefix)
    return out


def attributes(tree: ast.AST) -> dict[str, dict[str, str]]:
    """class -> attribute stored on self -> what is stored first, as text"""
    out: dict[str, dict[str, str]] = {}
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            d = out.setdefault(c.name, {})
            for s in ast.walk(c):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
                for t in ts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr not in d:
                        d[t.attr] = (ast.unparse(s.annotation) if isinstance(s, ast.AnnAssign) else "") + "=" + (ast.unparse(s.value) if s.value is not None else "")
    return out


def alike(a: dict[str, int], b: dict[str, int]) -> float:
    both = sum(min(a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b))
    every = sum(max(a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b))
    return both / every if every else 0.0


def record(modules: dict[str, ast.Module]) -> None:
    t = {m: {"functions": {q: words(f) for q, f in scopes(tree).items()}, "attributes": attributes(tree)} for m, tree in modules.items()}
    TABLE.write_text(json.dumps(t, indent=0, sort_keys=True) + "\n")


def known_functions() -> set[str]:
    """Every function the rules were written against."""
    if not TABLE.exists():
        return set()
    return {f"{m}.{q}" for m, t in json.loads(TABLE.read_text()).items() for q in t["functions"]}


def restore(modules: dict[str, ast.Module]) -> None:
    if not TABLE.exists():
        return
    table: dict[str, Any] = json.loads(TABLE.read_text())
    new_to_old: dict[str, str] = {}
    for m, known in table.items():
        if m not in modules:
            continue
        now = scopes(modules[m])
        gone = [q for q in known["functions"] if q not in now]
        fresh = [q for q in now if q not in known["functions"]]
        spoken = {q: words(now[q]) for q in fresh}

        def whole(q: str, seen: frozenset[str] = frozenset()) -> dict[str, int]:
            """With the words of the new helpers it calls."""
            out = dict(spoken[q])
            for h in fresh:
                if h not in seen and h != q and h.rpartition(".")[2] in spoken[q]:
                    for k, n in whole(h, seen | {q, h}).items():
                        out[k] = out.get(k, 0) + n
            return out
        for q in gone:
            scope, _, name = q.rpartition(".")
            best = sorted(((max(alike(known["functions"][q], spoken[x]), alike(known["functions"][q], whole(x))), x) for x in fresh if x.rpartition(".")[0] == scope), reverse=True)
            if best and best[0][0] >= 0.5:
                new_to_old[best[0][1].rpartition(".")[2]] = name
        attrs = attributes(modules[m])
        for c, old in known["attributes"].items():
            have = attrs.get(c, {})
            missing = [a for a in old if a not in have]
            added = [a for a in have if a not in old]
            for a in missing:
                same = [x for x in added if have[x] == old[a] or len(missing) == len(added) == 1]
                if len(same) == 1 and [x for x in missing if old[x] == old[a]] == [a]:
                    new_to_old[same[0]] = a
    olds = {n.name for t in modules.values() for n in ast.walk(t) if isinstance(n, FN)}
    new_to_old = {n: o for n, o in new_to_old.items() if n != o and o not in olds and n.startswith("_") and o.startswith("_")}
    if not new_to_old:
        return
    for t in modules.values():
        for n in ast.walk(t):
            if isinstance(n, FN) and n.name in new_to_old:
                n.name = new_to_old[n.name]
            elif isinstance(n, ast.Name) and n.id in new_to_old:
                n.id = new_to_old[n.id]
            elif isinstance(n, ast.Attribute) and n.attr in new_to_old:
                n.attr = new_to_old[n.attr]
            elif isinstance(n, ast.alias) and n.name in new_to_old:
                n.asname, n.name = n.asname or None, new_to_old[n.name]
