"""The fields of a task message, read off the code that builds it."""
from __future__ import annotations

import ast

from .paths import AnalysisError
from .program import Program

_cache: dict[int, tuple[str, ...]] = {}


def message_fields(prog: Program) -> tuple[str, ...]:
    if id(prog) in _cache:
        return _cache[id(prog)]
    out: list[str] = []
    todo, seen = [prog.func("Execution.as_message")], set()
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for n in ast.walk(f.node):
            v = n.value if isinstance(n, ast.Constant) else None
            if isinstance(n, ast.Name):
                r = prog.lookup(f.module.name, n.id)
                if r is not None and r[0] == "value" and isinstance(r[2], ast.Constant):
                    v = r[2].value
            if isinstance(n, ast.Call):   # helpers of the same class or module
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                todo += [g for g in prog.funcs.values() if g.node.name == name and g.module is f.module and name.startswith("_") and not name.startswith("__")]
            if isinstance(v, bytes) and v.decode().isidentifier() and v.decode() not in out:
                out.append(v.decode())
    if not out:
        raise AnalysisError("no message fields found in Execution.as_message")
    _cache[id(prog)] = tuple(out)
    return _cache[id(prog)]
