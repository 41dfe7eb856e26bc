"""Symbolic values ("terms") shared by the Python and the Lua analyses.

A term is a tuple whose first element is its kind.  Terms are values in the
dataflow sense: two expressions with the same term are the same value on the
path being analysed.  Nothing here evaluates docket's code or calls a solver;
the only reasoning is constant folding and syntactic equality of normal forms.
"""
from __future__ import annotations

from typing import Any

Term = tuple

NONE: Term = ("const", None)
# Booleans carry a mark: in Python True == 1, but they are different values
# on the wire and in Lua.
TRUE: Term = ("const", True, "bool")
FALSE: Term = ("const", False, "bool")


def const(v: Any) -> Term:
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return ("const", v)


def is_const(t: Term) -> bool:
    return t[0] == "const"


def sym(name: str, typ: str | None = None) -> Term:
    return ("sym", name, typ)


def as_text(v: Any) -> str | None:
    """The string a constant contributes to a concatenation."""
    if isinstance(v, bytes):
        try:
            return v.decode()
        except UnicodeDecodeError:
            return None
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, (int, float, str)):
        return str(v)
    return None


def cat(*parts: Term) -> Term:
    """String concatenation in normal form: flat, with constants merged."""
    out: list[Term] = []
    for p in parts:
        p = strip_text(p)
        items = p[1] if p[0] == "cat" else (p,)
        for q in items:
            q = strip_text(q)
            if q[0] == "const":
                text = as_text(q[1])
                if text is not None:
                    if text == "":
                        continue
                    if out and out[-1][0] == "const":
                        out[-1] = ("const", out[-1][1] + text)
                    else:
                        out.append(("const", text))
                    continue
            out.append(q)
    if not out:
        return ("const", "")
    if len(out) == 1 and out[0][0] == "const":
        return out[0]
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


def strip_text(t: Term) -> Term:
    """Drop conversions that do not change the text of a value."""
    while True:
        if t[0] == "text":  # str(x), x.encode(), x.decode(), tostring(x)
            t = t[1]
        else:
            return t


def text(t: Term) -> Term:
    """The value rendered as text (str/encode/decode/tostring/tonumber)."""
    if t[0] == "const" and isinstance(t[1], bytes):
        s = as_text(t[1])
        return ("const", s) if s is not None else t
    if t[0] == "const" and isinstance(t[1], str):
        return t
    if t[0] in ("text", "cat"):
        return t
    return ("text", t)


_norm: dict[Any, Any] = {}


def norm(t: Any) -> Any:
    """Normal form for comparing Redis arguments: conversions dropped, bytes
    and str constants identified."""
    if not isinstance(t, (tuple, frozenset)) or not t:
        return t
    try:
        return _norm[t]
    except KeyError:
        pass
    except TypeError:
        return _normal(t)
    r = _normal(t)
    if len(_norm) > 400000:
        _norm.clear()
    _norm[t] = r
    return r


def _normal(t: Any) -> Any:
    if isinstance(t, frozenset):
        return frozenset(norm(x) for x in t)
    if t[0] == "text":
        return norm(t[1])
    if t[0] == "const":
        if len(t) > 1 and isinstance(t[1], bytes):
            s = as_text(t[1])
            if s is not None:
                return ("const", s)
        return t
    if t[0] == "cat":
        return cat(*(norm(x) for x in t[1]))
    if t[0] == "phi":
        alts = frozenset(norm(x) for x in t[1])
        return next(iter(alts)) if len(alts) == 1 else ("phi", alts)
    return tuple(norm(x) if isinstance(x, (tuple, frozenset)) else x for x in t)


KINDS = {
    "const", "sym", "attr", "cat", "text", "call", "op", "reply", "phi", "or",
    "not", "cmp", "index", "elem", "inst", "obj", "func", "bound", "class",
    "module", "coro", "tuple", "len", "exc", "method", "closure", "ext",
    "star", "genexp", "field", "lfunc", "tbl", "await", "partial", "super",
    "cm", "slice", "and", "ifexp", "lambda", "redis", "ctxval", "dictmerge",
    "rest", "iter", "now", "json", "enum",
}


def phi(a: Term, b: Term) -> Term:
    if a == b:
        return a
    sa = a[1] if a[0] == "phi" else frozenset([a])
    sb = b[1] if b[0] == "phi" else frozenset([b])
    s = sa | sb
    if len(s) > 6:
        return ("sym", "*any*", None)
    return ("phi", s)


def alternatives(t: Term) -> frozenset:
    return t[1] if t[0] == "phi" else frozenset([t])


def walk(t: Any):
    """All sub-terms of a term, outermost first."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in KINDS:
            yield t
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from walk(x)
    elif isinstance(t, frozenset):
        for x in t:
            yield from walk(x)


def contains(t: Term, needle: Term) -> bool:
    return any(x == needle for x in walk(t))


def show(t: Any, depth: int = 0) -> str:
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if depth > 6:
        return "…"
    d = depth + 1
    if k == "const":
        return repr(t[1])
    if k == "sym":
        return str(t[1])
    if k == "attr":
        return f"{show(t[1], d)}.{t[2]}"
    if k == "cat":
        return "`" + "".join(x[1] if x[0] == "const" and isinstance(x[1], str) else "{" + show(x, d) + "}" for x in t[1]) + "`"
    if k == "text":
        return show(t[1], d)
    if k == "phi":
        return "(" + " | ".join(sorted(show(x, d) for x in t[1])) + ")"
    if k == "call":
        return f"{t[1] if isinstance(t[1], str) else show(t[1], d)}(" + ", ".join(show(x, d) for x in t[2]) + ")"
    if k == "reply":
        return f"{t[1]}<{', '.join(show(x, d) for x in t[2])}>"
    if k in ("cmp", "op"):
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if k == "not":
        return f"not {show(t[1], d)}"
    if k in ("or", "and"):
        return "(" + f" {k} ".join(show(x, d) for x in t[1]) + ")"
    if k in ("index", "field"):
        return f"{show(t[1], d)}[{show(t[2], d)}]"
    if k in ("inst", "obj"):
        return f"<{t[1]}>"
    if k == "tuple":
        return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
    if k == "bound":
        return f"{show(t[1], d)}.{t[2]}"
    if k in ("func", "class", "module", "ext"):
        return str(t[1])
    return k + "(" + ", ".join(show(x, d) if isinstance(x, tuple) else repr(x) for x in t[1:]) + ")"
