"""Where a docket keeps what it keeps: under its own prefix, in one cluster slot."""
from __future__ import annotations

import ast
from typing import Any

from ..message import message_fields
from ..model import DOCKET, Path, World
from ..paths import Event
from ..program import Func
from ..redismodel import COMMANDS
from ..report import Report
from ..scripts import script_of
from ..terms import NONE, Term, const, norm, show, walk
from .gates import ambient
from .loop import loop_paths, runs_spawned, spawned_run

ELSEWHERE = ("_redis", "_redis_sentinel", "testing", "_lua", "_prometheus_exporter", "_result_store", "_telemetry", "instrumentation", "_uuid7", "annotations", "agenda", "__main__", "__init__")
NO_KEYS = {"EXEC", "WATCH", "UNWATCH", "MULTI", "PIPELINE", "GET_MESSAGE", "PING", "UNSUBSCRIBE", "PUNSUBSCRIBE", "LISTEN", "TIME", "RESET", "ACLOSE", "CLOSE", "SCRIPT"}
ALL_KEYS = {"DEL", "EXISTS", "UNLINK", "MGET", "TOUCH"}
CALLS = set(COMMANDS) | {"publish", "subscribe", "psubscribe", "lock", "_publish", "pipeline"}


def entries(w: World) -> dict[str, Func]:
    """The functions that send commands or call scripts themselves."""
    scripts = {f.name for f in w.prog.scripts().values()}
    out = {}
    for q, f in w.prog.funcs.items():
        if f.module.name.split(".")[-1] in ELSEWHERE or ".cli" in "." + f.module.name or f.has("redis_script") or "<locals>" in q:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                if name in scripts or isinstance(n.func, ast.Attribute) and name in CALLS and redis_like(n.func.value):
                    out[q] = f
                    break
    return out


def redis_like(e: ast.expr) -> bool:
    """A receiver that could be a client: not a context variable or a dict of the package."""
    s = ast.unparse(e)
    return not s.startswith("current_") and not s.startswith(("logger", "self.tasks"))


def keys_of(e: Event) -> list[Term]:
    args = list(e.args)
    if e.name in NO_KEYS:
        return []
    if e.name in ("XREAD", "XREADGROUP"):
        streams = dict(e.kwargs).get("streams") or (args[2] if e.name == "XREADGROUP" and len(args) > 2 else args[0] if args else None)
        n = norm(streams) if streams is not None else NONE
        return [x[1][0] for x in n[2] if x[0] == "tuple"] if n[0] == "call" and n[1] == "dict" else [x for x in [n] if x != NONE]
    if e.name in ALL_KEYS | {"SUBSCRIBE", "PSUBSCRIBE"}:
        return args
    return args[:1]


def head(k: Term) -> tuple[Term, Term | None]:
    """What a key begins with, and what follows."""
    k = norm(k)
    if k[0] == "call" and str(k[1]).split(".")[-1] in ("sub", "encode", "decode", "str", "escape") and k[2]:
        return head(k[2][2] if str(k[1]).endswith("sub") and len(k[2]) > 2 else k[2][0])
    if k[0] == "cat":
        a, b = head(k[1][0])
        return a, b if b is not None else norm(k[1][1]) if len(k[1]) > 1 else None
    return k, None


def stored(t: Term) -> bool:
    """A key read back from the store."""
    return any(x[0] in ("reply", "field") for x in walk(t)) or t[0] in ("elem",) and any(x[0] == "reply" for x in walk(t))


def type_of(w: World, t: Term) -> str | None:
    if t[0] in ("sym", "inst"):
        return t[2] if t[0] == "sym" else t[1]
    if t[0] == "attr":
        c = w.prog.cls(type_of(w, t[1]))
        return w.prog.attr_type(c, t[2]) if c else None
    return None


def is_prefix(t: Term) -> bool:
    return t[0] == "call" and t[1] == "prefix"


def c34(w: World, r: Report) -> None:
    r.explain.append("Every function of the package that sends a command or calls a script is evaluated by itself for unknown arguments, and the key of every command on every path, those inside the scripts included, is followed to "
                     "what it begins with: the docket's prefix, a parameter (then every caller is held to it), an attribute (then every assignment is), or a custom scope.")
    own = r.rule("C34.own", "every key and channel begins with the docket's own prefix and a colon, or with a custom scope")
    one = r.rule("C34.slot", "the keys of one script or transaction share one prefix, or one hash tag")
    pre = r.rule("C34.prefix", "the prefix is the docket's name, in a cluster set in braces")
    todo = entries(w) | w.prog.scripts()
    owed: dict[tuple[str, str], set[str]] = {}
    attrs: dict[tuple[str, str], str] = {}
    every: dict[str, list[Path]] = {}
    def local(f: Func) -> list[Path]:
        if f.qual not in every and f.has("redis_script"):
            sc = script_of(w.prog, f)
            kw: dict[str, Term] = {q.name: ("sym", q.name, q.type if q.type in ("int", "float", "bool") else "str" if q.kind != "Args" else None) for q in sc.params}
            every[f.qual] = w.paths("keys of " + f.qual, lambda it: it.call_script(f, [("sym", "redis", "RedisClient")], dict(kw), w.frame(f.module.name), f.node), budget=20000, message_fields=message_fields(w.prog))
        if f.qual.endswith("Worker._worker_loop"):
            every[f.qual] = loop_paths(w, "keys", None, lambda e, trace: spawned_run(e) and bool(runs_spawned(trace)), whiles=1)
        if f.qual not in every:
            def body(it: Any) -> Term:
                recv: Term | None = None
                if f.cls is not None and not f.has("staticmethod"):
                    recv = DOCKET if f.cls in w.prog.mro(w.prog.klass("Docket")) else w.worker(it) if f.cls in w.prog.mro(w.prog.klass("Worker")) else ("class", f.cls.qual) if f.has("classmethod") else ("sym", "self", f.cls.qual)
                v = w.call(it, recv, f.qual)
                for e in list(it.run.trace):     # what is left to be called when a scope ends
                    if e.kind in ("call", "push") and ("push" in e.name or "callback" in e.name):
                        for i, t in enumerate(e.args):
                            if t[0] == "closure" and t[2] in it.closures:
                                rest = [] if "callback" in e.name else [NONE] * 3
                                fr = w.frame(f.module.name)
                                it.await_(it.call_term(t, list(e.args[i + 1:]) + rest, dict(e.kwargs), fr, f.node), fr, f.node)
                return v
            names = set(todo) - {f.qual}
            every[f.qual] = w.paths("keys of " + f.qual, body, whiles=1, budget=20000, lua=False, hooks=ambient(w), inline=lambda g: g.qual not in names and ("<locals>" in g.qual or not (g.is_async and w.prog.has_loop(g) and g.qual != f.qual)))
        return every[f.qual]
    for q, f in sorted(todo.items()):
        for p in local(f):
            judge(w, r, f, p, own, one, owed, attrs)
    # every caller of a function given a key, and every assignment of an attribute used as one
    seen: dict[tuple[str, str], set[str]] = {}
    done: set[tuple[str, str]] = set()
    while any(owed[k] - seen.get(k, set()) for k in owed) or attrs.keys() - done:
        while any(owed[k] - seen.get(k, set()) for k in owed):
            fq, param = sorted(k for k in owed if owed[k] - seen.get(k, set()))[0]
            f = w.prog.funcs[fq]
            bare = owed[(fq, param)] - seen.get((fq, param), set())
            seen.setdefault((fq, param), set()).update(bare)
            n = 0
            for q, g in w.prog.funcs.items():
                if "<locals>" in q or g.has("redis_script") or g.module.name.split(".")[-1] in ELSEWHERE or not any(isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) in (f.name, f.cls.name if f.cls is not None and f.name == "__init__" else f.name) for x in ast.walk(g.node)):
                    continue
                if not any(fq in repr(e.name) or f.name == "__init__" and e.kind == "new" or e.kind != "assign" and fq in repr((e.args, e.kwargs)) for p in local(g) for e in p.trace):
                    continue
                for p in local(g):
                    for e in p.trace:
                        k = passed(f, param, e)
                        if k is not None:
                            n += 1
                            for then in sorted(bare):
                                follow(w, r, own, g, p, e, k, owed, attrs, then)
            inner = [q for q, g in w.prog.funcs.items() for d in ast.walk(g.node) if d is not g.node and isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and f.name == "__init__" and f.cls is not None
                     and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == f.cls.name for x in ast.walk(d))]
            r.require(n > 0 and not inner, own, f"{f.cls.name + '.' if f.cls else ''}{f.name}({param})/callers", f"{inner[0] if inner else 'no call'} gives it a key that cannot be followed to the prefix")
        while attrs.keys() - done:
            cls, attr = sorted(attrs.keys() - done)[0]
            done.add((cls, attr))
            n = 0
            c = w.prog.klass(cls)
            init = w.prog.method(c, "__init__")
            for g in ([init] if init is not None else []) + [g for g in w.prog.funcs.values() if g is not init and "<locals>" not in g.qual and g.module.name.split(".")[-1] not in ELSEWHERE
                     and any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for x in ast.walk(g.node))]:
                for p in local(g):
                    for e in p.trace:
                        if e.kind == "assign" and e.name == attr and norm(e.args[1]) != NONE and type_of(w, e.args[0]) in (None, c.qual):
                            n += 1
                            follow(w, r, own, g, p, e, e.args[1], owed, attrs)
            r.require(n > 0, own, f"{cls}.{attr}/set", "is never set")
    prefix(w, r, pre)
    for rule, least in ((own, 200), (one, 40), (pre, 2)):
        r.expect(rule, least)


def passed(f: Func, param: str, e: Event) -> Term | None:
    """What an event passes as a parameter of a function: by calling it, by
    leaving it to be called, or by scheduling it."""
    if e.kind in ("call", "script") and e.name == f.qual:
        return dict(e.kwargs).get(param)
    names = [a.arg for a in f.node.args.args]
    if f.cls is not None and not f.has("staticmethod"):
        names = names[1:]
    def given(args: Any, kwargs: Any) -> Term | None:
        kw = dict(kwargs)
        return kw[param] if param in kw else args[names.index(param)] if param in names and names.index(param) < len(args) else None
    if e.kind == "new" and e.name.endswith(".Execution") and len(e.args) > 3 and f.qual in repr(e.args[1]):
        a, k = norm(e.args[2]), norm(e.args[3])
        return given(a[1] if a[0] == "tuple" else (), [(str(x[1][0][1]), x[1][1]) for x in k[2]] if k[0] == "call" and k[1] == "dict" else [])
    if f.name == "__init__" and f.cls is not None and e.kind == "new" and e.name == f.cls.qual:
        return given(e.args, e.kwargs)
    if e.kind in ("call", "push", "spawn"):
        for i, t in enumerate(e.args if "push" in e.name or "callback" in e.name else ()):
            if t[0] == "partial" and t[1][-1] == f.qual:
                return given(t[2], t[3] if len(t) > 3 else ())
            if t[0] in ("bound", "func") and t[-1] == f.qual and i > 0:
                return given(e.args[i + 1:], e.kwargs)
    return None


def colon(b: Term | None) -> bool:
    return b is not None and b[0] == "const" and str(b[1]).startswith(":")


def follow(w: World, r: Report, own: str, f: Func, p: Path, e: Event, k: Term, owed: dict, attrs: dict, then: str = "") -> Term | None:
    a, b = head(k)
    if b is None and then:
        b = const(then)
    where = f"{f.qual.split('.', 1)[1]}/{e.name.split('.')[-1]}"
    if a[0] == "star" or a[0] == "call" and str(a[1]).startswith("comp:") or stored(a):
        return None
    if is_prefix(a):
        r.require(colon(b), own, where, f"the key {show(k)[:120]} runs the prefix into what follows", p, e)
        return a
    if a[0] == "index" and a[1][0] == "sym":
        a = a[1]
    if a[0] == "sym" and a[1] in [x.arg for x in [*f.node.args.args, *f.node.args.kwonlyargs]] and not custom(a):
        want = str(b[1]) if b is not None and b[0] == "const" else ""
        owed.setdefault((f.qual, str(a[1])), set()).add(want)
        return None
    if a[0] == "attr" and not custom(a):
        c = w.prog.cls(type_of(w, a[1]))
        if c is not None and a[2] == "name" and w.prog.method(c, "prefix") is not None:
            # its bare name is its prefix only without a connection
            alone = any(x[0] == "cmp" and x[1] == "==" and NONE in x[2:4] and ("attr", a[1], "_redis") in x[2:4] and v for x, v in p.run.facts.items())
            r.require(alone and c.name != "Docket" and colon(b), own, where, f"the key {show(k)[:120]} is under the name and not the prefix", p, e)
            return None
        if c is not None:
            attrs.setdefault((c.name, a[2]), where)
            return None
    if custom(a):
        r.require(True, own, where, "", p, e)
        return None
    r.require(False, own, where, f"the key {show(k)[:120]} is not under the docket's prefix", p, e)
    return None


def custom(a: Term) -> bool:
    """A scope given to a dependency, instead of the docket's prefix."""
    return a[0] == "sym" and a[1] == "scope" or a[0] == "attr" and a[2] == "scope" or a[0] == "or" and custom(norm(a[1][0])) and all(custom(norm(x)) or is_prefix(norm(x)) for x in a[1])


def judge(w: World, r: Report, f: Func, p: Path, own: str, one: str, owed: dict, attrs: dict) -> None:
    found: dict[Any, list[tuple[Event, Term, Term | None]]] = {}
    for e in p.trace:
        ks: list[Term]
        if e.kind in ("redis", "queued"):
            ks = keys_of(e)
        elif e.kind == "cm" and e.name == "enter:redis.lock" and e.args and e.args[0][0] == "call" and e.args[0][2]:
            ks = [e.args[0][2][0]]
        elif e.kind == "script" and not f.has("redis_script"):
            sc = script_of(w.prog, w.prog.funcs[e.name])
            ks = [v for k, v in e.kwargs if any(q.name == k and q.kind == "Key" for q in sc.params)]
        else:
            continue
        for k in ks:
            k = norm(k)
            for x in (k[1] if k[0] == "tuple" else (k,)):
                a = follow(w, r, own, f, p, e, x, owed, attrs)
                if e.unit and e.name not in ("PUBLISH", "SUBSCRIBE", "PSUBSCRIBE"):
                    found.setdefault(e.unit, []).append((e, norm(x), a))
    for unit, ks3 in found.items():
        heads = {a for _, _, a in ks3 if a is not None}
        r.require(len(heads) <= 1, one, f.qual.split(".", 1)[1], "one transaction takes keys of two dockets", p, ks3[-1][0])
        odd = {k: e for e, k, a in ks3 if a is None and custom(head(k)[0])}
        if odd:
            same = len(odd) == 1 or len({tag(k) for k in odd}) == 1 and tag(next(iter(odd))) is not None
            r.require(same and not heads, one, f.qual.split(".", 1)[1] + "/scope", "one transaction takes keys of a custom scope in different slots", p, next(iter(odd.values())))


def tag(k: Term) -> tuple | None:
    """The part of a key up to the end of the braces that place it."""
    parts = list(norm(k)[1]) if norm(k)[0] == "cat" else []
    opened = False
    for i, x in enumerate(parts):
        if x[0] == "const":
            s = str(x[1])
            at = s.rfind("{") if not opened else -1
            if at >= 0 and "}" not in s[at:]:
                opened = True
            elif opened and "}" in s:
                return (*parts[:i], s[:s.index("}") + 1])
    return None


def prefix(w: World, r: Report, pre: str) -> None:
    name: Term = ("sym", "name", "str")
    hooks = {"docket._redis.RedisConnection.prefix": lambda *a: None}
    seen = set()
    conn: Term = ("sym", "connection", "docket._redis.RedisConnection")
    for p in w.paths("prefix", lambda it: w.call(it, conn, "RedisConnection.prefix", [name]), inline=lambda f: f.name == "prefix", hooks=hooks):
        cluster = next((v for c, v in p.run.facts.items() if "is_cluster" in repr(c)), None)
        seen.add(cluster)
        v = norm(p.value)
        want = ("cat", (const("{"), name, const("}"))) if cluster else name
        r.require(cluster is not None and v == norm(want), pre, "RedisConnection.prefix", f"{'in a cluster' if cluster else 'elsewhere'} the prefix is {show(v)[:80]}", p)
    r.require(seen == {True, False}, pre, "RedisConnection.prefix/cluster", "the prefix does not tell a cluster from a single server")
