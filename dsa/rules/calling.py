"""What a Lua script is called with: every declared parameter, in its slot, as given."""
from __future__ import annotations

from typing import Any

from .. import lua
from ..model import Path, World
from ..paths import Event
from ..report import Report
from ..scripts import Script, script_of
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, text
from .common import facts

REDIS: Term = ("sym", "redis", "RedisClient")
TYPES = ("str", "bytes", "int", "float", "bool")
BASES = {"bool": ("bool", "int"), "Mapping": ("dict",), "Sequence": ("list", "tuple"), "MutableMapping": ("dict",), "Collection": ("dict", "list", "tuple"), "Iterable": ("dict", "list", "tuple")}


def is_a(ty: str, name: str) -> bool:
    """Whether a value whose class is ty is an instance of a class."""
    name = name.split(".")[-1]
    return ty == name or ty == "bool" and name == "int" or name == "object" or ty in BASES.get(name, ()) and name not in TYPES


class Call:
    """A script's wrapper, built and called with one value per parameter."""

    def __init__(self, w: World, s: Script, variadic: str, of: str):
        self.w, self.s, self.of = w, s, of
        self.kinds = {p.name: p for p in s.params}
        self.types: dict[Term, str] = {}
        self.values: dict[str, Term | list[Term]] = {}
        self.variadic = variadic
        for p in s.params:
            if p.kind == "Args":
                vals = [("sym", f"arg:{p.name}.{i}", of) for i in range(4)]
                self.values[p.name] = vals
                self.types.update({v: of for v in vals})
            else:
                t = p.type if p.type in TYPES else "str"
                v: Term = ("sym", "arg:" + p.name, t)
                self.values[p.name] = v
                self.types[v] = t
        self.lua = ""

    def marker(self, kind: str) -> Term:
        return ("class", self.w.prog.modules["docket._lua"].name + "._" + kind)

    def body(self, it: Any) -> Term:
        f = self.s.func
        fr = self.w.frame("docket._lua")
        self.sig: Term = ("sym", "signature", None)
        params = [a.arg for a in [*f.node.args.args, *f.node.args.kwonlyargs]]
        it.heap[(self.sig, "parameters")] = it.new_dict([(const(n), ("sym", "param:" + n, None)) for n in params])
        self.hints = it.new_dict([(const(n), self.hint(n) if n in self.kinds else ("class", "docket._redis.RedisClient")) for n in params])
        for n, p in self.kinds.items():
            it.heap[(self.hint(n), "__metadata__")] = ("tuple", (self.marker(p.kind),))
            it.heap[(("sym", "param:" + n, None), "annotation")] = self.hint(n)
        fn = it.call_func(self.w.prog.func("redis_script"), [("func", f.qual)], {}, fr, f.node, None)
        it.emit(Event("mark", "built"))
        kw: dict[str, Term] = {}
        for n, v in self.values.items():
            if isinstance(v, list):
                kw[n] = it.new_dict([(v[0], v[1]), (v[2], v[3])]) if self.variadic == "dict" else it.new_list(list(v)) if self.variadic == "list" else ("tuple", tuple(v))
                self.types[norm(kw[n])] = self.variadic
            else:
                kw[n] = v
        return it.await_(it.call_term(fn, [REDIS], kw, fr, f.node), fr, f.node)

    def hint(self, n: str) -> Term:
        return ("sym", "hint:" + n, None)

    def type_args(self, it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term:
        p = self.kinds[str(args[0][1]).split(":")[1]]
        return ("tuple", (("ext", p.type.split("[")[0]), self.marker(p.kind)))

    def isinstance_(self, it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term | None:
        ty = self.types.get(norm(args[0]))
        if ty is None:
            return None
        alts = args[1][1] if args[1][0] == "tuple" else (args[1],)
        return TRUE if any(is_a(ty, it.exc_name(a)) for a in alts) else FALSE

    def typeof(self, it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term | None:
        ty = self.types.get(norm(args[0])) if len(args) == 1 else None
        return ("ext", ty) if ty else None

    def truncated(self, it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term | None:
        ty = self.types.get(norm(args[0])) if len(args) == 1 else None
        return ("call", "truncated", (norm(args[0]),)) if ty not in (None, "int") else None

    def attr(self, it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term | None:
        return it.heap.get((norm(args[0]), args[1][1])) or (args[2] if len(args) > 2 and str(args[0][1]).startswith(("hint:", "param:")) else None)

    def paths(self) -> list[Path]:
        hooks = {
            "inspect.getdoc": lambda it, *a: const(self.s.source), "inspect.signature": lambda it, *a: self.sig, "inspect.cleandoc": lambda it, *a: const(self.s.source),
            "typing.get_type_hints": lambda it, *a: self.hints, "inspect.get_annotations": lambda it, *a: self.hints, "typing.get_args": self.type_args,
            "typing.get_origin": lambda it, fn, args, *a: ("ext", "typing.Annotated") if str(args[0][1]).startswith("hint:") else None, "int": self.truncated,
            "getattr": self.attr, "isinstance": self.isinstance_, "type": self.typeof,
        }
        return self.w.paths(f"redis_script({self.s.func.name}, {self.variadic} of {self.of})", self.body, inline=lambda f: True, hooks=hooks, exact=True, summarise=lambda f: False, budget=2000)


def c29(w: World, r: Report) -> None:
    r.explain.append("The decorator that turns a declared script into a function is partially evaluated on the declaration of each script of the package: the Lua text it loads is parsed, and the keys and arguments the "
                     "wrapper sends, for a value of each type, are matched slot by slot with the names that text binds. That calls name every parameter, and that scripts read no other names, is checked wherever a script is called.")
    slot = r.rule("C29.slots", "each declared parameter is bound, under its own name, to the slot its caller's value is put in")
    code = r.rule("C29.values", "decoding a slot gives back the value passed: text and bytes as they are, numbers as the number written, truth as true or false")
    rest = r.rule("C29.rest", "variable arguments follow all others, each field before its value, and their name says where they start")
    send = r.rule("C29.sent", "the text loaded is the bindings followed by the whole declared body, the text hashed is the text loaded, and each call runs it once on the client given and returns its reply")
    none = r.rule("C29.refused", "a value that is none of text, bytes, number or truth is refused before anything is sent")
    for s in [script_of(w.prog, f) for f in w.prog.scripts().values()]:
        many = any(p.kind == "Args" for p in s.params)
        first = True
        for variadic, of in ([("dict", t) for t in TYPES] + [("list", "str"), ("list", "bool"), ("tuple", "int")] if many else [("", "")]):
            check(w, r, Call(w, s, variadic, of), slot, code, rest, send, first)
            first = False
    refused(w, r, none)
    for rule, least in ((slot, 60), (code, 60), (rest, 4), (send, 12), (none, 2)):
        r.expect(rule, least)


def bindings(r: Report, rule: str, c: Call, full: str) -> tuple[dict[str, lua.Node], bool]:
    """The names the text binds before the declared body."""
    at = full.find(c.s.source)
    if at < 0:
        return {}, False
    out: dict[str, lua.Node] = {}
    for n in lua.parse(full[:at]):
        if n.kind != "local":
            return out, False
        for name, v in zip(n.names, n.values):
            out[name] = v
    return out, full[at:].strip() == c.s.source.strip()


def number(n: lua.Node) -> int | None:
    return int(n.value) if n.kind == "const" and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) else None


def slot_of(n: lua.Node) -> tuple[str, int] | None:
    """KEYS[i] or ARGV[i] within an expression."""
    if n.kind == "index" and n.base.kind == "name" and n.base.name in ("KEYS", "ARGV") and number(n.key) is not None:
        return n.base.name, number(n.key) or 0
    for v in n.f.values():
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, lua.Node) and (s := slot_of(x)):
                return s
    return None


def decode(n: lua.Node, sent: Term) -> Any:
    """What an expression makes of the text in its slot."""
    if n.kind == "index":
        return ("raw", sent)
    if n.kind == "paren":
        return decode(n.value, sent)
    if n.kind == "call" and n.func.kind == "name" and n.func.name == "tonumber" and len(n.args) == 1 and n.args[0].kind == "index":
        return ("number", sent)
    if n.kind == "binop" and n.op in ("==", "~="):
        sides = [n.left, n.right]
        lit = next((x for x in sides if x.kind == "const" and isinstance(x.value, str)), None)
        if lit is not None and any(x.kind == "index" for x in sides) and sent[0] == "const":
            return (str(sent[1]) == lit.value) == (n.op == "==")
    return ("other", n)


def check(w: World, r: Report, c: Call, slot: str, code: str, rest: str, send: str, first: bool) -> None:
    name = c.s.func.name
    where = f"redis_script({name})"
    for p in c.paths():
        if not r.require(p.outcome == "ok", send, where + "/built", f"a call of the script fails with {show(p.value)[:80]}", p):
            continue
        made = [e for e in p.trace if e.kind == "new" and e.name.endswith("AsyncScript")]
        built = next(i for i, e in enumerate(p.trace) if e.kind == "mark" and e.name == "built")
        if not r.require(len(made) == 1, send, where + "/script", f"{len(made)} scripts are made of it", p):
            continue
        script = made[0].result
        given = [*made[0].args[1:], *(v for k, v in made[0].kwargs if k == "script")]
        texts = [e.args[1] for e in p.trace if e.kind == "assign" and e.name == "script" and norm(e.args[0]) == norm(script)] or given
        full = as_text(texts[-1])
        hashed = as_text(given[0]) if given else None
        calls = [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and e.name.startswith("<") and "AsyncScript" in e.name]
        if not r.require(full is not None and full == hashed, send, where + "/hash", "the text hashed is not the text loaded", p, made[0]):
            continue
        bound, whole = bindings(r, send, c, full)
        r.require(whole, send, where + "/body", "the text loaded is not the bindings and the declared body", p, made[0])
        if not r.require(len(calls) == 1 and calls[0][0] > built, send, where + "/called", f"one call runs the script {len(calls)} times", p, calls[-1][1] if calls else None):
            continue
        e = calls[0][1]
        kw = dict(e.kwargs)
        pos = list(e.args)
        keys, argv = kw.get("keys", pos[0] if pos else NONE), kw.get("args", pos[1] if len(pos) > 1 else NONE)
        client = kw.get("client", pos[2] if len(pos) > 2 else NONE)
        r.require(norm(client) == REDIS, send, where + "/client", f"the script runs on {show(client)[:60]}", p, e)
        r.require(norm(p.value) == norm(e.result), send, where + "/reply", f"the call returns {show(p.value)[:60]} instead of the script's reply", p, e)
        ks, vs = elements(keys), elements(argv)
        if not r.require(ks is not None and vs is not None, slot, where + "/lists", f"keys and arguments are {show(keys)[:60]} and {show(argv)[:60]}", p, e):
            continue
        lists = {"KEYS": ks, "ARGV": vs}
        used: set[tuple[str, int]] = set()
        for q in c.s.params:
            here = f"{where}.{q.name}"
            want = c.values[q.name]
            if q.kind == "Args":
                n = bound.get(q.name + "_start")
                if not r.require(n is not None and number(n) is not None, rest, here + "/start", f"{q.name}_start is not bound", p, e):
                    continue
                start = number(n) or 0
                tail = vs[start - 1:]
                if r.require(len(tail) == 4 and start >= 1, rest, here + "/last", f"{len(tail)} of its 4 values follow slot {start}", p, e):
                    for t, v in zip(tail, want):
                        r.require(encoded(c, p, t, v, None), rest, here + f"/{c.of}", f"a {c.of} is sent as {show(t)[:60]}", p, e)
                used |= {("ARGV", i) for i in range(start, len(vs) + 1)}
                continue
            n = bound.get(q.name)
            at = slot_of(n) if n is not None else None
            kind = "KEYS" if q.kind == "Key" else "ARGV"
            if not r.require(at is not None and at[0] == kind and 1 <= at[1] <= len(lists[kind]), slot, here + "/bound", f"{q.name} is bound to {at}", p, e):
                continue
            assert at is not None and n is not None
            sent = lists[kind][at[1] - 1]
            used.add(at)
            r.require(mentions(c, p, sent, want), slot, here, f"{q.name} is bound to {at[0]}[{at[1]}], where {show(sent)[:80]} is put", p, e)
            r.require(encoded(c, p, sent, want, n), code, here + "/value", f"{q.name}, sent as {show(sent)[:60]}, does not come back from {kind}[{at[1]}]", p, e)
        if first:
            r.require(len(used) == len(ks) + len(vs), slot, where + "/all", f"{len(ks) + len(vs)} values are sent and {len(used)} are bound", p, e)


def as_text(t: Term) -> str | None:
    t = norm(t)
    while t[0] == "call" and t[1] in ("encode", "str.encode") and t[2]:
        t = norm(t[2][0])
    if t[0] == "const" and isinstance(t[1], (str, bytes)):
        return t[1].decode() if isinstance(t[1], bytes) else t[1]
    return None


def elements(t: Term) -> list[Term] | None:
    t = norm(t)
    if t[0] == "tuple":
        return [norm(x) for x in t[1]]
    if t[0] == "call" and t[1] in ("list", "tuple") and all(isinstance(x, tuple) for x in t[2]):
        return [norm(x) for x in t[2]]
    return None


def truth_on(p: Path, v: Term) -> bool | None:
    return next((x for c, x in facts(p) if c == ("truth", v)), None)


def mentions(c: Call, p: Path, sent: Term, want: Any) -> bool:
    return repr(norm(want)) in repr(sent) or c.types.get(want) == "bool"


def encoded(c: Call, p: Path, sent: Term, want: Any, n: lua.Node | None) -> bool:
    """Whether what is sent stands for the value given, and is decoded to it."""
    ty = c.types.get(want)
    got = decode(n, sent) if n is not None else ("number", sent) if ty in ("int", "float") else ("raw", sent)
    if ty in ("str", "bytes"):
        return got == ("raw", want) or ty == "str" and got == ("raw", norm(text(want)))
    if ty in ("int", "float"):
        return got in (("number", want), ("number", norm(text(want))), ("number", ("call", "repr", (want,))))
    if ty == "bool":
        v = truth_on(p, want)
        if n is None:
            return sent == const("1" if v else "0") and v is not None
        return v is not None and got is v
    return False


def refused(w: World, r: Report, none: str) -> None:
    s = next(x for x in (script_of(w.prog, g) for g in w.prog.scripts().values()) if any(q.kind == "Arg" for q in x.params))
    for ty in ("NoneType", "object"):
        c = Call(w, s, "dict", "str")
        for q in s.params:
            if q.kind == "Arg":
                v: Term = ("sym", "arg:" + q.name, ty)
                c.values[q.name] = v
                c.types[v] = ty
                break
        c.of = ty
        for p in c.paths():
            sent = [e for e in p.trace if e.kind == "call" and e.name.startswith("<") and "AsyncScript" in e.name]
            r.require(p.outcome == "raise" and not sent, none, f"redis_script({s.func.name})/{ty}", "an unsupported value is sent", p, sent[0] if sent else None)
