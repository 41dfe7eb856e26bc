"""What a task carries between processes: its message and its record."""
from __future__ import annotations

from typing import Any

from ..delta import GONE
from ..message import message_fields
from ..model import DOCKET, Path, World
from ..paths import Event
from ..program import all_args
from ..report import Report
from ..scripts import script_of
from ..terms import NONE, Term, const, norm, show, walk
from .common import KEY, STREAM, facts, hgetall_field, replies, runs, scheduling_paths
from .loop import execution_of, loop_paths, runs_spawned, spawned_run
from .results import INVERSE, fields, syncing
from .schedule import attempts

FIELDS = ("key", "when", "function_name", "args", "kwargs", "attempt", "generation")
CARRIED = (*FIELDS, "function", "redelivered", "message_id", "trace_context")
REDELIVERED: Term = ("sym", "redelivered", "bool")
FALLBACK: Term = ("sym", "fallback_task", "Callable|None")
ID: Term = ("sym", "message_id", "bytes")


def undo(t: Any) -> Any:
    """A value with every decoding of its own encoding removed."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "attr" or not t or not isinstance(t[0], str):
        return tuple(undo(x) for x in t)
    t = norm(tuple(undo(x) for x in t))
    if t[0] in ("text", "bytes") and len(t) == 2:
        return t[1]
    if t[0] == "or" and len(t[1]) == 2 and t[1][0][0] == "or":   # (a or b) or c
        return ("or", (*t[1][0][1], *t[1][1:])) if t[1][0][1][-1][0] == "const" else t[1][0] if t[1][0][1][-1][0] == "attr" and t[1][0][1][-1][2] == "__name__" else t
    if t[0] == "call" and t[2]:
        name = str(t[1]).split(".")[-1]
        x = t[2][0]
        inner = str(x[1]).split(".")[-1] if x[0] == "call" and x[2] else ""
        if name in ("int", "float", "str", "decode", "encode", "bytes") and len(t[2]) == 1:
            return x
        if name == "fromisoformat" and inner == "isoformat" and precise(x):
            return x[2][0]
        if name == "fromtimestamp" and inner == "timestamp" and len(t[2]) == 2 and "utc" in repr(t[2][1]).lower():
            return x[2][0]
        if inner and INVERSE.get(inner) == name and len(t[2]) == 1:
            a, b = str(t[1]).rsplit(".", 1)[0], str(x[1]).rsplit(".", 1)[0]
            if a == b or {a, b} == {"cloudpickle", "pickle"}:
                return x[2][0]
    return t


def precise(x: Term) -> bool:
    """isoformat() written without losing precision."""
    for a in x[2][1:]:
        v = a[1][1] if a[0] == "tuple" and len(a[1]) == 2 and a[1][0] in (const("sep"), const("timespec")) else a
        if v[0] != "const" or v[1] not in ("T", " ", "auto", "microseconds"):
            return False
    return True


def place(t: Any, look: Any) -> Any:
    """A value with the parts ``look`` knows replaced."""
    if not isinstance(t, tuple):
        return t
    got = look(t)
    if got is not None:
        return got
    return tuple(place(x, look) for x in t)


def registered(w: World, name: Term) -> Any:
    def is_lookup(t: Term) -> bool:
        return t[0] in ("call", "index") and (t[0] == "index" and t[1] == ("attr", DOCKET, "tasks") and norm(t[2]) == name or
                                              t[0] == "call" and t[1] == "get" and t[2][:2] == (("attr", DOCKET, "tasks"), name))
    return is_lookup


def found(p: Path, name: Term) -> bool | None:
    """Whether a path found the name among the registered functions."""
    tasks = ("attr", DOCKET, "tasks")
    for c, v in facts(p):
        if c[0] == "truth" and c[1][0] == "call" and c[1][1] == "get" and c[1][2][:2] == (tasks, name):
            return v
        if c[0] == "cmp" and c[1] == "in" and (norm(c[2]), norm(c[3])) == (name, tasks):
            return v
        if c[0] == "cmp" and c[1] == "==" and NONE in (norm(c[2]), norm(c[3])):
            x = norm(c[2]) if norm(c[3]) == NONE else norm(c[3])
            if x[0] == "call" and x[1] == "get" and x[2][:2] == (tasks, name):
                return not v
    return None


def either(name: Term) -> Term:
    get = ("call", "get", (("attr", DOCKET, "tasks"), name), "Callable[None,typing.Any]")
    return norm(("or", (get, norm(FALLBACK))))


def attrs(w: World, it: Any, e: Term, names: tuple[str, ...]) -> None:
    fr = w.frame("docket.execution")
    for a in names:
        it.emit(Event("mark", a, (it.freeze(it.get_attr(e, a, fr, None)),)))


def marks(p: Path) -> dict[str, Term]:
    return {e.name: norm(e.args[0]) for e in p.trace if e.kind == "mark" and e.args}


def carried(w: World, old: bool) -> list[Path]:
    """Paths of reading a message: one written from an execution, or one of an
    earlier version, without a generation."""
    def body(it: Any) -> Term:
        e = w.execution(it)
        attrs(w, it, e, ("function_name",))
        m = w.call(it, e, "Execution.as_message")
        frozen = it.freeze(m)
        it.emit(Event("mark", "message", (frozen,)))
        if old:
            got = fields(norm(frozen)) or []
            m = it.new_dict([(k, v) for k, v in got if k != const("generation")])
        g = w.call(it, None, "Execution.from_message", [DOCKET, m], {"redelivered": REDELIVERED, "fallback_task": FALLBACK, "message_id": ID})
        attrs(w, it, g, tuple("got " + a if False else a for a in CARRIED))
        return g
    return w.paths(f"Execution.from_message({'older message' if old else 'as_message'})", body, inline=lambda f: True, hooks={w.prog.func("Execution.sync").qual: syncing})


def original(p: Path) -> Term:
    return next(norm(e.args[0]) for e in p.trace if e.kind == "mark" and e.name == "function_name")


SOURCE: dict[str, Term] = {"key": KEY, "when": ("sym", "when", "datetime.datetime"), "attempt": ("sym", "attempt", "int"), "generation": ("sym", "generation", "int")}


def same(name: str, got: Term, orig: Term) -> bool:
    if name == "function_name":
        return got == orig or got[0] == "or" and got[1][0] == orig
    if name in SOURCE:
        return got == SOURCE[name]
    return got[0] == "sym" and got[1] == name


def c11(w: World, r: Report) -> None:
    r.explain.append("Execution.from_message is evaluated symbolically on the result of Execution.as_message for an unknown execution, and Docket.get_execution on the record the scheduling paths write; each attribute "
                     "of the execution read must reduce to the attribute written, by cancelling decodings against their own encodings only.")
    whole = r.rule("C11.whole", "a message is read back with the key, time, function name, arguments, attempt and generation it was written with")
    lookup = r.rule("C11.lookup", "the function is the one registered under the message's name; an unknown name runs the fallback if there is one, under its own name, and is refused with ValueError otherwise")
    older = r.rule("C11.older", "a message of an earlier version, without a generation, is read as untracked")
    trace = r.rule("C11.trace", "the trace context is injected into the message sent and extracted from the message received, by inverse access")
    delivery = r.rule("C11.delivery", "a worker reads each delivery from the message and identifier of the same entry, reclaimed ones as redelivered, with its fallback")
    handle = r.rule("C11.handle", "get_execution finds every recorded task, under its key, and reads function name, arguments and time as they were recorded")

    n = 0
    for old in (False, True):
        for p in carried(w, old):
            orig = original(p)
            isin = found(p, orig)
            where = "Execution.from_message"
            both = p.fact(("truth", either(orig)))
            if p.fact(("cmp", "==", either(orig), NONE)) is not None:
                both = not p.fact(("cmp", "==", either(orig), NONE))
            if p.outcome == "raise" and both is False:   # neither registered nor a fallback
                isin, fb = False, True
            elif p.outcome == "raise":
                fb = p.fact(("cmp", "==", norm(FALLBACK), NONE))
                if fb is None:
                    t = p.fact(("truth", norm(FALLBACK)))
                    fb = None if t is None else not t
            if p.outcome == "raise":
                r.require(isin is False and fb is True, lookup, where + "/refused", "a message that could be run is refused", p)
                r.require(p.value is not None and p.value[0] == "exc" and p.value[1] == "ValueError", lookup, where + "/error", f"an unknown function raises {show(p.value)[:60]}", p)
                continue
            got = marks(p)
            n += 1
            for a in FIELDS:
                if a == "generation" and old:
                    r.require(undo(got[a]) == const(0) or got[a] in (const(0), const("0")), older, where, f"a message without a generation is read as generation {show(got[a])[:60]}", p)
                else:
                    g = undo(got[a])
                    r.require(same(a, g, orig), whole, f"{where}/{a}", f"the {a} read back is {show(g)[:120]}", p)
            for a, v in (("redelivered", REDELIVERED), ("message_id", ID)):
                r.require(got[a] == norm(v), delivery, f"{where}/{a}", f"the {a} given becomes {show(got[a])[:60]}", p)
            fn = got["function"]
            lookups = registered(w, orig)
            if fn == either(orig):
                r.require(both is True, lookup, where + "/function", "the function may be neither registered nor a fallback", p)
                n += 1
            elif fn == norm(FALLBACK):
                r.require(isin is False, lookup, where + "/fallback", "the fallback replaces a registered function", p)
                r.require(p.fact(("cmp", "==", norm(FALLBACK), NONE)) is False or p.fact(("truth", norm(FALLBACK))) is True, lookup, where + "/no-fallback", "an unknown function is run without a fallback", p)
            else:
                r.require(lookups(fn) and isin is True, lookup, where + "/function", f"the function is {show(fn)[:80]}", p)
            tc = got["trace_context"]
            mess = next(norm(e.args[0]) for e in p.trace if e.kind == "mark" and e.name == "message")
            ok = tc[0] == "call" and str(tc[1]).endswith("extract") and tc[2] and (old or tc[2][0] == mess)
            r.require(ok, trace, where + "/extract", f"the trace context is {show(tc)[:80]}, not extracted from the message", p)
    r.require(n >= 4, whole, "Execution.from_message", "fewer cases than expected")
    access(w, r, trace)
    deliveries(w, r, delivery)
    handles(w, r, handle)
    for rule in (whole, lookup, older, trace, delivery, handle):
        r.expect(rule, 1)


def access(w: World, r: Report, rule: str) -> None:
    """The setter used on sending and the getter used on receiving."""
    setters, getters = set(), set()
    for how in ("add", "replace", "schedule", "reschedule"):
        for p, d in attempts(w, how):
            if not d.writes:
                continue
            inj = [e for e in p.trace if e.kind == "call" and e.name.endswith("propagate.inject")]
            r.require(len(inj) == 1, rule, f"{how}/inject", "the trace context is not injected once into the message", p)
            setters.update(type_name(norm(e.kw("setter") or NONE)) for e in inj)
    for p in carried(w, False):
        getters.update(type_name(norm(e.kw("getter") or NONE)) for e in p.trace if e.kind == "call" and e.name.endswith("propagate.extract"))
    if not r.require(len(setters) == 1 and len(getters) == 1 and None not in setters | getters, rule, "instrumentation", f"setters {setters}, getters {getters}"):
        return
    s, g = next(iter(setters)), next(iter(getters))
    name, value, other = ("sym", "field", "str"), ("sym", "value", "str"), ("sym", "other", "str")

    def body(it: Any) -> Term:
        c = it.new_dict([(const("key"), KEY)])
        so, go = ("sym", "setter", s), ("sym", "getter", g)
        w.call(it, so, s + ".set", [c, name, value])
        it.emit(Event("mark", "got", (it.freeze(w.call(it, go, g + ".get", [c, name])),)))
        it.emit(Event("mark", "keys", (it.freeze(w.call(it, go, g + ".keys", [c])),)))
        empty = it.new_dict([])
        it.emit(Event("mark", "missing", (it.freeze(w.call(it, go, g + ".get", [empty, other])),)))
        return NONE
    for p in w.paths("message access", body, inline=lambda f: True):
        where = "MessageSetter/MessageGetter"
        if not r.require(p.outcome == "ok", rule, where, f"access raises {show(p.value)[:60] if p.value else ''}", p):
            continue
        m = marks(p)
        got = m["got"]
        items = got[2] if got[0] == "call" and got[1] in ("list", "tuple") else got[1] if got[0] == "tuple" else ()
        r.require(tuple(undo(x) for x in items) == (value,) or undo(got) == value, rule, where + "/get", f"a value set is read as {show(got)[:60]}", p)
        r.require(m["missing"] == NONE, rule, where + "/missing", f"a missing field is read as {show(m['missing'])[:60]}", p)


def type_name(t: Term) -> str | None:
    return t[2] if t[0] == "sym" else t[1] if t[0] == "inst" else None


def deliveries(w: World, r: Report, rule: str) -> None:
    f = w.prog.func("Execution.from_message")
    names = [a.arg for a in all_args(f.node.args)]

    def prune(e: Event, trace: list[Event]) -> bool:
        return spawned_run(e) and bool(runs_spawned(trace))
    seen: set[str] = set()
    for p in loop_paths(w, "one delivery read", None, prune):
        for s in runs_spawned(p.trace):
            x = execution_of(s)
            where = "Worker._worker_loop"
            if not r.require(x[0] == "call" and str(x[1]).endswith("Execution.from_message"), rule, where, f"runs {show(x)[:60]}, not what a message was read as", p, s):
                continue
            b = dict(zip(names, x[2]))
            e, mid = b.get("message", NONE), b.get("message_id", NONE)
            entry = e[1] if e[0] == "index" and e[2] == const(1) else None
            src = next((t[1] for t in walk(e) if t[0] == "reply" and t[1].startswith("X")), None)
            kind = {"XAUTOCLAIM": "reclaimed", "XCLAIM": "reclaimed", "XREADGROUP": "new"}.get(src or "", "")
            r.require(entry is not None and bool(kind), rule, where + "/message", f"the message read is {show(e)[:60]}", p, s)
            r.require(mid[0] == "index" and mid[1] == entry and mid[2] == const(0), rule, where + "/message_id", f"the identifier of another entry: {show(mid)[:60]}", p, s)
            r.require(b.get("docket") == DOCKET, rule, where + "/docket", "read against another docket", p, s)
            again = norm(b.get("redelivered", const(False)))
            yes = again[0] == "const" and again[1] is True
            r.require(yes if kind == "reclaimed" else not yes, rule, f"{where}/redelivered-{kind}", f"a {kind} delivery is read with redelivered={show(again)[:40]}", p, s)
            fb = norm(b.get("fallback_task", NONE))
            r.require(fb[0] == "attr" and fb[2] == "fallback_task", rule, where + "/fallback", f"the fallback is {show(fb)[:60]}", p, s)
            seen.add(kind)
    for k in ("new", "reclaimed"):
        r.require(k in seen, rule, "Worker._worker_loop/" + k, f"no {k} delivery is run")


def rewritten(w: World, r: Report, rule: str) -> None:
    """Scripts that are given a whole message and write to its record."""
    fields = message_fields(w.prog)
    for q, f in w.prog.scripts().items():
        sc = script_of(w.prog, f)
        whole = [p.name for p in sc.params if p.kind == "Args" and p.name == "message"]
        if not whole:
            continue
        kw: dict[str, Term] = {p.name: ("sym", p.name, p.type if p.type in ("int", "float", "bool") else "str" if p.kind != "Args" else None) for p in sc.params}
        for p in w.paths("rewritten " + q, lambda it: it.call_script(f, [("sym", "redis", "RedisClient")], dict(kw), w.frame(f.module.name), f.node), budget=20000, message_fields=fields):
            for e in p.redis("HSET"):
                if norm(e.args[0]) != kw.get("runs_key"):
                    continue
                for k, v in zip(e.args[1::2], e.args[2::2]):
                    if k[0] == "const" and k[1] in ("function", "args", "kwargs"):
                        r.require(norm(v)[0] in ("index", "field") and norm(v)[1:] == (kw[whole[0]], k), rule, f"{f.name}/{k[1]}", f"the record's {k[1]} become {show(v)[:80]}", p, e)


def handles(w: World, r: Report, rule: str) -> None:
    rewritten(w, r, rule)
    written: dict[str, Term] = {}
    for p, d in attempts(w, "schedule"):
        for f in ("function", "args", "kwargs", "when"):
            v = d.field(runs(), f)
            if d.writes and v not in (None, GONE):
                written.setdefault(f, norm(v))
    r.require(set(written) == {"function", "args", "kwargs", "when"}, rule, "Execution.schedule", f"the record holds only {sorted(written)}")

    def body(it: Any) -> Term:
        g = w.call(it, DOCKET, "Docket.get_execution", [KEY])
        if norm(g) != NONE:
            attrs(w, it, g, ("key", "when", "function_name", "args", "kwargs", "function"))
        return g
    paths = w.paths("Docket.get_execution", body, inline=lambda f: True, hooks={w.prog.func("Execution.sync").qual: syncing})

    def look(t: Term) -> Term | None:
        for f in written:
            if t[:1] in (("call",), ("index",), ("field",)) and hgetall_field(t, runs(), f) and not any(hgetall_field(x, runs(), f) for x in t[1:] if isinstance(x, tuple)) and \
                    (t[0] != "call" or t[1] == "get"):
                return written[f]
            if replies(t, ("HGET",), runs(), const(f)):
                return written[f]
        return None
    n = 0
    for p in paths:
        where = "Docket.get_execution"
        missing = any(v is False and (c[0] == "truth" and mine(c[1]) or c[0] == "cmp" and c[1] == "in" and mine(c[3])) or
                      v is True and c[0] == "cmp" and c[1] == "==" and NONE in (norm(c[2]), norm(c[3])) and mine(c[2] if norm(c[3]) == NONE else c[3]) for c, v in facts(p))
        if p.outcome != "ok":
            r.require(missing, rule, where + "/raises", f"raises {show(p.value)[:60] if p.value else ''} for a recorded task", p)
            continue
        if p.value is not None and norm(p.value) == NONE:
            r.require(missing, rule, where + "/lost", "a recorded task is not found", p)
            continue
        n += 1
        unrecorded = any(v is False and c[0] == "truth" and norm(c[1])[:2] in (("reply", "HGETALL"), ("reply", "EXISTS")) and mine(c[1]) for c, v in facts(p))
        r.require(not unrecorded, rule, where + "/invented", "an execution is made up for a task that has no record", p)
        synced = [e for e in p.trace if e.kind == "mark" and e.name == "synced" and p.value is not None and e.args[1] == norm(p.value)]
        r.require(bool(synced), rule, where + "/state", "the execution found is not given its recorded state", p)
        m = marks(p)
        reads = {k: undo(place(v, look)) for k, v in m.items()}
        r.require(m["key"] == KEY, rule, where + "/key", f"the execution found has key {show(m['key'])[:60]}", p)
        orig = norm(written["function"])
        for a in ("when", "args", "kwargs"):
            r.require(same(a, reads[a], orig), rule, f"{where}/{a}", f"reads {a} as {show(reads[a])[:100]}", p)
        r.require(same("function_name", reads["function_name"], undo(orig)), rule, where + "/function_name", f"the execution is of {show(reads['function_name'])[:100]}, not of the function it was scheduled as", p)
        fn = m["function"]
        name = next((x[2][1] for x in walk(fn) if x[0] == "call" and x[1] == "get" and x[2] and x[2][0] == ("attr", DOCKET, "tasks")), None) or \
            next((x[2] for x in walk(fn) if x[0] == "index" and x[1] == ("attr", DOCKET, "tasks")), None)
        isin = any(v is False and (c[0] == "truth" and "'tasks'" in repr(c[1]) or c[0] == "cmp" and c[1] == "in" and "'tasks'" in repr(c[3])) or
                   v is True and c[0] == "cmp" and c[1] == "==" and "'tasks'" in repr(c[2:4]) and NONE in c[2:4] for c, v in facts(p))
        if name is None:
            r.require(isin, rule, where + "/function", f"the function is {show(fn)[:60]} although one is registered", p)
        else:
            r.require(not isin and undo(place(norm(name), look)) == undo(orig), rule, where + "/function", f"the function is looked up as {show(name)[:60]}", p)
    r.require(n >= 2, rule, "Docket.get_execution", "no path finds an execution")


def mine(t: Any) -> bool:
    return any(replies(x, ("HGETALL", "HGET", "HMGET", "EXISTS"), runs()) for x in walk(norm(t)))
