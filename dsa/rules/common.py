"""Helpers shared by the rule modules: key templates, entry points, and
questions asked of a path."""
from __future__ import annotations

from typing import Any, Callable, Iterable

from ..delta import GONE, Delta
from ..model import DOCKET, PREFIX, Path, World
from ..paths import AnalysisError, Event, truth
from ..pyexec import Interp
from ..terms import FALSE, NONE, TRUE, Term, cat, const, norm, show, walk

KEY: Term = ("sym", "key", "str")
WHEN: Term = ("sym", "when", "datetime.datetime")
MSGID: Term = ("sym", "delivered_id", None)


def key(*parts: Any) -> Term:
    return cat(PREFIX, const(":"), *(const(p) if isinstance(p, str) else p for p in parts))


def runs(k: Term = KEY) -> Term:
    return key("runs:", k)


def parked(k: Term = KEY) -> Term:
    return key(k)


def known_key(k: Term = KEY) -> Term:
    return key("known:", k)


def stream_id_key(k: Term = KEY) -> Term:
    return key("stream-id:", k)


def progress(k: Term = KEY) -> Term:
    return key("progress:", k)


def state_channel(k: Term = KEY) -> Term:
    return key("state:", k)


def cancel_channel(k: Term = KEY) -> Term:
    return key("cancel:", k)


STREAM = key("stream")
QUEUE = key("queue")



# ------------------------------------------------------------- path questions
def facts(p: Path) -> Iterable[tuple[Term, bool]]:
    return p.run.facts.items()


def replies(t: Any, cmds: tuple[str, ...], k: Term, *rest: Term) -> bool:
    return isinstance(t, tuple) and bool(t) and t[0] == "reply" and t[1] in cmds and t[2][:1 + len(rest)] == (k, *rest)


def present(p: Path, k: Term, field: str | None = None) -> bool | None:
    """Whether the path established that a key (or hash field) is present."""
    if field is not None:
        match = lambda t: replies(t, ("HEXISTS", "HGET"), k, const(field)) or (  # noqa: E731
            t[0] in ("field", "index", "call") and hgetall_field(t, k, field))
    else:
        match = lambda t: replies(t, ("EXISTS", "GET"), k)  # noqa: E731
    return established(p, match)


def hgetall_field(t: Term, k: Term, field: str) -> bool:
    for x in walk(t):
        if x[0] == "field" and replies(x[1], ("HGETALL",), k) and x[2] == const(field):
            return True
        if x[0] == "call" and x[1] == "get" and replies(x[2][0], ("HGETALL",), k) and x[2][1] == const(field):
            return True
        if x[0] == "index" and replies(x[1], ("HGETALL",), k) and x[2] == const(field):
            return True
    return False


INTS = {"HEXISTS", "EXISTS", "ZCARD", "XLEN", "SISMEMBER", "ZADD", "ZREM", "HDEL", "DEL", "SREM", "SADD", "HSETNX", "XACK", "XDEL", "EXPIRE"}


def established(p: Path, match: Callable[[Term], bool]) -> bool | None:
    for c, v in facts(p):
        got = positive(c, v, match)
        if got is not None:
            return got
    return None


def positive(c: Term, v: bool, match: Callable[[Term], bool]) -> bool | None:
    """What a branch fact says about the presence of a reply."""
    if c[0] == "cmp" and c[1] == "in" and c[3][0] == "reply" and match(("index", c[3], c[2])):
        return v
    if c[0] == "truth" and match(c[1]):
        if c[1][0] == "reply" and c[1][1] in INTS and "lua" in "":
            return None
        return v
    if c[0] == "cmp" and c[1] == "==":
        a, b = c[2], c[3]
        if match(b):
            a, b = b, a
        if match(a):
            if b[0] == "const" and (b[1] in (None, False, "") or b[1] == 0 and not isinstance(b[1], bool)):
                return not v
            if v:
                return True
            if b == const(1) and a[0] == "reply" and a[1] in INTS:
                return False
    if c[0] == "cmp" and c[1] == "<":
        if match(c[3]) and c[2] == const(0):
            return v
        if match(c[2]) and c[3] == const(1):
            return not v
        if v and (match(c[2]) or match(c[3])):
            return None
    return None


def equals(p: Path, match: Callable[[Term], bool], value: Any) -> bool | None:
    """Whether the path established (in)equality of a value with a constant."""
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "==":
            a, b = c[2], c[3]
            if match(b):
                a, b = b, a
            if match(a):
                bv = b[3] if b[0] == "enum" else b
                if bv == const(value):
                    return v
                if v and bv[0] == "const":
                    return False
        if c[0] == "truth" and match(c[1]) and not v and value:
            return False
    return None


def state_is(p: Path, k: Term, value: str) -> bool | None:
    return equals(p, lambda t: replies(t, ("HGET",), k, const("state")) or hgetall_field(t, k, "state"), value)


def future(p: Path, when: Term) -> bool | None:
    """Did the path find ``when`` to lie in the future?"""
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "<":
            a, b = c[2], c[3]
            if a[0] == "now" and norm(b) == norm(when):
                return v
            if b[0] == "now" and norm(a) == norm(when):
                return not v
    return None


def last_assign(p: Path, attr: str, base: Term | None = None) -> Term | None:
    out = None
    for e in p.trace:
        if e.kind == "assign" and e.name == attr and (base is None or norm(e.args[0]) == norm(base)):
            out = e.args[1]
    return out


def enum_is(t: Term | None, cls: str, name: str) -> bool:
    return t is not None and t[0] == "enum" and t[1].endswith("." + cls) and t[2] == name


def value_text(t: Term | None) -> str | None:
    """The constant text of a term (enum members count by value)."""
    if t is None:
        return None
    if t[0] == "enum":
        t = t[3]
    return str(t[1]) if t[0] == "const" and t[1] is not None else None


def mentions(t: Any, needle: Term) -> bool:
    n = norm(needle)
    return any(x == n for x in walk(norm(t)))


LOSSY = {"hash", "id", "len", "type", "bool", "int", "float", "round", "abs", "sum", "min", "max", "isinstance", "callable", "lower", "upper", "casefold", "title", "capitalize"}


def identifies(t: Any, needle: Term) -> bool:
    """A term that is different for different values of another (or that a per-process hash keeps from being the same everywhere)."""
    n = norm(needle)

    def look(x: Any) -> bool:
        if x == n:
            return True
        if not isinstance(x, tuple) or not x:
            return False
        if x[0] in ("call", "method") and str(x[1]).split(".")[-1] in LOSSY or x[0] in ("item", "slice", "truth", "cmp", "not"):
            return False
        return any(look(y) for y in x)
    return look(norm(t))


def units(events: Iterable[Event]) -> set:
    """The atomic units commands are sent in; a pipeline that is no transaction is none."""
    return {repr(e.unit) if not (e.unit and e.unit[:2] == ("redis", "pipeline") and e.unit[3] == ("const", False, "bool")) else repr((e.unit, id(e))) for e in events}


def payload(t: Term) -> dict[str, Term] | None:
    """The fields of a published JSON payload."""
    t = norm(t)
    if t[0] == "json" and len(t) > 1:
        t = t[1]
    if t[0] == "call" and t[1] in ("json.dumps",):
        t = t[2][0]
    if t[0] == "call" and t[1] == "dict":
        out = {}
        for kv in t[2]:
            if kv[1][0][0] == "const":
                out[kv[1][0][1]] = kv[1][1]
        return out
    return None


# --------------------------------------------------------------- entry points
OPAQUE = {"is_stricken"}


def public_inline(f: Any) -> bool:
    return f.name not in OPAQUE and f.module.name not in ("docket._uuid7",)


def scheduling_paths(w: World, how: str) -> list[Path]:
    """Paths of the public ways to schedule a task: add, replace, schedule
    (an execution), and the rescheduling of a delivered message."""
    def body(it: Interp) -> Term:
        fr = w.frame("docket.docket")
        it.run.assume(("cmp", "==", KEY, NONE), False)
        it.run.assume(("truth", KEY), True)
        it.run.assume(("cmp", "==", MSGID, NONE), False)
        it.run.assume(("truth", MSGID), True)
        if how == "schedule":
            return w.call(it, DOCKET, "Docket.schedule", [w.execution(it)])
        if how == "reschedule":
            return w.call(it, w.execution(it), "Execution.schedule", [], {"reschedule_message": MSGID}, defaults=True)
        s = w.call(it, DOCKET, "Docket." + how, [("sym", "function", None)], {"when": WHEN, "key": KEY})
        c = it.call_term(s, [("star", ("sym", "args", None))], {"**0": ("sym", "kwargs", None)}, fr, w.prog.func("Docket." + how).node)
        return it.await_(c, fr, w.prog.func("Docket." + how).node)

    return w.paths("Docket." + how if how != "reschedule" else "Execution.schedule(reschedule)", body, inline=public_inline)


def when_of(p: Path) -> Term:
    """The time the task is scheduled for on this path (add() without a time
    means now)."""
    if p.fact(("cmp", "==", WHEN, NONE)) or p.fact(("truth", WHEN)) is False:
        for e in p.trace:
            if e.kind == "new" and e.name.endswith(".Execution"):
                t = e.kw("when") or (e.args[5] if len(e.args) > 5 else None)
                if t is not None:
                    return t
    return WHEN


def stricken(p: Path) -> bool | None:
    for c, v in facts(p):
        if c[0] == "truth" and c[1][0] == "call" and str(c[1][1]).endswith(".is_stricken"):
            return v
    return None


def fname(e: Event) -> str:
    return e.func.split(".")[-1] if e.func else ""


def evaluate(w: World, qual: str, recv: Term = DOCKET) -> Term:
    """The value of a property of the docket."""
    f = w.prog.func(qual)
    ps = w.paths(qual, lambda it: it.get_attr(recv, f.name, w.frame(f.module.name), f.node))
    return norm(ps[0].value)


def group(w: World) -> Term:
    return evaluate(w, "Docket.worker_group_name")


# ------------------------------------------------------------------ generations
GEN: Term = ("sym", "generation", "int")


def less(p: Path, a: Callable[[Term], bool], b: Callable[[Term], bool]) -> bool | None:
    """Whether the path established a < b (or its negation)."""
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "<" and a(c[2]) and b(c[3]):
            return v
    return None


def recorded_gen(k: Term | None = None) -> Callable[[Term], bool]:
    k = k or runs()
    return lambda t: replies(t, ("HGET",), k, const("generation")) or (t[0] in ("field", "call") and hgetall_field(t, k, "generation"))


def is_gen(t: Term) -> bool:
    return norm(t) == GEN


def tracked(p: Path) -> bool | None:
    """Whether the execution at hand carries a generation (0: it does not)."""
    v = less(p, lambda t: t == const(0), is_gen)
    if v is None:
        v = less(p, is_gen, lambda t: t == const(1))
        v = None if v is None else not v
    if v is None:
        v = equals(p, is_gen, 0)
        v = None if v is None else not v
    if v is None:
        for c, f in facts(p):
            if c == ("truth", GEN):
                v = f
    return v


def newer(p: Path, k: Term | None = None) -> bool | None:
    """Whether the path found the recorded generation to be past its own."""
    v = less(p, is_gen, recorded_gen(k))
    if v is None and less(p, recorded_gen(k), is_gen) is True:
        return False
    if v is None:
        eq = None
        for c, f in facts(p):
            if c[0] == "cmp" and c[1] == "==" and {is_gen(c[2]), is_gen(c[3])} == {True, False} and (recorded_gen(k)(c[2]) or recorded_gen(k)(c[3])):
                eq = f
        if eq:
            return False
    return v


def stale(p: Path) -> bool | None:
    """Whether the path knows its execution to be superseded."""
    t = tracked(p)
    if t is False:
        return False
    here = present(p, runs(), "generation")
    if here is False:
        return True if t else None
    n = newer(p)
    if n is None:
        return None
    if n:
        return True if t else None
    return False


OWN_ID: Term = ("sym", "message_id", None)


def own_message(t: Term) -> bool:
    return any(x[0] == "sym" and x[1] == "message_id" for x in walk(norm(t)))


def has_message(p: Path) -> bool | None:
    """Whether the path found that a delivered message exists."""
    for c, v in facts(p):
        if c[0] == "truth" and own_message(c[1]) and c[1][0] in ("sym", "or", "boolop", "call"):
            return v
        if c[0] == "cmp" and c[1] == "==" and any(own_message(x) for x in c[2:4]):
            o = c[3] if own_message(c[2]) else c[2]
            if o in (const(""), const(b""), NONE):
                return not v
    return None


def acked(d: Delta, grp: Term) -> bool:
    return any(x[0] == STREAM and own_message(x[2]) and norm(x[1]) == grp for x in d.xack)


def deleted(d: Delta) -> bool:
    return any(x[0] == STREAM and own_message(x[1]) for x in d.xdel)


def linear(t: Term) -> dict[Any, float]:
    """A number as a sum of multiples: of terms, of the current time ("now") and of one (None)."""
    t = norm(t)

    def scaled(d: dict[Any, float], k: float) -> dict[Any, float]:
        return {x: v * k for x, v in d.items() if v * k}
    if t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {None: t[1]} if t[1] else {}
    if t[0] == "now" or t[0] == "call" and t[1] in ("now", "time") and not t[2]:
        return {"now": 1.0}
    if t[0] == "op" and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        if t[1] in ("+", "-"):
            out = dict(a)
            for x, v in b.items():
                out[x] = out.get(x, 0) + (v if t[1] == "+" else -v)
            return {x: v for x, v in out.items() if v}
        if t[1] == "*" and (set(a) <= {None} or set(b) <= {None}):
            return scaled(b, a.get(None, 0)) if set(a) <= {None} else scaled(a, b.get(None, 0))
        if t[1] in ("/", "//") and set(b) == {None}:
            return scaled(a, 1 / b[None])
    if t[0] == "call" and t[2] and (t[1] in ("int", "float", "round", "timestamp", "tonumber") or str(t[1]).split(".")[-1] in ("floor", "ceil", "total_seconds")):
        return linear(t[2][0])
    if t[0] == "call" and str(t[1]).endswith("timedelta"):
        out: dict[Any, float] = {}
        unit = {"milliseconds": 0.001, "seconds": 1, "minutes": 60, "microseconds": 0.000001, "hours": 3600, "days": 86400}
        for i, a in enumerate(t[2]):
            if a[0] == "tuple" and len(a[1]) == 2 and a[1][0][1] in unit:
                n, v = a[1][0][1], a[1][1]
            elif a[0] != "tuple" and i < 3:
                n, v = ("days", "seconds", "microseconds")[i], a
            else:
                return {t: 1.0}
            for x, k in linear(v).items():
                out[x] = out.get(x, 0) + k * unit[n]
        return {x: v for x, v in out.items() if v}
    return {t: 1.0}


def same_sum(a: dict[Any, float], b: dict[Any, float]) -> bool:
    return set(a) == set(b) and all(abs(a[x] - b[x]) < 1e-9 * max(1, abs(b[x])) for x in a)


def is_positive(p: Path, t: Term) -> bool:
    """Whether a number is positive on a path: by what it is, or by what the path found about it."""
    t = norm(t)
    d = linear(t)
    if set(d) == {None}:
        return d[None] > 0
    if t[0] == "call" and str(t[1]).split(".")[-1] == "timedelta" and len(t[2]) == 1 and t[2][0][0] == "tuple":
        return is_positive(p, t[2][0][1][1])
    if t[0] == "call" and str(t[1]).split(".")[-1] == "max":
        return any(is_positive(p, x) for x in t[2])
    for c, v in facts(p):
        if c[0] != "cmp" or c[1] != "<":
            continue
        a, b = linear(c[2]), linear(c[3])
        if v and same_sum(b, d) and set(a) <= {None} and a.get(None, 0) >= 0:
            return True
        if not v and same_sum(a, d) and set(b) == {None} and b[None] > 0:
            return True
    return False
