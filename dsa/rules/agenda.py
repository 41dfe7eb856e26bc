"""Scattering an agenda over a period."""
from __future__ import annotations

from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import NONE, Term, const, norm, show
from .common import linear, same_sum
from .running import last

OVER: Term = ("sym", "over", "datetime.timedelta")
START: Term = ("sym", "start", "datetime.datetime|None")
JITTER: Term = ("sym", "jitter", "datetime.timedelta|None")
TASKS: Term = ("attr", DOCKET, "tasks")
FAILURE = "RuntimeError"


def task(i: int) -> Term:
    return ("sym", f"task{i}", "Callable|str")


def entry_key(i: int) -> Term:
    return ("sym", f"key{i}", "str|None")


def scattered(w: World, n: int) -> list[Path]:
    c = w.prog.klass("Agenda")
    count = [0]

    def adding(it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term:
        b = dict(zip(("function", "when", "key"), args))
        b.update(kwargs)
        i = sum(e.kind == "mark" and e.name == "add" for e in it.run.trace)
        it.emit(Event("mark", "add", tuple(norm(it.freeze(b.get(k, NONE))) for k in ("function", "when", "key")), site=it.site(fr, at), func=it.fname(fr)))
        return ("ext", f"schedule:{i}")

    def body(it: Any) -> Term:
        a = w.make(it, c.qual)
        fr = w.frame("docket.agenda")
        for i in range(n):
            f = w.call(it, a, "Agenda.add", [task(i), entry_key(i)])
            it.call_term(f, [("sym", f"arg{i}", None)], {"named": ("sym", f"kwarg{i}", None)}, fr, c.node)
        before = it.freeze(it.get_attr(a, "_tasks", fr, None))
        it.emit(Event("mark", "before", (norm(before),)))
        got = it.freeze(w.call(it, a, "Agenda.scatter", [DOCKET, OVER, START, JITTER]))
        it.emit(Event("mark", "after", (norm(it.freeze(it.get_attr(a, "_tasks", fr, None))),)))
        return got

    def faults(e: Event, trace: list[Event]) -> list[str]:
        return [FAILURE] if e.kind == "call" and (e.name.startswith("schedule:") or last(e) == "register") and not any(x.kind == "throw" for x in trace) else []
    _ = count
    return w.paths(f"Agenda.scatter of {n}", body, inline=lambda f: f.name != "register" and "uuid7" not in f.qual, hooks={w.prog.func("Docket.add").qual: adding}, raises=faults, faults=1, budget=40000, summarise=lambda f: False)


def positive(p: Path) -> bool | None:
    """Whether a path found the period positive."""
    out = None
    for e in p.trace:
        if e.kind != "branch":
            continue
        c, v = norm(e.args[0]), e.result
        if c[0] != "cmp" or c[1] not in ("<", "<=", "=="):
            continue
        a, b = linear(c[2]), linear(c[3])
        d = {k: b.get(k, 0) - a.get(k, 0) for k in {*a, *b}}     # b - a
        if {k for k, x in d.items() if x} != {OVER}:
            continue
        if c[1] == "<" and d[OVER] > 0:
            out = bool(v)
        elif c[1] == "<=" and d[OVER] < 0:
            out = not v
        elif c[1] == "<" and d[OVER] < 0 and v or c[1] == "<=" and d[OVER] > 0 and not v or c[1] == "==" and v:
            out = False
    return out


def jittered(p: Path) -> bool | None:
    for e in p.trace:
        if e.kind == "branch" and (norm(e.args[0]) == ("truth", JITTER) or norm(e.args[0])[0] == "cmp" and norm(e.args[0])[1] == "==" and {norm(e.args[0])[2], norm(e.args[0])[3]} == {JITTER, NONE}):
            return bool(e.result) == (norm(e.args[0])[0] == "truth")
    return None


def offset(t: Term) -> bool:
    """A random offset of at most the jitter, either way."""
    t = norm(t)
    if t[0] == "op" and t[1] == "*" and JITTER in (norm(t[2]), norm(t[3])):
        u = norm(t[3] if norm(t[2]) == JITTER else t[2])
        return drawn(u) is not None and (linear(drawn(u)[0]), linear(drawn(u)[1])) == ({None: -1}, {None: 1})
    d = drawn(t)
    return d is not None and (linear(d[0]), linear(d[1])) == ({JITTER: -1}, {JITTER: 1})


def drawn(t: Term) -> tuple[Term, Term] | None:
    return (t[2][0], t[2][1]) if t[0] == "call" and str(t[1]).split(".")[-1] == "uniform" and len(t[2]) >= 2 else None


def c36(w: World, r: Report) -> None:
    r.explain.append("Agendas of none to three entries of unknown functions or names, arguments and keys are scattered symbolically over an unknown period, start and jitter, with a failure at every registration and every scheduling; Docket.add is replaced by a record of its arguments.")
    valid = r.rule("C36.valid", "a period that is not positive, an unknown name or an invalid function is refused before anything is scheduled")
    each = r.rule("C36.each", "every entry is scheduled once, in order, under its own name or function, with its own arguments and key, and its execution returned")
    times = r.rule("C36.times", "n entries are spread evenly from the start to the end of the period, a single one in its middle")
    jit = r.rule("C36.jitter", "jitter moves a time by at most as much either way, and never before the start")
    kept = r.rule("C36.kept", "the agenda is as it was afterwards, and an error in scheduling is reported at once")
    for n in range(4):
        for p in scattered(w, n):
            where = "Agenda.scatter"
            adds = [(i, e) for i, e in enumerate(p.trace) if e.kind == "mark" and e.name == "add"]
            calls = [e for e in p.trace if e.kind == "call" and e.name.startswith("schedule:")]
            thrown = [e for e in p.trace if e.kind == "throw" and e.name == FAILURE]
            first = adds[0][0] if adds else len(p.trace)
            before = {norm(e.args[0]): e.result for e in p.trace[:first] if e.kind == "branch"}
            named = {i: before.get(("truth", ("call", "isinstance", (task(i), ("ext", "str"))))) for i in range(n)}
            for c, v in before.items():
                for i in range(n):
                    if c[0] == "truth" and c[1][0] == "call" and c[1][1] == "isinstance" and norm(c[1][2][0]) == task(i) and "str" in repr(c[1][2][1]):
                        named[i] = v
            unknown = [i for i in range(n) if known(before, i) is False and named[i] is not False]
            if p.outcome != "ok":
                if thrown:
                    r.require(p.value is not None and p.value[:2] == ("exc", FAILURE), kept, where + "/reported", f"a failure to schedule ends in {show(p.value)[:60] if p.value else ''}", p)
                    at = p.trace.index(thrown[0])
                    r.require(not any(i > at for i, _ in adds), kept, where + "/goes-on", "goes on after a failure", p)
                    bad = last_call(p, at)
                    r.require(bad != "register" or not adds, valid, where + "/invalid", "schedules some before an invalid function is refused", p)
                    continue
                exc = p.value[1] if p.value else ""
                r.require(not adds, valid, where + "/first", f"some are scheduled before {exc} is raised", p)
                r.require(exc == "ValueError" and positive(p) is False or exc == "KeyError" and bool(unknown), valid, where + "/refused", f"raises {exc} for a valid agenda", p)
                continue
            r.require(positive(p) is True, valid, where + "/period", "goes on with a period that may not be positive", p)
            for i in range(n):
                if named[i] is not False:
                    r.require(known(before, i) is True, valid, where + "/name", "begins to schedule without knowing that a name is registered", p)
                if named[i] is not True and known(before, i) is not True:
                    reg = any(e.kind == "call" and last(e) == "register" and task(i) in [norm(a) for a in (*e.args, *[x for _, x in e.kwargs])] for e in p.trace[:first])
                    r.require(reg or has(before, i), valid, where + "/function", "begins to schedule without knowing that a function is valid", p)
            if not r.require(len(adds) == n and len(calls) == n, each, where + "/all", f"schedules {len(adds)} of {n}", p):
                continue
            vals = p.value[2] if p.value and norm(p.value)[:2] == ("call", "list") else ()
            r.require([norm(v) for v in vals] == [norm(c.result) for c in calls], each, where + "/returned", "does not return the executions in order", p)
            keys = set()
            for i, (_, e) in enumerate(adds):
                fn, when, k = e.args
                r.require(fn == task(i), each, where + "/what", f"schedules {show(fn)[:60]} for entry {i}", p, e)
                r.require(calls[i].name == f"schedule:{i}" and [norm(a) for a in calls[i].args] == [("sym", f"arg{i}", None)] and [(x, norm(y)) for x, y in calls[i].kwargs] == [("named", ("sym", f"kwarg{i}", None))], each, where + "/arguments", f"entry {i} is scheduled with other arguments", p, calls[i])
                none = next((bool(e2.result) for e2 in p.trace if e2.kind == "branch" and norm(e2.args[0])[0] == "cmp" and norm(e2.args[0])[1] == "==" and {norm(e2.args[0])[2], norm(e2.args[0])[3]} == {entry_key(i), NONE}), None)
                fresh = "uuid" in repr(k) and "key" not in repr(k)
                r.require(k == entry_key(i) or none is True and (fresh or k == NONE), each, where + "/key", f"entry {i} is scheduled under {show(k)[:60]}", p, e)
                r.require(k in (NONE, entry_key(i)) or k not in keys, each, where + "/keys", "two entries share a key", p, e)
                keys.add(k)
                time(r, p, times, jit, i, n, when, e)
            marks = {e.name: e.args[0] for e in p.trace if e.kind == "mark" and e.name in ("before", "after")}
            r.require(marks["before"] == marks["after"], kept, where, "scattering changes the agenda", p)
    for rule, k in ((valid, 20), (each, 40), (times, 10), (jit, 10), (kept, 10)):
        r.expect(rule, k)


def last_call(p: Path, at: int) -> str:
    for e in reversed(p.trace[:at]):
        if e.kind == "call":
            return last(e) if not e.name.startswith("schedule:") else "schedule"
    return ""


def known(before: dict[Term, Any], i: int) -> bool | None:
    """Whether a name was found among the registered tasks."""
    v = before.get(("cmp", "in", task(i), TASKS))
    if v is not None:
        return bool(v)
    for c, x in before.items():
        if c[0] == "cmp" and c[1] == "==" and NONE in (c[2], c[3]) and got(c[3] if c[2] == NONE else c[2], i):
            return not x
    return None


def got(t: Term, i: int) -> bool:
    return t[0] == "call" and t[1] == "get" and t[2][:2] == (TASKS, task(i))


def has(before: dict[Term, Any], i: int) -> bool:
    return any(v and c[0] == "cmp" and c[1] == "in" and c[2] == task(i) and c[3][0] == "call" and c[3][1] in ("values", "set", "list") and TASKS in repr_terms(c[3]) for c, v in before.items())


def repr_terms(t: Term) -> list[Term]:
    from ..terms import walk
    return list(walk(t))


def time(r: Report, p: Path, times: str, jit: str, i: int, n: int, when: Term, e: Event) -> None:
    where = "Agenda.scatter"
    none = next((bool(x.result) == (norm(x.args[0])[0] == "cmp") for x in p.trace if x.kind == "branch" and norm(x.args[0]) in (("cmp", "==", START, NONE), ("cmp", "==", NONE, START), ("truth", START))), None)
    begin: dict[Any, float] = {"now": 1} if none else {START: 1}
    even = dict(begin)
    part = 0.5 if n == 1 else i / (n - 1)
    if part:
        even[OVER] = part
    j = jittered(p)
    if j is None:
        r.require(any(x == JITTER for x in repr_terms(when)), jit, where + "/jitter", f"entry {i} of {n} is scheduled at {show(when)[:80]} whatever the jitter", p, e)
    if not j:
        r.require(none is not None and same_sum(linear(when), even), times, where, f"entry {i} of {n} is scheduled at {show(when)[:100]}", p, e)
        return
    x = when
    clamped = False
    if when[0] == "call" and str(when[1]) == "max" and len(when[2]) == 2:
        rest = [a for a in when[2] if not same_sum(linear(a), begin)]
        clamped = len(rest) < 2
        x = rest[0] if rest else when
    else:
        for b in p.trace:
            if b.kind == "branch" and norm(b.args[0])[0] == "cmp" and norm(b.args[0])[1] in ("<", "<="):
                _, _, lo, hi = norm(b.args[0])
                y, below = (lo, bool(b.result)) if same_sum(linear(hi), begin) else (hi, not b.result) if same_sum(linear(lo), begin) else (None, False)
                if y is not None and same_sum({k: v for k, v in linear(y).items() if k in ("now", START, OVER)}, even) and (same_sum(linear(when), begin) if below else y == when):
                    clamped, x = True, y
    r.require(clamped, jit, where + "/start", f"jitter may move entry {i} before the start: {show(when)[:100]}", p, e)
    d = linear(x)
    rest = {k: v for k, v in d.items() if k not in ("now", START, OVER)}
    r.require(none is not None and same_sum({k: v for k, v in d.items() if k not in rest}, even), times, where + "/jittered", f"entry {i} of {n} is scheduled around {show(x)[:100]}", p, e)
    r.require(len(rest) == 1 and all(offset(k) and v == 1 for k, v in rest.items()), jit, where + "/offset", f"entry {i} is moved to {show(x)[:120]}", p, e)
