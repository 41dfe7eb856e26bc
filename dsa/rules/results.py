"""What becomes known of a task: its state as read and followed, and its result."""
from __future__ import annotations

from typing import Any

from ..delta import Delta
from ..model import DOCKET, Path, World
from ..paths import Event
from ..pyexec import PyRaise
from ..report import Report
from ..terms import FALSE, NONE, Term, const, norm, show, walk
from .common import KEY, WHEN, facts, linear, mentions, progress, runs, same_sum, state_channel
from .progress import plain, read_back
from .running import MARKS, calls, dict_parts, execute_paths, is_body, last

TERMINAL = ("COMPLETED", "FAILED", "CANCELLED")
STORAGE: Term = ("attr", DOCKET, "result_storage")
TTL: Term = ("attr", DOCKET, "execution_ttl")
TIMEOUT: Term = ("sym", "timeout", "datetime.timedelta|None")
DEADLINE: Term = ("sym", "deadline", "datetime.datetime|None")
STATE_ATTRS = ("state", "worker", "started_at", "completed_at", "error", "result_key")
PROGRESS_ATTRS = ("current", "total", "message", "updated_at")
INVERSE = {"b64encode": "b64decode", "urlsafe_b64encode": "urlsafe_b64decode", "standard_b64encode": "standard_b64decode", "b85encode": "b85decode", "a85encode": "a85decode",
           "b32encode": "b32decode", "b16encode": "b16decode", "hexlify": "unhexlify", "dumps": "loads", "compress": "decompress"}


def chain(t: Term) -> tuple[list[str], Term]:
    """The encodings of a value, outermost first, and the value."""
    out: list[str] = []
    t = norm(t)
    while True:
        n = str(t[1]).split(".")[-1] if t[0] == "call" else ""
        if t[0] == "call" and (n in INVERSE or n in INVERSE.values()):
            out.append(str(t[1]))
            t = norm(t[2][0])
        elif t[0] in ("text", "bytes") and len(t) == 2 or t[0] == "call" and n in ("decode", "encode", "str", "bytes") and t[2]:
            t = norm(t[1] if t[0] in ("text", "bytes") else t[2][0])
        else:
            return out, t


def inverse(enc: list[str], dec: list[str]) -> bool:
    """Whether decodings (outermost first) undo encodings (outermost first)."""
    if len(enc) != len(dec):
        return False
    for e, d in zip(enc, reversed(dec)):
        em, en = e.rsplit(".", 1) if "." in e else ("", e)
        dm, dn = d.rsplit(".", 1) if "." in d else ("", d)
        if INVERSE.get(en) != dn or em != dm and {em, dm} != {"cloudpickle", "pickle"}:
            return False
    return True


def said(p: Path, about: Any, name: str) -> bool | None:
    """Whether a path found a state (of a term picked by ``about``) to be this one."""
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "==":
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if a[0] == "enum" and a[2] == name and about(bare(b)) or a == const(name.lower()) and about(bare(b)):
                    return v
    for c, v in facts(p):   # found to be another
        if v and c[0] == "cmp" and c[1] == "==":
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if a[0] == "enum" and a[2] != name and about(bare(b)):
                    return False
    return None


def bare(t: Term) -> Term:
    t = norm(t)
    while t[0] == "call" and str(t[1]).endswith("ExecutionState") and len(t[2]) == 1 or t[0] in ("text",) and len(t) == 2:
        t = norm(t[2][0] if t[0] == "call" else t[1])
    return t


def syncing(it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term:
    """Reading a record again: its values are left open."""
    n = it.run.fresh()
    for a in STATE_ATTRS:
        it.heap[(norm(fn[1]), a)] = ("sym", f"synced {n} {a}", None)
    pr = it.get_attr(fn[1], "progress", fr, at)
    for a in PROGRESS_ATTRS:
        it.heap[(norm(pr), a)] = ("sym", f"synced {n} {a}", None)
    it.emit(Event("mark", "synced", (const(n), norm(fn[1]))))
    return NONE


# ------------------------------------------------------------------- following
READY: Term = ("sym", "ready", "asyncio.Event|None")
STATE_EVENT = ("state", "worker", "started_at", "completed_at", "error")
PROGRESS_EVENT = ("current", "total", "message", "updated_at")


def following(w: World, cls: str) -> list[Path]:
    """Paths of a subscription that goes on, with up to two messages received."""
    def body(it: Any) -> Term:
        e = w.execution(it)
        fr = w.frame("docket.execution")
        o = e if cls == "Execution" else it.get_attr(e, "progress", fr, None)
        f = w.prog.func(cls + ".subscribe")
        c = it.call_term(("bound", o, f.qual), [], {"ready": READY}, fr, f.node)
        g, params, parent = it.coro_target(c)

        def given(v: Term) -> Term:
            it.emit(Event("mark", "given", (it.freeze(v),)))
            return NONE
        it.run_func(g, params, parent, given)
        return NONE
    return w.paths(cls + ".subscribe", body, inline=lambda f: True, hooks={w.prog.func("Execution.sync").qual: syncing}, loop=2)


def event_fields(t: Term) -> dict[str, Term] | None:
    got = fields(norm(t))
    return {k[1]: plain(v) for k, v in got if k[0] == "const"} if got is not None else None


def c25(w: World, r: Report) -> None:
    r.explain.append("Every path of Execution.subscribe and ExecutionProgress.subscribe is enumerated with up to two received messages of any kind; Execution.sync is required to take each attribute from the field of the "
                     "record it is stored in.")
    first = r.rule("C25.order", "the channels of the task's state and progress are subscribed to before its record is read, and readiness is signalled once they are")
    init = r.rule("C25.initial", "the first two events are the state and the progress as just read, each value under its own name")
    relay = r.rule("C25.relay", "every message received afterwards is passed on once, decoded and in order; nothing else is")
    record = r.rule("C25.record", "reading a record takes each attribute from its own field; a missing one, or a missing record, reads as None, and its progress is read too")
    for cls, channels in (("Execution", {state_channel(), progress()}), ("ExecutionProgress", {progress()})):
        where = cls + ".subscribe"
        for p in following(w, cls):
            if p.outcome != "ok":
                r.fail(relay, where, f"fails with {show(p.value)[:60]}", p)
                continue
            t = p.trace
            subs = [i for i, e in enumerate(t) if e.kind == "redis" and e.name in ("SUBSCRIBE", "PSUBSCRIBE")]
            names = {norm(a) for i in subs for a in t[i].args}
            r.require(names == channels and all(t[i].name == "SUBSCRIBE" for i in subs), first, where, f"subscribes to {sorted(show(x)[-40:] for x in names)}", p, t[subs[0]] if subs else None)
            done = max(subs, default=-1)
            given = [(i, e) for i, e in enumerate(t) if e.kind == "mark" and e.name == "given"]
            marks = [(i, e) for i, e in enumerate(t) if e.kind == "mark" and e.name == "synced"]
            sets = [i for i, e in enumerate(t) if e.kind == "call" and e.args and norm(e.args[0]) == READY and last(e) == "set"]
            if p.fact(("cmp", "==", READY, NONE)) is not True and p.fact(("truth", READY)) is not False:
                r.require(len(sets) == 1 and sets[0] > done, first, where + "/ready", "readiness is not signalled once the subscription stands", p)
            listens = [i for i, e in enumerate(t) if e.kind == "redis" and e.name in ("LISTEN", "GET_MESSAGE")]
            r.require(bool(listens) and not any(e.kind == "redis" and e.name in ("UNSUBSCRIBE", "PUNSUBSCRIBE") for e in t), relay, where + "/listens", "does not listen", p)
            head = 0
            if cls == "Execution":
                head = 2
                if len(given) < 2 or not marks:
                    r.fail(init, where, f"{len(given)} initial events, {len(marks)} reads of the record", p)
                    continue
                r.require(all(i > done for i, _ in marks), first, where + "/late", "the record is read before the channels are subscribed to: a change in between is never heard of", p, t[done])
                r.require(all(i < given[0][0] for i, _ in marks[-1:]), init, where + "/read", "the initial events are not those just read", p)
                n = marks[-1][1].args[0][1]
                for (i, e), kind, own in ((given[0], "state", STATE_EVENT), (given[1], "progress", PROGRESS_EVENT)):
                    f = event_fields(e.args[0]) or {}
                    r.require(set(f) == {"type", "key", *own} | ({"when"} if kind == "state" else set()), init, f"{where}/{kind}/fields", f"has fields {sorted(f)}", p)
                    r.require(f.get("type") == const(kind) and f.get("key") == KEY, init, f"{where}/{kind}", f"says it is a {show(f['type']) if 'type' in f else None} event of {show(f['key']) if 'key' in f else None}", p)
                    if kind == "state":
                        r.require(plain(f.get("when")) == WHEN, init, where + "/state/when", f"when is {show(f['when']) if 'when' in f else None}", p)
                    for a in own:
                        x = ("sym", f"synced {n} {a}", None)
                        got = f.get(a)
                        absent = got == NONE and (p.fact(("truth", x)) is False or p.fact(("cmp", "==", x, NONE)) is True)
                        r.require(got == x or absent, init, f"{where}/{kind}/{a}", f"{a} is {show(got)[:50] if got else None}", p)
            # messages passed on
            heard = [e for e in t if e.kind == "loop" and e.args and e.args[0][:2] == ("reply", "LISTEN")]
            want = []
            for e in heard:
                for i in range(int(e.name)):
                    x = ("elem", norm(e.args[0]), i)
                    kind = p.fact(("cmp", "==", ("index", x, const("type")), const("message")))
                    r.require(kind is not None, relay, where + "/kind", "passes on or drops a message without looking at its kind", p, e)
                    if kind:
                        want.append(x)
            got = [loaded(e.args[0]) for _, e in given[head:]]
            r.require(got == want, relay, where, f"passes on {len(got)} of {len(want)} messages", p)
            changed = [norm(e.args[0]) for e in t if e.kind == "setitem"]
            for _, e in given[head:]:
                x = norm(e.args[0])
                if cls == "Execution" and loaded(x) is not None and x[0] == "call":
                    kind = p.fact(("cmp", "==", ("index", x, const("type")), const("state")))
                    r.require(kind is not None and (x in changed) == kind, relay, where + "/state-kind", "the state of a state event is not passed on as an ExecutionState", p)
            for e in t:
                if e.kind == "setitem" and loaded(e.args[0]) is not None:
                    x = norm(e.args[2])
                    same = x[0] == "call" and str(x[1]).endswith("ExecutionState") and norm(x[2][0]) == ("index", norm(e.args[0]), norm(e.args[1]))
                    r.require(same and e.args[1] == const("state"), relay, where + "/changed", f"changes {show(e.args[1])} of an event", p, e)
    recorded(w, r, record)
    for x in (first, init, relay, record):
        r.expect(x)


def loaded(t: Term) -> Term | None:
    """The message whose data a term is the decoding of."""
    t = norm(t)
    if t[0] == "call" and str(t[1]).split(".")[-1] == "loads" and t[2]:
        x = norm(t[2][0])
        while x[0] in ("text", "bytes") and len(x) == 2:
            x = norm(x[1])
        if x[0] == "index" and x[2] == const("data"):
            return norm(x[1])
    return None


def recorded(w: World, r: Report, rule: str) -> None:
    def body(it: Any) -> Term:
        e = w.execution(it)
        for a in STATE_ATTRS:
            it.heap[(norm(e), a)] = ("sym", f"old {a}", None)
        w.call(it, e, "Execution.sync")
        return ("tuple", tuple(norm(it.freeze(it.get_attr(e, a, w.frame("docket.execution"), None))) for a in STATE_ATTRS))
    where = "Execution.sync"

    def silent(it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term:
        it.emit(Event("mark", "progress", (fn[1],)))
        return NONE
    paths = w.paths(where, body, inline=lambda f: True, hooks={w.prog.func("ExecutionProgress.sync").qual: silent})
    for p in paths:
        r.require(sum(1 for e in p.trace if e.kind == "mark" and e.name == "progress") == 1, rule, where + "/progress", "the progress is not read", p)
    read_back(r, rule, where, paths, runs(), STATE_ATTRS, ("state",), ("state",))


# --------------------------------------------------------------------- results
def waiting(w: World) -> list[Path]:
    """Paths of waiting for a result, with what is read back of the record left open."""
    def body(it: Any) -> Term:
        e = w.execution(it)
        for a in STATE_ATTRS:
            it.heap[(norm(e), a)] = ("sym", f"held {a}", None)
        try:
            return w.call(it, e, "Execution.get_result", [], {"timeout": TIMEOUT, "deadline": DEADLINE})
        except PyRaise as x:
            a = it.heap.get((norm(x.exc), "args"))
            it.emit(Event("mark", "raised", (x.exc, a if a is not None else NONE)))
            raise

    def expired(e: Event, trace: list[Event]) -> list[str]:
        timed = e.kind == "call" and e.extra == "opaque" and last(e) == "wait_for" or e.kind == "cm" and e.name.startswith("enter") and limited(e) is not None
        return ["asyncio.TimeoutError"] if timed and not any(x.kind == "throw" for x in trace) else []
    sync = w.prog.func("Execution.sync").qual
    return w.paths("Execution.get_result", body, inline=lambda f: True, hooks={sync: syncing}, raises=expired)


def limited(e: Event) -> Term | None:
    """The time limit an event sets up."""
    if e.kind == "call" and last(e) == "wait_for":
        return e.kw("timeout") or (e.args[1] if len(e.args) > 1 else NONE)
    if e.kind == "cm" and e.name.startswith("enter") and e.args and e.args[0][0] == "call" and str(e.args[0][1]).split(".")[-1] in ("timeout", "timeout_at", "fail_after", "move_on_after"):
        return e.args[0][2][0] if e.args[0][2] else NONE
    return None


def c26(w: World, r: Report) -> None:
    r.explain.append("Every path of Execution.get_result is enumerated over what the held and the re-read record may say, what events may arrive and whether the time limit expires, and matched with the outcome it "
                     "reports; every path of Worker._execute is matched with what it stores of the outcome and under which key, and the encodings of the two sides are required to be inverse.")
    limits = r.rule("C26.limits", "giving both limits is refused with ValueError; the wait is bounded by exactly the time left, and not at all without a limit")
    wait = r.rule("C26.wait", "a finished task's result is not waited for; any other is waited for until an event says it has ended, and its record is read again after that")
    late = r.rule("C26.timeout", "running out of time, before or while waiting, raises TimeoutError")
    out = r.rule("C26.outcome", "a cancelled task raises ExecutionCancelled; a failed one the stored exception, or else an Exception with the recorded error; a completed one returns the stored value, or None")
    put = r.rule("C26.stored", "unless records are not kept, the value returned (if not None) or the exception raised is stored before the run is marked, under the key it is marked with, for as long as its record")
    codec = r.rule("C26.codec", "what is stored is decoded by exactly the inverse of how it was encoded, from the field it was put in")
    decoders: list[tuple[list[str], Term]] = []
    reader(w, r, limits, wait, late, out, decoders)
    encoders = writer(w, r, put)
    looked = {c[2] for p in waiting(w) for c, _ in facts(p) if c[0] == "cmp" and c[1] == "in" and stored_data(c[3])}
    for f in looked:
        for _, g, where in encoders:
            r.require(f == g, codec, where + "/looked-for", f"stored in field {show(g)}, looked for in {show(f)}")
    for dec, f in decoders:
        for enc, g, where in encoders:
            r.require(inverse(enc, dec), codec, where, f"encoded by {enc}, decoded by {dec}")
            r.require(f == g, codec, where + "/field", f"stored in field {show(g)}, taken from {show(f)}")
    for x in (limits, wait, late, out, put, codec):
        r.expect(x)


def reader(w: World, r: Report, limits: str, wait: str, late: str, out: str, decoders: list) -> None:
    where = "Execution.get_result"
    seen: set[str] = set()
    for p in waiting(w):
        if any(e.kind == "unending" for e in p.trace):
            ending(r, wait, where, p)
            continue
        both = p.fact(("cmp", "==", TIMEOUT, NONE)) is False and p.fact(("cmp", "==", DEADLINE, NONE)) is False
        waits = [e for e in p.trace if e.kind == "redis" and e.name in ("SUBSCRIBE", "LISTEN", "HGETALL", "HGET")]
        raised = next((e for e in p.trace if e.kind == "mark" and e.name == "raised"), None)
        cls = str(norm(p.value)[1]).split(".")[-1] if p.outcome == "raise" else None
        r.require((cls == "ValueError") == both, limits, where + "/both", "refuses one limit" if cls == "ValueError" else "accepts both limits", p)
        if both:
            r.require(not waits, limits, where + "/both-waits", "waits although it refuses", p)
            continue
        held = {n: said(p, lambda t: t == ("sym", "held state", None), n) for n in TERMINAL}
        thrown = [e for e in p.trace if e.kind == "throw"]
        if waits or thrown:
            r.require(all(v is False for v in held.values()), wait, where + "/needless", "waits for a task that may have ended", p, waits[0] if waits else None)
            bound(r, limits, where, p)
        elif cls != "TimeoutError":
            r.require(any(v is True for v in held.values()), wait, where + "/no-wait", "does not wait for a task that may not have ended", p)
        if thrown:
            seen.add("timeout")
            r.require(cls == "TimeoutError", late, where, f"running out of time ends as {cls or 'ok'}", p)
            continue
        if cls == "TimeoutError":
            seen.add("past")
            r.require(not waits and past(p), late, where + "/early", "gives up although time is left", p)
            continue
        # how the wait ended
        marks = [(i, e) for i, e in enumerate(p.trace) if e.kind == "mark" and e.name == "synced"]
        if waits:
            heard = [(c, t) for c, v in facts(p) if v and c[0] == "cmp" and c[1] == "==" for t in c[2:4] if t[0] == "enum" and t[2] in TERMINAL and any(x[0] == "elem" for x in walk(c))]
            at = max((i for i, e in enumerate(p.trace) if e.kind == "branch" and any(x[0] == "elem" for x in walk(norm(e.args[0]))) and any(x[0] == "enum" for x in walk(norm(e.args[0])))), default=-1)
            first = [n for n in TERMINAL if any(said(p, lambda t, i=i, e=e: t == ("sym", f"synced {e.args[0][1]} state", None), n) for i, e in marks)]
            r.require(bool(heard or first), wait, where + "/ends", "stops waiting before the task has ended", p)
            r.require(bool(marks) and (not heard or marks[-1][0] > at), wait, where + "/stale", "does not read the record again after the task has ended", p)
        now = f"synced {marks[-1][1].args[0][1]}" if marks else "held"
        state = {n: said(p, lambda t: t == ("sym", f"{now} state", None), n) for n in TERMINAL}
        rkey, err = ("sym", f"{now} result_key", None), ("sym", f"{now} error", None)
        v = norm(p.value)
        if p.outcome == "raise" and cls == "ExecutionCancelled":
            seen.add("cancelled")
            r.require(state["CANCELLED"] is True, out, where + "/cancelled", "a task that was not cancelled is reported as cancelled", p)
            continue
        dec, base = chain(v)
        stored = base[0] == "index" and base[1][0] == "call" and last_name(base[1][1]) == "get" and base[1][2] and norm(base[1][2][0]) == STORAGE
        r.require(state["CANCELLED"] is not True, out, where + "/cancelled-missed", "a cancelled task is not reported as such", p)
        if p.outcome == "raise":
            r.require(state["FAILED"] is True, out, where + "/failed", "a task that did not fail is reported as failed", p)
        else:
            r.require(state["COMPLETED"] is True or state["FAILED"] is False and state["CANCELLED"] is False, out, where + "/completed", "a task that may have failed is reported as completed", p)
        if stored:
            seen.add("stored " + p.outcome)
            r.require(norm(base[1][2][1]) == rkey, out, where + "/key", f"reads the result under {show(base[1][2][1])[:60]}", p)
            decoders.append((dec, norm(base[2])))
            continue
        kept = any(e.kind == "call" and last(e) == "get" and e.args and norm(e.args[0]) == STORAGE for e in p.trace)
        there = p.fact(("truth", rkey)) is False or p.fact(("cmp", "==", rkey, NONE)) is True or kept and nothing(p)
        r.require(there, out, where + "/ignored", "a stored outcome is ignored", p)
        if p.outcome == "ok":
            seen.add("none")
            r.require(v == NONE, out, where + "/none", f"without a stored value returns {show(v)[:60]}", p)
        else:
            seen.add("error")
            args = raised.args[1] if raised is not None else NONE
            msg = args[1][0] if args[0] == "tuple" and args[1] else NONE
            r.require(mentions(msg, err) or p.fact(("truth", err)) is False or p.fact(("cmp", "==", err, NONE)) is True, out, where + "/error", f"the error raised says {show(msg)[:60]}", p)
    for need in ("timeout", "past", "cancelled", "stored ok", "stored raise", "none", "error"):
        r.require(need in seen, out, f"{where}/case:{need}", f"no path ends this way: {need}")


def last_name(n: Any) -> str:
    return str(n).split(".")[-1]


def stored_data(t: Term) -> bool:
    return t[0] == "call" and last_name(t[1]) == "get" and bool(t[2]) and norm(t[2][0]) == STORAGE


def nothing(p: Path) -> bool:
    """Whether the path found nothing stored."""
    got = stored_data
    for c, v in facts(p):
        if c[0] == "truth" and not v and (got(c[1]) or c[1][0] in ("index",) and got(c[1][1])):
            return True
        if c[0] == "cmp" and c[1] == "==" and v and NONE in c[2:4] and any(got(x) or x[0] == "index" and got(x[1]) or x[0] == "call" and last_name(x[1]).endswith("get") and any(got(y) for y in x[2]) for x in c[2:4]):
            return True
        if c[0] == "cmp" and c[1] == "in" and not v and got(c[3]):
            return True
        if c[0] == "truth" and not v and c[1][0] == "call" and last_name(c[1][1]) == "get" and any(got(x) for x in c[1][2]):
            return True
    return False


def ending(r: Report, rule: str, where: str, p: Path) -> None:
    """On a path that goes on listening, nothing it was told says that the task ended."""
    for e in p.trace:
        if e.kind == "mark" and e.name == "synced":
            t: Any = lambda x, n=e.args[0][1]: x == ("sym", f"synced {n} state", None)
        elif e.kind == "loop" and e.args and e.args[0][:2] == ("reply", "LISTEN") and e.name != "0":
            if not any(c[0] == "cmp" and c[1] == "==" and v and const("state") in c[2:4] and any(x[0] == "elem" for x in walk(c)) for c, v in facts(p)):
                continue
            t = lambda x: any(y[0] == "elem" for y in walk(x))  # noqa: E731
        else:
            continue
        open_ = [n for n in TERMINAL if said(p, t, n) is not False]
        r.require(not open_, rule, where + "/misses", f"goes on waiting when told the task has ended as {', '.join(open_)}", p, e)


def bound(r: Report, rule: str, where: str, p: Path) -> None:
    got = [x for x in (limited(e) for e in p.trace) if x is not None]
    none = {t: p.fact(("cmp", "==", t, NONE)) for t in (TIMEOUT, DEADLINE)}
    want = linear(TIMEOUT) if none[TIMEOUT] is False else {DEADLINE: 1.0, "now": -1.0} if none[DEADLINE] is False else None
    if want is None:
        ok = all(norm(x) == NONE for x in got)
        r.require(ok, rule, where + "/unlimited", "without a limit, the wait is limited", p)
        return
    ok = len(got) == 1 and same_sum(linear(norm(got[0])), want)
    r.require(ok, rule, where + "/limit", f"the wait is limited by {[show(x)[:80] for x in got]}", p)


def past(p: Path) -> bool:
    """Whether the path found that no time is left."""
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "<":
            d = dict(linear(c[3]))
            for x, k in linear(c[2]).items():
                d[x] = d.get(x, 0) - k
            d = {x: k for x, k in d.items() if k}
            # c: 0 < d
            for left in ({DEADLINE: 1.0, "now": -1.0}, linear(TIMEOUT)):
                if not v and same_sum(d, left) or v and same_sum(d, {x: -k for x, k in left.items()}):
                    return True
    return False


def writer(w: World, r: Report, rule: str) -> list[tuple[list[str], Term, str]]:
    where = "Worker._execute"
    encoders: list[tuple[list[str], Term, str]] = []
    seen: set[str] = set()
    for p in execute_paths(w):
        marks = calls(p, *MARKS)
        puts = [e for e in p.trace if e.kind == "call" and last(e) in ("put", "put_many", "set") and e.args and norm(e.args[0]) == STORAGE]
        failed_put = any(e.kind == "throw" and str(e.extra).endswith(".put") for e in p.trace)
        for e in puts:
            key, value = (e.args[1:] + (NONE, NONE))[:2]
            ttl = e.kw("ttl")
            r.require(norm(key) == KEY, rule, where + "/key", f"stored under {show(key)[:60]}", p, e)
            r.require(ttl is not None and same_sum(linear(norm(ttl)), linear(TTL)), rule, where + "/ttl", f"kept for {show(ttl)[:60] if ttl else 'ever'}", p, e)
            r.require(p.fact(("truth", TTL)) is True, rule, where + "/unkept", "stored although records are not kept", p, e)
            parts = fields(norm(value))
            if parts is None or len(parts) != 1:
                r.fail(rule, where + "/value", f"stores {show(value)[:60]}", p, e)
                continue
            f, v = parts[0]
            enc, x = chain(v)
            if (enc, f, where) not in encoders:
                encoders.append((enc, f, where))
        if not marks or failed_put:
            continue
        m = marks[-1]
        rk = norm(m.kw("result_key") or NONE) if last(m) != "mark_as_cancelled" else NONE
        mine = [e for e in puts if p.trace.index(e) < p.trace.index(m)]
        r.require(len(puts) <= 1 and len(mine) == len(puts), rule, where + "/once", "the outcome is stored twice, or after the run is marked", p, m)
        r.require((rk == NONE) == (not mine), rule, where + "/marked", f"{'stores' if mine else 'does not store'} the outcome but marks the run with {show(rk)[:40]}", p, m)
        if mine:
            r.require(rk == norm(mine[0].args[1]), rule, where + "/same-key", f"stores under {show(mine[0].args[1])[:40]} but marks with {show(rk)[:40]}", p, m)
        value = chain(fields(norm(mine[0].args[2]))[0][1])[1] if mine and fields(norm(mine[0].args[2])) else None
        if last(m) == "mark_as_completed":
            bodies = [e for e in p.trace if is_body(e)]
            if not bodies:
                continue
            res = norm(bodies[-1].result)
            handled = any(e.kind == "branch" and "on_complete" in repr(e.args) and e.result for e in p.trace)
            if value is not None:
                seen.add("value")
                r.require(value == res, rule, where + "/value", f"stores {show(value)[:60]} instead of what the task returned", p, mine[0])
            elif not handled:
                empty = p.fact(("cmp", "==", res, NONE)) is True or p.fact(("truth", TTL)) is False
                r.require(empty, rule, where + "/lost", "does not store what the task returned", p, m)
        elif last(m) == "mark_as_failed":
            err = norm(m.kw("error") or (m.args[1] if len(m.args) > 1 else NONE))
            exc = [x for x in walk(err) if x[0] in ("exc", "inst")]
            if value is not None:
                seen.add("exception")
                undumped = any(e.kind == "throw" and e.extra == "cloudpickle.dumps" for e in p.trace)
                r.require(value in exc or undumped and value[0] in ("exc", "inst"), rule, where + "/exception", f"stores {show(value)[:60]} instead of the exception raised", p, mine[0])
            else:
                r.require(p.fact(("truth", TTL)) is False, rule, where + "/exception-lost", "does not store the exception raised", p, m)
    for need in ("value", "exception"):
        r.require(need in seen, rule, f"{where}/case:{need}", f"no path stores the {need}")
    return encoders


def fields(t: Term) -> list[tuple[Term, Term]] | None:
    if t[0] == "call" and t[1] == "dict":
        return [(norm(kv[1][0]), norm(kv[1][1])) for kv in t[2]]
    return None
