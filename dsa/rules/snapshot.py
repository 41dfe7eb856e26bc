"""What a snapshot of a docket shows."""
from __future__ import annotations

from typing import Any

from ..delta import Delta
from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import NONE, Term, const, norm, show, walk
from .common import QUEUE, STREAM, facts, group, linear, mentions, parked, units
from .running import last
from .wire import attrs, undo

RESPONSE = "redis.exceptions.ResponseError"
OPAQUE = {"from_message", "workers", "_ensure_stream_and_group"}
KEPT = ("docket", "function", "args", "kwargs", "key", "when", "attempt", "trace_context", "redelivered", "function_name", "state", "started_at", "completed_at", "error", "result_key")
SHOWN = 1000


def faults(e: Event, trace: list[Event]) -> list[str]:
    return [RESPONSE] if e.kind == "redis" and e.name == "EXEC" and not any(x.kind == "throw" for x in trace) else []


def bind(w: World, name: str, e: Event) -> dict[str, Term]:
    """The arguments of a construction by the names of its parameters."""
    c = w.prog.klass(name)
    init = w.prog.method(c, "__init__")
    names = [a.arg for a in init.node.args.args[1:]] if init is not None and "__init__" in c.methods else list(c.attrs)
    out = dict(zip(names, (norm(a) for a in e.args)))
    out.update({k: norm(v) for k, v in e.kwargs})
    return out


def count(e: Event) -> float:
    """How many entries a range is limited to."""
    for a in e.args:
        if a[0] == "tuple" and len(a[1]) == 2 and a[1][0] == const("count"):
            return float(a[1][1][1]) if a[1][1][0] == "const" and a[1][1][1] is not None else float("inf") if a[1][1] == NONE else 0
    return float("inf")


def items(t: Term) -> list[Term]:
    t = norm(t)
    if t[0] == "call" and t[1] in ("list", "tuple", "sorted"):
        if len(t[2]) == 1 and t[2][0][0] == "call" and t[2][0][1] in ("list", "tuple"):
            return items(t[2][0])
        return [norm(x) for x in t[2]]
    return list(t[1]) if t[0] == "tuple" else []


def c33(w: World, r: Report) -> None:
    r.explain.append("Docket.snapshot is enumerated over unknown replies, with the first transaction failing or not: every listed execution is traced back to the message it was read from, and the test that sorts it into running or future to the list of pending deliveries.")
    once = r.rule("C33.once", "lengths, deliveries, messages and schedule are read in one transaction, of this docket, and nothing is written")
    total = r.rule("C33.total", "the total is the number of messages in the stream and in the schedule")
    sort = r.rule("C33.sort", "each message of the stream is listed once: running if it is delivered and unacknowledged, future otherwise")
    who = r.rule("C33.who", "a running task shows the worker it was delivered to and the time of its delivery")
    future = r.rule("C33.future", "each scheduled task whose message is still parked is listed once as future, and no other")
    workers = r.rule("C33.workers", "the workers listed are those workers() lists")
    retry = r.rule("C33.group", "a docket without a consumer group yet gets one and is then shown; any other failure is reported")
    same = r.rule("C33.same", "a running task is shown with everything its message and record say")
    paths = w.paths("Docket.snapshot", lambda it: w.call(it, DOCKET, "DocketSnapshotMixin.snapshot", []), inline=lambda f: f.name not in OPAQUE, loop=2, raises=faults, faults=1, budget=20000, summarise=lambda f: False)
    group_name = norm(group(w))
    for p in paths:
        where = "Docket.snapshot"
        thrown = [e for e in p.trace if e.kind == "throw"]
        if p.outcome != "ok":
            made = any(e.kind == "call" and last(e) == "_ensure_stream_and_group" for e in p.trace)
            r.require(bool(thrown) and not made and p.value is not None and p.value[:2] == ("exc", RESPONSE), retry, where + "/fails", f"raises {show(p.value)[:80] if p.value else ''}", p)
            continue
        d = Delta(p.trace)
        r.require(not d.writes, once, where + "/writes", f"writes {', '.join(e.name for e in d.writes)}", p)
        start = 0
        if thrown:
            at = p.trace.index(thrown[0])
            made = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "_ensure_stream_and_group" and i > at]
            nogroup = any(v and c[0] == "cmp" and c[1] == "in" and norm(c[2]) in (const("NOGROUP"), const("XPENDING")) for c, v in facts(p))
            r.require(len(made) == 1 and nogroup, retry, where + "/made", "goes on after a failure without making the missing group", p)
            start = made[0] if made else at
        es = p.trace[start:]
        snaps = [e for e in es if e.kind == "new" and e.name.endswith(".DocketSnapshot")]
        if not r.require(bool(snaps) and norm(snaps[-1].result) == norm(p.value), retry if thrown else total, where + "/shown", "shows nothing of what it read", p):
            continue
        s = bind(w, "DocketSnapshot", snaps[-1])
        reads = {c: [e for e in es if e.kind == "redis" and e.name == c] for c in ("XLEN", "ZCARD", "XPENDING", "XRANGE", "ZRANGE")}
        for c, k in (("XLEN", STREAM), ("ZCARD", QUEUE), ("XPENDING", STREAM), ("XRANGE", STREAM), ("ZRANGE", QUEUE)):
            r.require(len(reads[c]) == 1 and reads[c][0].args[0] == k, once, f"{where}/{c}", f"{c} is read {len(reads[c])} times or not of its own", p)
        if any(len(v) != 1 for v in reads.values()):
            continue
        xlen, zcard, pend, xr, zr = (reads[c][0] for c in ("XLEN", "ZCARD", "XPENDING", "XRANGE", "ZRANGE"))
        r.require(len(units([xlen, zcard, pend, xr, zr])) == 1, once, where + "/atomic", "what is shown is read in several steps", p, xr)
        opts = {a[1][0][1]: a[1][1] for a in pend.args if a[0] == "tuple" and len(a[1]) == 2 and a[1][0][0] == "const"}
        r.require(norm(pend.args[1]) == group_name and opts.get("min") == const("-") and opts.get("max") == const("+") and opts.get("consumername", NONE) == NONE and opts.get("idle", NONE) == NONE, once, where + "/deliveries", "does not read every delivery of the workers' group", p, pend)
        r.require(tuple(norm(a) for a in xr.args[1:3]) == (const("-"), const("+")) and count(xr) >= SHOWN, once, where + "/messages", "does not read every message of the stream", p, xr)
        r.require(count(pend) >= count(xr), once, where + "/as-many", "reads fewer deliveries than messages", p, pend)
        r.require(tuple(norm(a) for a in zr.args[1:3]) == (const(0), const(-1)), once, where + "/schedule", "does not read the whole schedule", p, zr)

        r.require({k: v for k, v in linear(s.get("total_tasks", NONE)).items()} == {norm(xlen.result): 1, norm(zcard.result): 1}, total, where, f"the total is {show(s.get('total_tasks', NONE))[:100]}", p)
        r.require(set(linear(s.get("taken", NONE))) == {"now"}, total, where + "/taken", f"the snapshot is dated {show(s.get('taken', NONE))[:60]}", p)
        ws = [e for e in es if e.kind == "call" and last(e) == "workers"]
        r.require(len(ws) == 1 and norm(ws[0].result if ws[0].result else NONE) == s.get("workers") or any(x[0] == "call" and str(x[1]).endswith(".workers") and x[2][:1] == (DOCKET,) for x in walk(s.get("workers", NONE))), workers, where, f"the workers shown are {show(s.get('workers', NONE))[:80]}", p)

        runs = {norm(e.result): bind(w, "RunningExecution", e) for e in es if e.kind == "new" and e.name.endswith(".RunningExecution")}
        running, later = items(s.get("running", NONE)), items(s.get("future", NONE))
        reply, prep = norm(xr.result), norm(pend.result)
        n = rounds(es, reply)
        left_run, left_fut = list(running), list(later)
        for i in range(n):
            el: Term = ("elem", reply, i)
            busy = pending(p, ("index", el, const(0)), prep)
            as_run = [x for x in running if x in runs and message_of(runs[x].get("execution", NONE)) == ("index", el, const(1))]
            as_fut = [x for x in later if message_of(x) == ("index", el, const(1))]
            if not r.require(busy is not None, sort, where + "/tested", "a message is listed without having looked for its delivery", p):
                break
            r.require((len(as_run), len(as_fut)) == ((1, 0) if busy else (0, 1)), sort, where, f"a {'delivered' if busy else 'waiting'} message is listed {len(as_run)} times as running and {len(as_fut)} times as future", p)
            left_run = [x for x in left_run if x not in as_run]
            left_fut = [x for x in left_fut if x not in as_fut]
            for x in as_run:
                b = {k: resolve(v, ("index", el, const(0)), prep) for k, v in runs[x].items()}
                consumer = undo(b.get("worker", NONE))
                r.require(record_field(p, consumer, el, prep, "consumer"), who, where + "/worker", f"the worker shown is {show(consumer)[:100]}", p)
                lin = linear(b.get("started", NONE))
                rest = [k for k in lin if k != "now"]
                r.require(lin.get("now") == 1 and len(rest) == 1 and abs(lin[rest[0]] + 0.001) < 1e-9 and record_field(p, norm(rest[0]), el, prep, "time_since_delivered"), who, where + "/started", f"the time of the start shown is {show(b.get('started', NONE))[:120]}", p)
        zrep = norm(zr.result)
        gone = 0
        for i in range(rounds(es, zrep)):
            m: Term = ("elem", zrep, i)
            hs = [e for e in es if e.kind == "redis" and e.name == "HGETALL" and e.args[0] == parked(m)]
            if not r.require(len(hs) == 1, future, where + "/read", f"a scheduled task's message is read {len(hs)} times", p):
                continue
            kept = p.fact(("truth", norm(hs[0].result)))
            as_fut = [x for x in later if message_of(x) == norm(hs[0].result)]
            r.require(kept is not None or not as_fut, future, where + "/gone", "a scheduled task may have lost its message", p)
            gone += kept is False
            r.require(len(as_fut) == (1 if kept else 0), future, where, f"a scheduled task whose message is {'parked' if kept else 'gone'} is listed {len(as_fut)} times", p)
            left_fut = [x for x in left_fut if x not in as_fut]
        r.require(not left_run and not left_fut, sort, where + "/others", f"lists {', '.join(show(x)[:80] for x in left_run + left_fut)}", p)
    copies(w, r, same)
    for rule, k in ((once, 8), (total, 2), (sort, 4), (who, 2), (future, 4), (workers, 1), (retry, 2), (same, len(KEPT))):
        r.expect(rule, k)


def rounds(es: list[Event], reply: Term) -> int:
    return max([int(e.name) for e in es if e.kind == "loop" and source(e.args[0]) == reply] or [0])


def source(t: Term) -> Term:
    t = norm(t)
    while t[0] == "call" and t[1] in ("list", "tuple", "iter", "reversed", "sorted") and len(t[2]) == 1:
        t = norm(t[2][0])
    return t


def message_of(t: Term) -> Term | None:
    """The message an execution was read from."""
    t = norm(t)
    if t[0] == "call" and str(t[1]).endswith("Execution.from_message") and len(t[2]) >= 3 and t[2][1] == DOCKET:
        return norm(t[2][2])
    return None


def pending(p: Path, the_id: Term, prep: Term) -> bool | None:
    """Whether a path found a message among the deliveries."""
    for c, v in facts(p):
        if not mentions(c, the_id) or not any(x == prep for x in walk(c)):
            continue
        if c[0] == "cmp" and c[1] == "==" and NONE in (norm(c[2]), norm(c[3])):
            return not v
        if c[0] == "cmp" and c[1] == "==":
            if v:
                return True
            continue
        if c[0] == "cmp" and c[1] == "in" and norm(c[2]) == the_id and keyed(c[3], prep) or c[0] == "truth" and resolve(c[1], the_id, prep) != norm(c[1]):
            return v
    loops = [e for e in p.trace if e.kind == "loop" and source(e.args[0]) == prep]
    return False if loops else None


def keyed(t: Term, prep: Term) -> bool:
    """A collection of the identifiers of all deliveries."""
    t = norm(t)
    if t[0] != "call" or not str(t[1]).startswith("comp:") or tuple(t[2][0][1]) != (prep,) or len(t[2][1][1]) != 1:
        return False
    x = t[2][1][1][0]
    k = x[1][0] if t[1] == "comp:dict" else x
    return norm(k) == ("index", ("elem", prep, 0), const("message_id"))


def resolve(t: Any, the_id: Term, prep: Term) -> Any:
    """A value looked up by a message's identifier, in terms of the delivery found."""
    if not isinstance(t, tuple):
        return t
    look = t[1:3] if t[:1] == ("index",) else t[2][:2] if t[:2] == ("call", "get") and len(t[2]) >= 2 else None
    if look and norm(look[1]) == the_id and look[0][0] == "call" and look[0][1] == "comp:dict" and keyed(look[0], prep):
        return norm(look[0])[2][1][1][0][1][1]
    out = tuple(resolve(x, the_id, prep) for x in t)
    return norm(out) if out and isinstance(out[0], str) else out


def record_field(p: Path, t: Term, el: Term, prep: Term, field: str) -> bool:
    """A field of the delivery of this message: of the one found for it."""
    t = norm(t)
    if t[0] == "call" and t[1] == "get" and len(t[2]) == 2:
        t = ("index", norm(t[2][0]), norm(t[2][1]))
    if not (t[0] == "index" and t[2] == const(field) and t[1][0] == "elem" and t[1][1] == prep):
        return False
    return not any(e.kind == "loop" and source(e.args[0]) == prep for e in p.trace) or \
        any(v and c[0] == "cmp" and c[1] == "==" and mentions(c, el) and mentions(c, t[1]) for c, v in facts(p))


def copies(w: World, r: Report, rule: str) -> None:
    WORKER_NAME: Term = ("sym", "worker_name", "str")
    STARTED: Term = ("sym", "started", "datetime")

    def body(it: Any) -> Term:
        e = w.execution(it)
        attrs(w, it, e, KEPT)
        c = w.prog.klass("RunningExecution")
        g = w.make(it, c.qual, execution=e, worker=WORKER_NAME, started=STARTED)
        it.emit(Event("mark", "made", (NONE,)))
        attrs(w, it, g, (*KEPT, "worker", "started"))
        return g
    for p in w.paths("RunningExecution", body, inline=lambda f: True):
        if not r.require(p.outcome == "ok", rule, "RunningExecution/fails", "raises", p):
            continue
        ms = [(e.name, norm(e.args[0])) for e in p.trace if e.kind == "mark" and e.args]
        cut = [n for n, _ in ms].index("made")
        orig, got = dict(ms[:cut]), dict(ms[cut + 1:])
        orig.update(worker=WORKER_NAME, started=STARTED)
        for a in (*KEPT, "worker", "started"):
            same = plain(got[a]) == plain(orig[a]) or a == "function_name" and got[a][0] == "or" and got[a][1][0] == orig[a]
            r.require(same, rule, f"RunningExecution/{a}", f"the {a} shown is {show(got[a])[:80]}", p)


def plain(t: Term) -> Term:
    return norm(t[2][0]) if t[0] == "call" and t[1] in ("list", "tuple", "dict") and len(t[2]) == 1 and t[2][0][0] != "tuple" else t
