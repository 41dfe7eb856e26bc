"""The worker's loop: polling, running deliveries, admission, leases, shutdown."""
from __future__ import annotations

from typing import Any, Callable

from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, walk
from ..delta import Delta
from .common import MSGID, STREAM, facts, group, mentions, scheduling_paths
from .lifecycle import MARKS, method
from .running import arguments, before, calls, last

OPAQUE = {"_log_context", "_cancellation_listener", "_schedule_all_automatic_perpetual_tasks", "_heartbeat", "_remove_heartbeat", "_scheduler_loop", "_renew_leases",
          "_reseed_automatic_perpetual_tasks_loop", "from_message", "_execute", "is_superseded", "mark_as_cancelled", "mark_as_failed", "mark_as_completed", "schedule",
          "_ensure_stream_and_group", "_maybe_suppress_instrumentation", "cancel_task", "labels", "_wait_for_event"}
WORKER: Term = ("sym", "worker", "docket.worker.Worker")
BLOCKED = "docket.dependencies._base.AdmissionBlocked"
CANCELLED = "asyncio.CancelledError"
CONNECTION = "redis.exceptions.ConnectionError"
NO_CLASSES = {"docket.worker.Worker._dependency_lifecycle_classes": lambda *a: ("tuple", ())}


def spawned_run(e: Event) -> bool:
    return e.kind == "spawn" and e.name.endswith("._execute")


def runs_spawned(trace: list[Event]) -> list[Event]:
    return [e for e in trace if spawned_run(e)]


def loop_paths(w: World, name: str, raises: Callable | None = None, prune: Callable | None = None, assume: list[tuple[Term, bool]] | None = None, **cfg: Any) -> list[Path]:
    def body(it: Any) -> Term:
        it.run.assume(("truth", ("attr", WORKER, "schedule_automatic_tasks")), False)
        for c, v in assume or []:
            it.run.assume(c, v)
        return w.call(it, w.worker(it), "Worker._worker_loop", [("sym", "redis", "RedisClient")])

    def skip(e: Event, trace: list[Event]) -> bool:
        if trace and (before := trace[-1]).kind == "call" and before.name.endswith("._wait_for_event"):
            return not (e.kind == "branch" and e.result is True and "_wait_for_event" in repr(e.args[0]))
        if e.kind == "branch" and e.result is False and unset(e, trace):
            return True
        return bool(prune and prune(e, trace))

    kw = dict(cfg)
    if raises is not None:
        kw["raises"] = raises
    return w.paths("Worker._worker_loop(" + name + ")", body, inline=lambda f: f.name not in OPAQUE, prune=skip, hooks=NO_CLASSES, budget=60000, **kw)


def event_of(t: Term) -> Term | None:
    """The event whose is_set() a condition asks about."""
    if t[0] == "truth" and t[1][0] == "call" and str(t[1][1]).endswith(".is_set"):
        return norm(t[1][2][0])
    return None


def unset(e: Event, trace: list[Event]) -> bool:
    """An event that was set is found not to be: no such path."""
    ev = event_of(e.args[0])
    if ev is None:
        return False
    for x in trace:
        if x.kind == "branch" and x.result and event_of(x.args[0]) == ev:
            return True
        if x.kind == "call" and last(x) == "set" and x.args and norm(x.args[0]) == ev:
            return True
    return False


def is_execute_task(t: Term) -> bool:
    return t[0] == "call" and t[1] == "task" and "._execute" in repr(t[2])


def joined(e: Event) -> bool:
    return e.kind == "await" and e.name == "task" and any(is_execute_task(a) for a in e.args)


def execution_of(spawn: Event) -> Term:
    return norm(dict(spawn.kwargs).get("execution") or spawn.args[1])


def acked_fact(p: Path, x: Term) -> bool | None:
    for c, v in facts(p):
        if c[0] == "truth" and c[1][0] == "attr" and "acked" in str(c[1][2]) and norm(c[1][1]) == x:
            return v
    return None


def flag(p: Path, exc: Term, attr: str) -> bool | None:
    for c, v in facts(p):
        if c[0] == "truth" and c[1] == ("attr", exc, attr):
            return v
    return None


def on(e: Event, x: Term, exc: Term | None) -> bool:
    """The call is made on the execution at hand (as run, or as blocked)."""
    recv = norm(e.args[0]) if e.args else NONE
    return recv == x or exc is not None and recv == ("attr", exc, "execution")


def lin(t: Term) -> tuple[Term, float] | None:
    """A term as base + constant."""
    t = norm(t)
    if t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return NONE, t[1]
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        a, b = lin(t[2]), lin(t[3])
        if a and b and (b[0] == NONE):
            return a[0], a[1] + (b[1] if t[1] == "+" else -b[1])
        if a and b and a[0] == NONE and t[1] == "+":
            return b[0], a[1] + b[1]
    return t, 0


# --------------------------------------------------------------------- admission
def c24(w: World, r: Report) -> None:
    r.explain.append("Every path of Worker._worker_loop that runs one delivery is enumerated (helpers inlined, executions symbolic); the finished run is made to raise AdmissionBlocked, be cancelled, or "
                     "return, and what the loop then does with the delivery is matched against how the run ended.")
    handled = r.rule("C24.handled", "a block already handled by its gate is left alone")
    resched = r.rule("C24.reschedule", "a run blocked for later is rescheduled, as its own delivered message, at the current time plus the gate's delay (a positive default otherwise)")
    superseded = r.rule("C24.superseded", "a superseded blocked run is ended instead of rescheduled")
    drop = r.rule("C24.drop", "a run blocked for good is ended as cancelled, never rescheduled")
    canc = r.rule("C24.cancelled", "a run whose cancellation escaped is ended as cancelled unless its delivery is already acknowledged, and the worker goes on")
    net = r.rule("C24.safety-net", "a finished run whose delivery nobody acknowledged is ended as failed; an acknowledged one is not ended again")
    flagged = r.rule("C24.flag", "an execution counts as acknowledged exactly when its delivery has been: by a refused claim, by ending it (from before the reply, which may be lost) or by rescheduling it")
    reg = r.rule("C24.registry", "a finished run is unregistered from the key's cancellation registry only if it is the one registered")

    def raises(e: Event, trace: list[Event]) -> list[str]:
        return [BLOCKED, CANCELLED] if joined(e) and not any(x.kind == "throw" for x in trace) else []

    def prune(e: Event, trace: list[Event]) -> bool:
        return spawned_run(e) and bool(runs_spawned(trace))

    seen: set[str] = set()
    for p in loop_paths(w, "one delivery", raises, prune):
        awaits = [e for e in p.trace if joined(e)]
        if not awaits:
            continue
        spawn = runs_spawned(p.trace)[0]
        x = execution_of(spawn)
        i = p.trace.index(awaits[0])
        after = p.trace[i:]
        marks = [e for e in after if e.kind == "call" and last(e) in ("mark_as_cancelled", "mark_as_failed", "mark_as_completed")]
        scheds = [e for e in after if e.kind == "call" and last(e) == "schedule"]
        exc = next((norm(e.args[0]) for e in after if e.kind == "throw"), None)
        kind = next((e.name for e in after if e.kind == "throw"), None)
        where = "Worker._worker_loop"
        for e in p.trace:
            if e.kind == "delitem" and norm(e.args[0]) == ("attr", WORKER, "_tasks_by_key"):
                same = [v for c, v in facts(p) if c[0] == "cmp" and c[1] == "==" and any(is_execute_task(y) for y in c[2:4]) and "_tasks_by_key" in repr(c)]
                r.require(same == [True], reg, where, "a run may unregister its key's successor", p, e)
        for e in p.trace:
            if e.kind == "call" and last(e) == "pop" and e.args and norm(e.args[0]) == ("attr", WORKER, "_tasks_by_key"):
                same = [v for c, v in facts(p) if c[0] == "cmp" and c[1] == "==" and any(is_execute_task(y) for y in c[2:4]) and "_tasks_by_key" in repr(c)]
                r.require(same == [True], reg, where, "a run may unregister its key's successor", p, e)
        for e in marks + scheds:
            r.require(on(e, x, exc), net, where + "/receiver", f"{last(e)} is applied to {show(e.args[0]) if e.args else 'nothing'}", p, e)
        names = [last(e) for e in marks]
        acked = acked_fact(p, x)
        if kind == BLOCKED and flag(p, exc, "handled"):
            seen.add("handled")
            r.require(not marks and not scheds, handled, where, "a block that was handled is acted upon", p, (marks + scheds)[0] if marks + scheds else None)
            continue
        if kind == BLOCKED and flag(p, exc, "reschedule"):
            sup = [v for c, v in facts(p) if c[0] == "truth" and c[1][0] == "call" and str(c[1][1]).endswith("is_superseded")]
            if sup == [True]:
                seen.add("superseded")
                r.require(names[:1] == ["mark_as_cancelled"] and not scheds, superseded, where, "a superseded blocked run is not ended as cancelled", p, scheds[0] if scheds else None)
            else:
                seen.add("reschedule")
                r.require(sup == [False], superseded, where + "/asked", "whether the blocked run is superseded is not asked before it is rescheduled", p, scheds[0] if scheds else None)
                if r.require(len(scheds) == 1 and not [m for m in names if m != "mark_as_failed"], resched, where, f"a run blocked for later leads to {[last(e) for e in after if e in marks or e in scheds]}", p):
                    s = scheds[0]
                    mid = s.arg(2, "reschedule_message", NONE)
                    want = message_id(x)
                    r.require(norm(mid) == want, resched, where + "/message", f"rescheduled as the message {show(mid)} rather than {show(want)}", p, s)
                    r.require(s.arg(1, "replace", FALSE) in (FALSE, NONE), resched, where + "/replace", "rescheduling replaces the key", p, s)
                    asg = [e for e in after[:after.index(s)] if e.kind == "assign" and e.name == "when"]
                    ok = len(asg) >= 1 and (norm(asg[-1].args[0]) in (x, ("attr", exc, "execution")))
                    if r.require(ok, resched, where + "/when", "the time of the rescheduled run is not set", p, s):
                        delay_ok(r, resched, where, p, asg[-1], exc)
        elif kind == BLOCKED:
            seen.add("drop")
            r.require(flag(p, exc, "reschedule") is False, drop, where + "/asked", "the gate's decision is not consulted", p)
            r.require(names[:1] == ["mark_as_cancelled"] and not scheds, drop, where, "a run blocked for good is not ended as cancelled", p, scheds[0] if scheds else None)
        elif kind == CANCELLED:
            seen.add("cancelled")
            r.require(any(e.kind == "catch" for e in after), canc, where + "/survives", "the cancellation of a run stops its worker", p, awaits[0])
            r.require(not scheds, canc, where + "/schedule", "a cancelled run is rescheduled", p, scheds[0] if scheds else None)
            if acked is False:
                r.require(names[:1] == ["mark_as_cancelled"], canc, where, "a cancelled, unacknowledged run is not ended as cancelled", p)
        else:
            seen.add("returned")
            r.require(not scheds and "mark_as_cancelled" not in names, net, where + "/returned", "a run that returned is ended or rescheduled again", p, (marks + scheds)[0] if marks + scheds else None)
        if r.require(acked is not None, net, where + "/asked", "whether the delivery was acknowledged is not checked", p):
            if acked:
                r.require("mark_as_failed" not in names, net, where + "/twice", "an acknowledged run is ended as failed", p, marks[-1] if marks else None)
            else:
                r.require(names[-1:] == ["mark_as_failed"] or kind == CANCELLED and bool(names), net, where, "a finished run nobody acknowledged stays on the stream", p)
    acknowledged(w, r, flagged)
    for want in ("handled", "superseded", "reschedule", "drop", "cancelled", "returned"):
        r.require(want in seen, net, "Worker._worker_loop/" + want, f"no path handles a {want} run")
    for rule in (handled, resched, superseded, drop, canc, net, reg, flagged):
        r.expect(rule)


def acknowledged(w: World, r: Report, rule: str) -> None:
    """What is kept of a delivery's having been acknowledged."""
    def marked(p: Path) -> list[tuple[int, Event]]:
        return [(i, e) for i, e in enumerate(p.trace) if e.kind == "assign" and "acked" in e.name]
    for qual in ("Execution.claim", *MARKS):
        for p, d in method(w, qual):
            if p.outcome != "ok":
                continue
            got = marked(p)
            now = bool(got) and norm(got[-1][1].args[1]) == TRUE
            if qual == "Execution.claim" and norm(p.value) == TRUE:
                r.require(not now, rule, qual, "a claimed delivery counts as acknowledged", p)
                continue
            r.require(now, rule, qual, "an ended delivery does not count as acknowledged", p)
            if now and qual != "Execution.claim":
                first = next((i for i, e in enumerate(p.trace) if e.kind in ("redis", "script")), len(p.trace))
                r.require(got[-1][0] < first, rule, qual + "/before", "the delivery counts as acknowledged only once the reply has arrived", p, got[-1][1])
    for how in ("add", "reschedule"):
        for p in scheduling_paths(w, how):
            if p.outcome != "ok":
                continue
            d = Delta(p.trace)
            got = marked(p)
            now = bool(got) and norm(got[-1][1].args[1]) == TRUE
            if how == "add":
                r.require(not now, rule, "Execution.schedule", "scheduling without a delivery counts as acknowledging one", p)
            elif d.xack:
                same = next((v for c, v in facts(p) if c[0] == "cmp" and c[1] == "==" and MSGID in c[2:4] and any(x[0] in ("sym", "attr") and "message_id" in str(x[-1 if x[0] == "attr" else 1]) for x in c[2:4])), None)
                r.require(now is (same is not False), rule, "Execution.schedule(reschedule)", "a rescheduled delivery does not count as acknowledged" if same is not False else "another's delivery counts as this one's", p)
            else:
                r.require(not now, rule, "Execution.schedule(reschedule)", "a delivery left alone counts as acknowledged", p)
    def fresh(it: Any) -> Term:
        e = w.make(it, "Execution", docket=DOCKET, function=("sym", "function", None), args=("sym", "args", None), kwargs=("sym", "kwargs", None), key=("sym", "key", "str"), when=("sym", "when", "datetime.datetime"), attempt=const(1))
        return it.freeze(it.get_attr(e, flag_name, w.frame("docket.execution"), None))
    flag_name = next((e.name for p, _ in method(w, "Execution.mark_as_completed") for _, e in marked(p)), "_acked")
    for p in w.paths("Execution()", fresh):
        r.require(norm(p.value) == FALSE, rule, "Execution", "a new execution counts as acknowledged", p)


def message_id(x: Term) -> Term:
    """The message id a delivered execution was built with."""
    assert x[0] == "call"
    for a in x[2]:
        if a[0] == "tuple" and len(a[1]) == 2 and a[1][0] == const("message_id"):
            return norm(a[1][1])
    return norm(x[2][-1])


def delay_ok(r: Report, rule: str, where: str, p: Path, a: Event, exc: Term) -> None:
    t = norm(a.args[1])
    ok = t[0] == "op" and t[1] == "+" and any(y[0] == "now" for y in walk(t))
    d = next((y for y in (t[2], t[3]) if not any(z[0] == "now" for z in walk(y))), NONE) if ok else NONE
    given = ("attr", exc, "retry_delay")
    uses = mentions(d, given)
    v = next((v for c, v in facts(p) if c == ("truth", given) or c == ("cmp", "==", given, NONE)), None)
    r.require(ok, rule, where + "/when-now", f"the rescheduled run's time is {show(t)}", p, a)
    r.require(uses or v is not None, rule, where + "/delay", f"the gate's delay is ignored: {show(d)}", p, a)
    other = [y[1] for y in walk(d) if y[0] == "const" and isinstance(y[1], (int, float))]
    if uses and d != given or not uses:
        r.require(bool(other) and all(n > 0 for n in other), rule, where + "/default", f"the default delay is {show(d)}", p, a)


# ------------------------------------------------------------------- concurrency
def c12(w: World, r: Report) -> None:
    r.explain.append("Two rounds of Worker._worker_loop are enumerated with up to two messages per reply; for every read of the stream, the number of messages asked for is compared with the configured "
                     "concurrency less the runs started and not yet finished on that path.")
    cap = r.rule("C12.capacity", "every read from the stream asks for at most concurrency minus the number of unfinished runs")
    some = r.rule("C12.positive", "the stream is only read while that number is positive (no count means no limit)")
    start = r.rule("C12.start", "every delivered message is started as its own run, outside the worker's task group")

    def base(e: Event) -> bool:
        if e.kind == "branch":
            t = repr(e.args)
            if e.result and "is_set" in t and "_worker_stopping" in t:
                return True
            if e.result and "Task.done" in t:
                return True
        return e.kind == "cm" and e.name.startswith("exit:") and "TaskGroup" in e.name

    def two(e: Event, trace: list[Event]) -> bool:
        return base(e) or spawned_run(e) and len(runs_spawned(trace)) >= 2

    def three(e: Event, trace: list[Event]) -> bool:
        return base(e) or spawned_run(e) and len(runs_spawned(trace)) >= 3

    def cut(n: int) -> Callable[[Event, list[Event]], bool]:
        return lambda e, trace: e.kind == "redis" and e.name == "XREADGROUP" and sum(1 for x in trace if x.kind == "redis" and x.name == "XREADGROUP") >= n

    forever = [(("truth", ("sym", "forever", "bool")), True)]
    got = loop_paths(w, "two rounds", None, two, forever, loop=1, whiles=2, cut=cut(2))
    got = got + loop_paths(w, "one round", None, three, forever, loop=2, whiles=2, cut=lambda e, trace: e.kind == "redis" and e.name == "XAUTOCLAIM" and any(x.kind == "redis" and x.name == e.name for x in trace[:-1]))
    deepest = 0
    for p in got:
        live = 0
        for e in p.trace:
            if spawned_run(e):
                live += 1
                deepest = max(deepest, live)
                r.require(str(e.extra).startswith("asyncio."), start, "Worker._worker_loop/task-group", "the run is started in the worker's task group, whose end would cancel it", p, e)
            elif joined(e):
                live -= 1
            elif e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM"):
                n = e.kw("count", NONE)
                slots = capacity(n)
                where = f"Worker._worker_loop/{e.name}"
                if not r.require(slots is not None, cap, where + "/count", f"asks for {show(n)} messages", p, e):
                    continue
                r.require(-slots >= live, cap, where, f"asks for {show(n)} messages while {live} runs are unfinished", p, e)
                r.require(n[0] == "call" and n[1] == "max" and False or positive(p, slots), some, where, f"reads although {show(n)} may be zero", p, e)
        each_started(r, start, p)
    r.require(deepest >= 2, cap, "Worker._worker_loop/rounds", f"at most {deepest} runs are ever started")
    for rule in (cap, some, start):
        r.expect(rule, 4)


def capacity(n: Term) -> float | None:
    """The constant k of a count of the form concurrency + k."""
    t = norm(n)
    if t[0] == "call" and t[1] in ("max", "int", "min"):
        for a in t[2]:
            k = capacity(a)
            if k is not None:
                return k
        return None
    got = lin(t)
    if got is not None and got[0] == ("attr", WORKER, "concurrency"):
        return got[1]
    return None


def positive(p: Path, k: float) -> bool:
    """Whether the path found concurrency + k to be positive."""
    for c, v in facts(p):
        if c[0] != "cmp" or c[1] != "<":
            continue
        a, b = lin(c[2]), lin(c[3])
        if a is None or b is None:
            continue
        for lo, hi, strict in ((a, b, True),) if v else ((b, a, False),):
            # lo < hi (strict) or lo <= hi
            if hi[0] == ("attr", WORKER, "concurrency") and lo[0] == NONE:
                gap = hi[1] - lo[1]             # concurrency + gap > 0 or >= 0
                if (gap <= k if strict else gap + 1 <= k + 0 and gap <= k - 1):
                    return True
    return False


def each_started(r: Report, rule: str, p: Path) -> None:
    """Each element of a reply that holds a message becomes a run."""
    for e in p.trace:
        if e.kind != "loop":
            continue
        n = int(e.name)
        src = norm(e.args[0])
        if not any(y[0] == "reply" and y[1] in ("XREADGROUP", "XAUTOCLAIM") for y in walk(src)):
            continue
        if src[0] == "reply" and src[1] == "XREADGROUP":
            continue            # the streams; their messages are looped over separately
        for i in range(n):
            el = ("elem", src, i)
            empty = [v for c, v in facts(p) if c[0] == "truth" and c[1] == ("index", el, const(1)) and not v]
            starts = [s for s in p.trace if spawned_run(s) and any(y == el for y in walk(execution_of(s)))]
            if p.outcome == "cut" and not starts and p.trace.index(e) >= len(p.trace) - 3:
                continue
            r.require(bool(empty) or len(starts) == 1, rule, "Worker._worker_loop/started", f"a delivered message is started {len(starts)} times", p, e)
            for s in starts:
                x = execution_of(s)
                parts = {norm(y) for y in x[2]} | {norm(y[1][1]) for y in x[2] if y[0] == "tuple" and len(y[1]) == 2}
                r.require(("index", el, const(1)) in parts and ("index", el, const(0)) in parts, rule, "Worker._worker_loop/message", "the run is not built from its own message and message id", p, s)


# ------------------------------------------------------------------------ leases
def c13(w: World, r: Report) -> None:
    r.explain.append("The loop's reads of the stream, the arguments of the lease renewal it starts and every path of Worker._renew_leases are enumerated.")
    claim = r.rule("C13.reclaim", "every poll first claims deliveries idle for the redelivery timeout, from the start of the pending list, for this worker, and flags them as redelivered; new ones are not")
    again = r.rule("C13.recreate", "a missing group is recreated and the read repeated; other errors are not swallowed")
    renew = r.rule("C13.renew", "while the worker runs, every unfinished delivery's lease is renewed (idle 0) more often than the redelivery timeout, and a failed renewal does not end renewing")
    live = r.rule("C13.live", "the renewal works on the live table of unfinished deliveries, in which every run is entered with its own message id when it starts")
    grp = group(w)
    ended = lambda e, trace: e.kind == "branch" and e.result and "Task.done" in repr(e.args)  # noqa: E731

    def one(e: Event, trace: list[Event]) -> bool:
        return bool(ended(e, trace)) or spawned_run(e) and bool(runs_spawned(trace)) or e.kind == "branch" and bool(e.result) and "_worker_stopping" in repr(e.args) and not runs_spawned(trace)

    for p in loop_paths(w, "polling", None, one):
        reads = [e for e in p.trace if e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM")]
        for i, e in enumerate(reads):
            where = "Worker._worker_loop/" + e.name
            vals = dict(e.kwargs)
            pos = list(e.args)
            if e.name == "XAUTOCLAIM":
                stream, g, consumer, idle, start = (vals.get(k) or (pos[j] if j < len(pos) else NONE) for j, k in enumerate(("name", "groupname", "consumername", "min_idle_time", "start_id")))
                r.require(norm(stream) == STREAM and norm(g) == grp, claim, where + "/stream", f"claims from {show(stream)} as {show(g)}", p, e)
                r.require(norm(consumer) == ("attr", WORKER, "name"), claim, where + "/consumer", f"claims for {show(consumer)}", p, e)
                r.require(milliseconds(idle, ("attr", WORKER, "redelivery_timeout")), claim, where + "/idle", f"claims deliveries idle for {show(idle)}", p, e)
                r.require(start[0] == "const" and str(start[1]) in ("0-0", "0", "b'0-0'") or start == const(b"0-0"), claim, where + "/start", f"claims from {show(start)}", p, e)
            else:
                g, consumer, streams = (vals.get(k) or (pos[j] if j < len(pos) else NONE) for j, k in enumerate(("groupname", "consumername", "streams")))
                r.require(norm(g) == grp and mentions(streams, STREAM) and const(">") in set(walk(norm(streams))), claim, where + "/stream", f"reads {show(streams)} as {show(g)}", p, e)
                r.require(norm(consumer) == ("attr", WORKER, "name"), claim, where + "/consumer", f"reads for {show(consumer)}", p, e)
                r.require(any(x.name == "XAUTOCLAIM" for x in reads[:i]), claim, where + "/order", "new deliveries are read before abandoned ones are claimed", p, e)
        for s in runs_spawned(p.trace):
            x = execution_of(s)
            red = named_arg(x, "redelivered")
            from_claim = any(y[0] == "reply" and y[1] == "XAUTOCLAIM" for y in walk(norm(message_id(x))))
            r.require(red is not None and truth_of(red) == from_claim, claim, "Worker._worker_loop/redelivered", f"a {'claimed' if from_claim else 'new'} delivery is flagged redelivered = {show(red) if red else None}", p, s)
            i = p.trace.index(s)
            # entered into the renewed table
            tables = [norm(a) for e in p.trace[:i + 1] if e.kind == "spawn" and e.name.endswith("._renew_leases") for a in (e.unit or ())]
            if r.require(bool(tables), live, "Worker._worker_loop/renewal", "no lease renewal runs", p, s):
                entered = [e for e in p.trace[i:] if e.kind == "setitem" and norm(e.args[0]) in tables and is_execute_task(norm(e.args[1])) and norm(e.args[2]) == message_id(x)]
                r.require(bool(entered), live, "Worker._worker_loop/table", "the run's message id is not entered in the table whose leases are renewed", p, s)
    for cmd in ("XAUTOCLAIM", "XREADGROUP"):
        def raises(e: Event, trace: list[Event], cmd: str = cmd) -> list[str]:
            return ["redis.exceptions.ResponseError"] if e.kind == "redis" and e.name == cmd and not any(x.kind == "throw" for x in trace) else []

        def first(e: Event, trace: list[Event]) -> bool:
            return spawned_run(e)

        for p in loop_paths(w, "missing group " + cmd, raises, first):
            th = [e for e in p.trace if e.kind == "throw"]
            if not th:
                continue
            i = p.trace.index(th[0])
            nogroup = next((v for c, v in facts(p) if "NOGROUP" in repr(c)), None)
            if nogroup:
                made = [j for j, e in enumerate(p.trace) if j > i and e.kind == "call" and last(e) == "_ensure_stream_and_group"]
                redo = [j for j, e in enumerate(p.trace) if j > i and e.kind == "redis" and e.name == cmd]
                r.require(bool(made) and bool(redo) and made[0] < redo[0], again, "Worker._worker_loop/" + cmd, "a missing group is not recreated before reading again", p, th[0])
            else:
                r.require(p.outcome == "raise", again, f"Worker._worker_loop/{cmd}/other", "another error of the server is swallowed", p, th[0])
    renewals(w, r, renew, grp)
    for rule in (claim, again, renew, live):
        r.expect(rule)


def named_arg(x: Term, name: str) -> Term | None:
    for a in x[2]:
        if a[0] == "tuple" and len(a[1]) == 2 and a[1][0] == const(name):
            return norm(a[1][1])
    # positional: (cls, docket, message, redelivered, ...)
    order = ["cls", "docket", "message", "redelivered", "fallback_task", "message_id"]
    i = order.index(name)
    return norm(x[2][i]) if i < len(x[2]) else None


def truth_of(t: Term) -> bool | None:
    """Whether a flag computed from where a message came from is set."""
    t = norm(t)
    if t in (TRUE, FALSE):
        return t == TRUE
    if t[0] == "cmp" and t[1] == "==":
        a, b = t[2], t[3]
        ar = any(y[0] == "reply" for y in walk(a))
        br = any(y[0] == "reply" for y in walk(b))
        if ar != br:
            return False       # a stream's name is never the marker
        if a[0] == "const" and b[0] == "const":
            return a == b
    return None


def milliseconds(t: Term, span: Term) -> bool:
    t = norm(t)
    if not mentions(t, span):
        return False
    nums = [y[1] for y in walk(t) if y[0] == "const" and isinstance(y[1], (int, float)) and not isinstance(y[1], bool)]
    ops = [y[1] for y in walk(t) if y[0] == "op"]
    return nums == [1000] and ops == ["*"] and "total_seconds" in repr(t) or "timedelta" in repr(t) and "milliseconds" in repr(t) and "//" in ops or ops == ["/"] and nums == [0.001]


def renewals(w: World, r: Report, rule: str, grp: Term) -> None:
    table: Term = ("sym", "active_messages", "dict")

    def raises(e: Event, trace: list[Event]) -> list[str]:
        return ["Exception"] if e.kind == "redis" and e.name == "XCLAIM" else []

    def body(it: Any) -> Term:
        worker = w.worker(it)
        session = ("sym", "session", "docket.worker._ProcessingSession")
        it.heap[(norm(worker), "_processing_session")] = session
        it.run.assume(("cmp", "==", session, NONE), False)
        return w.call(it, worker, "Worker._renew_leases", [("sym", "redis", "RedisClient"), table])

    ps = w.paths("Worker._renew_leases", body,
                 inline=lambda f: f.name not in (OPAQUE - {"_renew_leases"}) | {"_wait_for_event"}, raises=raises, whiles=2, budget=60000)
    where = "Worker._renew_leases"
    renewed = 0
    for p in ps:
        r.require(p.outcome == "ok", rule, where + "/survives", f"renewing ends with {show(p.value)}", p)
        waits = [e for e in p.trace if e.kind == "call" and (last(e) in ("_wait_for_event", "wait_for", "sleep"))]
        for e in waits:
            span = next((a for a in arguments(e) if mentions(a, ("attr", WORKER, "redelivery_timeout"))), None)
            if r.require(span is not None, rule, where + "/interval", "renewal does not follow the redelivery timeout", p, e):
                f = factor(span)
                r.require(f is not None and 0 < f <= 0.5, rule, where + "/often", f"leases are renewed every {show(span)}", p, e)
        rounds = 0
        for i, e in enumerate(p.trace):
            if e.kind == "redis" and e.name == "XCLAIM":
                renewed += 1
                rounds += 1
                vals = dict(e.kwargs)
                pos = list(e.args)
                stream, g, consumer, idle, ids = (vals.get(k) or (pos[j] if j < len(pos) else NONE) for j, k in enumerate(("name", "groupname", "consumername", "min_idle_time", "message_ids")))
                r.require(norm(stream) == STREAM and norm(g) == grp and norm(consumer) == ("attr", WORKER, "name"), rule, where + "/target", f"renews {show(stream)} {show(g)} {show(consumer)}", p, e)
                r.require(idle == const(0), rule, where + "/min-idle", f"renews only deliveries idle for {show(idle)}", p, e)
                r.require(any(y == table for y in walk(norm(ids))) and not any(y[0] in ("slice", "index") for y in walk(norm(ids))), rule, where + "/all", f"renews {show(ids)}", p, e)
                r.require(vals.get("idle", const(0)) == const(0), rule, where + "/idle", f"sets the idle time to {show(vals.get('idle', NONE))}", p, e)
                r.require(any(x in p.trace[:i] for x in waits), rule, where + "/paced", "renews without waiting", p, e)
        stop = [v for c, v in facts(p) if "is_set" in repr(c) or "_wait_for_event" in repr(c)]
        r.require(any(stop) or "_processing_session" in repr(p.conditions()[:1]), rule, where + "/ends", "renewing ends although the worker is not stopping", p)
    r.require(renewed > 0, rule, where + "/renews", "no lease is ever renewed")
    r.require(any(sum(1 for e in p.trace if e.kind == "throw") and sum(1 for e in p.trace if e.kind == "redis" and e.name == "XCLAIM") >= 2 for p in ps), rule, where + "/again", "a failed renewal is not followed by another")


def factor(t: Term) -> float | None:
    """The multiple of a span a term amounts to."""
    t = norm(t)
    if t[0] == "op" and t[1] in ("/", "*", "//"):
        a, b = factor(t[2]), factor(t[3])
        ca = t[2][1] if t[2][0] == "const" else None
        cb = t[3][1] if t[3][0] == "const" else None
        if a is not None and cb:
            return a / cb if t[1] != "*" else a * cb
        if b is not None and ca is not None and t[1] == "*":
            return b * ca
        return None
    if t[0] == "call" and t[1] in ("total_seconds", "float", "timedelta.total_seconds") or t[0] == "call" and str(t[1]).endswith("total_seconds"):
        return factor(t[2][0])
    if t[0] == "attr" and t[1] == WORKER:
        return 1.0
    return None


# --------------------------------------------------------------------- shutdown
def c14(w: World, r: Report) -> None:
    r.explain.append("Every way out of Worker._worker_loop is enumerated: running out of work, being told to stop, being cancelled while polling, and losing the connection while polling, with and without runs in flight.")
    drain = r.rule("C14.drain", "however the loop ends, runs in flight are awaited (never cancelled) and their ends processed before it returns")
    clean = r.rule("C14.cleanup", "however the loop ends, its background loops are told to stop, the heartbeat is cancelled and the worker's registration removed")
    out = r.rule("C14.outcome", "a cancelled loop returns quietly, a lost connection is reported for reconnecting, and a worker told to stop takes on nothing new")

    def raises(e: Event, trace: list[Event]) -> list[str]:
        if any(x.kind == "throw" for x in trace):
            return []
        if e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM"):
            return [CONNECTION, CANCELLED]
        if e.kind == "call" and e.name == "asyncio.sleep":
            return [CANCELLED]
        if e.kind == "call" and e.name == "asyncio.gather" and e.kw("return_exceptions", FALSE) != TRUE:
            return ["RuntimeError"]
        return []

    def prune(e: Event, trace: list[Event]) -> bool:
        if spawned_run(e) and bool(runs_spawned(trace)):
            return True
        return e.kind == "branch" and not e.result and "Task.done" in repr(e.args)

    ways: set[tuple[str, bool]] = set()
    for p in loop_paths(w, "ways out", raises, prune, whiles=1):
        th = next((e for e in p.trace if e.kind == "throw"), None)
        begun = [e for e in p.trace if e.kind == "spawn" and e.name.endswith("._scheduler_loop")]
        way = th.name if th else "end"
        where = "Worker._worker_loop/" + way.split(".")[-1]
        runs_ = runs_spawned(p.trace)
        if begun:
            ways.add((way, bool(runs_)))
        stops = [e for e in p.trace if e.kind == "call" and last(e) == "set" and "Event" in e.name]
        waits = next((e for e in p.trace if e.kind == "cm" and e.name == "exit:asyncio.TaskGroup"), None)
        if begun and waits is not None and way in ("end", CONNECTION):
            r.require(before(p, waits, lambda x: x in stops), clean, where + "/stop-first", "background loops are awaited before they are told to stop", p, waits)
        r.require(bool(stops), clean, where + "/stop", "background loops are not told to stop", p)
        beats = [e for e in p.trace if e.kind == "spawn" and e.name.endswith("._heartbeat")]
        if beats:
            beat = norm(beats[-1].result)
            kills = [e for e in p.trace if e.kind == "call" and last(e) in ("cancel_task", "cancel") and any("._heartbeat" in repr(a) for a in arguments(e))]
            r.require(bool(kills), clean, where + "/heartbeat", "the heartbeat keeps running", p)
            rem = [e for e in p.trace if e.kind == "call" and last(e) == "_remove_heartbeat"]
            if r.require(bool(rem), clean, where + "/registration", "the worker stays registered", p):
                r.require(not kills or p.trace.index(kills[0]) < p.trace.index(rem[-1]), clean, where + "/heartbeat-order", "the heartbeat may register the worker again after its removal", p, rem[-1])
            _ = beat
        for s in runs_:
            j = [i for i, e in enumerate(p.trace) if joined(e)]
            g = [i for i, e in enumerate(p.trace) if e.kind == "call" and e.name in ("asyncio.gather", "asyncio.wait") and any(is_execute_task(y) or y[0] == "call" and y[1] == "dict" for a in e.args for y in walk(norm(a)))]
            r.require(bool(j), drain, where, "a run in flight is abandoned when the loop ends", p, s)
            done = [v for c, v in facts(p) if "Task.done" in repr(c)]
            r.require(bool(g) or bool(done) and not g and bool(j), drain, where + "/await", "runs in flight are not awaited when the loop ends", p, s)
            cut_ = [e for e in p.trace if e.kind == "call" and last(e) == "cancel" and any(is_execute_task(y) for a in e.args for y in walk(norm(a)))]
            r.require(not cut_, drain, where + "/cancel", "runs in flight are cancelled when the loop ends", p, cut_[0] if cut_ else None)
        if way == CONNECTION:
            r.require(p.outcome == "raise" and norm(p.value) == norm(th.args[0]), out, where, f"a lost connection ends the loop with {show(p.value) if p.outcome == 'raise' else 'success'}", p, th)
        elif way == "RuntimeError":
            r.require(False, drain, "Worker._worker_loop/one-fails", "a run in flight that ends with an error ends the wait for the others", p, th)
        else:
            r.require(p.outcome == "ok", out, where, f"the loop ends with {show(p.value)}", p)
        stopping = [i for i, e in enumerate(p.trace) if e.kind == "branch" and e.result and "_worker_stopping" in repr(e.args)]
        if stopping and stopping[0] < len(p.trace):
            late = [e for e in p.trace[stopping[-1]:] if e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM")]
            told = p.trace[stopping[-1]].func
            r.require(not late or not told, out, where + "/stopping", "a worker told to stop reads more deliveries", p, late[0] if late else None)
    for way in (CONNECTION, CANCELLED, "end"):
        r.require((way, True) in ways or (way, False) in ways, out, "Worker._worker_loop/ways", f"no path ends by {way}")
    r.require(("end", True) in ways, drain, "Worker._worker_loop/ways", "no path ends with a run in flight")
    for rule in (drain, clean, out):
        r.expect(rule)


# -------------------------------------------------------------------- reconnect
def c15(w: World, r: Report) -> None:
    r.explain.append("Every path of Worker._run is enumerated with the connection and the worker's loop failing with a connection error, another error, or not at all.")
    again = r.rule("C15.reconnect", "after losing its connection a worker that is not stopping waits for the reconnection delay and runs its loop again on a new connection")
    stop = r.rule("C15.stop", "a worker told to stop does not reconnect")
    other = r.rule("C15.other", "other errors are not swallowed")
    done = r.rule("C15.done", "the worker counts as running from before it connects until it has ended, however it ends")

    def raises(e: Event, trace: list[Event]) -> list[str]:
        if e.kind == "call" and last(e) == "_worker_loop":
            return [CONNECTION, "ValueError", CANCELLED]
        if e.kind == "cm" and e.name.startswith("enter") and "redis" in e.name.lower():
            return [CONNECTION]
        return []

    def body(it: Any) -> Term:
        return w.call(it, w.worker(it), "Worker._run")

    ps = w.paths("Worker._run", body, inline=lambda f: f.name not in OPAQUE | {"_worker_loop", "_startup_log", "_wait_for_event", "redis"}, raises=raises, whiles=3, faults=2, budget=60000)
    twice = stopped = 0
    where = "Worker._run"
    for p in ps:
        th = [e for e in p.trace if e.kind == "throw"]
        loops = [e for e in p.trace if e.kind == "call" and last(e) == "_worker_loop"]
        clears = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "clear" and "_worker_done" in repr(e.args)]
        sets = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "set" and "_worker_done" in repr(e.args)]
        firsts = [i for i, e in enumerate(p.trace) if e in loops or e.kind == "cm"]
        r.require(bool(clears) and (not firsts or clears[0] < firsts[0]), done, where + "/running", "the worker is not marked as running before it connects", p)
        r.require(bool(sets) and (not firsts or sets[-1] > firsts[-1]), done, where + "/done", "the worker ends without being marked as done", p)
        bad = [e for e in th if e.name != CONNECTION]
        if bad:
            r.require(p.outcome == "raise" and norm(p.value) == norm(bad[-1].args[0]), other, where + "/" + bad[-1].name, f"{bad[-1].name} from the loop is swallowed", p, bad[-1])
            continue
        r.require(p.outcome == "ok", other, where + "/connection", f"the worker ends with {show(p.value)} after a lost connection", p, th[-1] if th else None)
        for n, e in enumerate(th):
            i = p.trace.index(e)
            rest = p.trace[i:p.trace.index(th[n + 1]) if n + 1 < len(th) else None]
            told = [v for x in rest if x.kind == "branch" and ("_worker_stopping" in repr(x.args)) for v in [x.result]]
            waits = [x for x in rest if x.kind == "call" and last(x) in ("_wait_for_event", "wait_for", "sleep")]
            retried = [x for x in rest if x.kind == "call" and last(x) == "_worker_loop" or x.kind == "cm" and x.name.startswith("enter")]
            if any(told):
                stopped += 1
                r.require(not retried, stop, where, "a worker told to stop reconnects", p, retried[0] if retried else None)
            elif retried or n + 1 < len(th):
                twice += 1
                r.require(bool(waits) and any(mentions(a, ("attr", WORKER, "reconnection_delay")) for x in waits for a in arguments(x)), again, where + "/delay", "reconnects without waiting for the reconnection delay", p, e)
            else:
                r.fail(again, where, "a lost connection ends the worker", p, e)
    r.require(twice > 0, again, where + "/retries", "the worker never reconnects")
    r.require(stopped > 0, stop, where + "/asked", "whether the worker is stopping is not asked")
    for rule in (again, stop, other, done):
        r.expect(rule)
