"""Who is at work: heartbeats, the registry of workers, and its readers."""
from __future__ import annotations

from typing import Any

from ..delta import GONE, Delta
from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import NONE, Term, const, norm, show, walk
from .common import facts, key, linear, units
from .loop import CANCELLED, CONNECTION, WORKER, loop_paths, runs_spawned, spawned_run
from .running import arguments, last
from .results import fields
from .wire import undo

NAME: Term = ("attr", WORKER, "name")
TASKS: Term = ("attr", DOCKET, "tasks")
TASK: Term = ("sym", "task_name", "str")
INTERVAL: Term = ("attr", DOCKET, "heartbeat_interval")
MISSED: Term = ("attr", DOCKET, "missed_heartbeats")
WORKERS = key("workers")
OPAQUE = {"_log_context", "labels", "_maybe_suppress_instrumentation"}


def task_workers(t: Term) -> Term:
    return key("task-workers:", t)


def worker_tasks(t: Term) -> Term:
    return key("worker-tasks:", t)


def factors(t: Term) -> list[Term]:
    t = norm(t)
    if t[0] == "call" and str(t[1]).split(".")[-1] in ("total_seconds", "float") and len(t[2]) == 1:
        return factors(t[2][0])
    if t[0] == "op" and t[1] == "*":
        return factors(t[2]) + factors(t[3])
    return [t]


def is_age(t: Term) -> bool:
    """The time a worker may be silent."""
    return sorted(map(repr, factors(t))) == sorted(map(repr, (INTERVAL, MISSED)))


def oldest(t: Term) -> bool:
    """The earliest time at which a worker that is alive may have been seen."""
    d = linear(t)
    rest = [x for x in d if x != "now"]
    return d.get("now") == 1 and len(rest) == 1 and d[rest[0]] == -1 and is_age(rest[0])


def ends_purge(e: Event) -> bool:
    lo, hi = norm(e.args[1]), norm(e.args[2])
    return lo in (const(0), const("0"), const("-inf"), const(float("-inf"))) and oldest(hi)


def faults(e: Event, trace: list[Event]) -> list[str]:
    if e.kind == "redis" and not any(x.kind == "throw" for x in trace):
        return [CONNECTION, "redis.exceptions.ResponseError", "OSError"]
    if e.kind == "call" and last(e) == "wait_for" and not any(x.kind == "throw" for x in trace):
        return [CANCELLED, "TimeoutError"]
    return []


def task_of(t: Term) -> Term | None:
    """The task whose set of workers a key is."""
    if t[0] == "cat" and len(t[1]) == 3 and t[1][:2] == task_workers(("sym", "x", None))[1][:2]:
        return t[1][2]
    return None


def beating(w: World) -> list[Path]:
    return w.paths("Worker._heartbeat", lambda it: w.call(it, w.worker(it), "Worker._heartbeat", []), inline=lambda f: f.name not in OPAQUE, whiles=2, loop=2, raises=faults, faults=1, budget=20000, watch=("tasks",))


def rounds(p: Path) -> list[list[Event]]:
    """The beats of a path: what happens between waits."""
    out: list[list[Event]] = [[]]
    for e in p.trace:
        if e.kind == "call" and last(e) in ("_wait_for_event", "sleep"):
            out.append([])
        out[-1].append(e)
    return out


def c16(w: World, r: Report) -> None:
    r.explain.append("Up to two rounds of Worker._heartbeat are enumerated with a failure at every command; what one round registers is compared with what the removal withdraws and with what workers() and task_workers() read.")
    beat = r.rule("C16.beat", "one atomic step per heartbeat registers the worker at the current time in the set of all workers and of each registered task, with the names of those tasks, kept at least as long as it may be silent")
    purge = r.rule("C16.purge", "exactly the workers silent for longer than the heartbeats they may miss are dropped, by workers and readers alike")
    again = r.rule("C16.again", "heartbeats go on an interval apart, whatever becomes of one, until the worker stops")
    remove = r.rule("C16.remove", "a stopping worker withdraws everything it registered, under its name only, and a failure to do so does not stop it from stopping")
    read = r.rule("C16.list", "workers() and task_workers() list each registered worker once, with the time it was last seen and the tasks it registered")
    start = r.rule("C16.start", "a worker registers from the moment it takes its first delivery")
    beats(w, r, beat, purge, again)
    removal(w, r, remove)
    lists(w, r, read, purge)
    for p in loop_paths(w, "one delivery read", None, lambda e, t: spawned_run(e) and bool(runs_spawned(t))):
        reads = [i for i, e in enumerate(p.trace) if e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM")]
        hb = [i for i, e in enumerate(p.trace) if e.kind == "spawn" and e.name.endswith("._heartbeat")]
        if reads:
            r.require(len(hb) == 1 and hb[0] < reads[0], start, "Worker._worker_loop", f"{len(hb)} heartbeats are started before the first delivery is taken", p)
    for rule, n in ((beat, 6), (purge, 4), (again, 4), (remove, 3), (read, 4), (start, 2)):
        r.expect(rule, n)


def beats(w: World, r: Report, beat: str, purge: str, again: str) -> None:
    where = "Worker._heartbeat"
    r.require(any(e.name == "EXEC" or e.kind == "script" for p in beating(w) for e in p.trace) and any(Delta(p.trace).zset for p in beating(w)), beat, where + "/sent", "a heartbeat is never sent")
    for p in beating(w):
        r.require(p.outcome == "ok" or any(e.kind == "throw" and e.name == CANCELLED for e in p.trace), again, where + "/fails", f"the heartbeat ends with {show(p.value)[:60] if p.value else ''}", p)
        rs = rounds(p)
        thrown = [e for e in p.trace if e.kind == "throw"]
        for n, es in enumerate(rs):
            d = Delta(es)
            failed = any(e in thrown for e in es)
            for e in d.zremrange:
                r.require((e.args[0] == WORKERS or task_of(e.args[0]) is not None) and e.name == "ZREMRANGEBYSCORE" and ends_purge(e), purge, where, f"drops workers of {show(e.args[0])} from {show(e.args[1])} to {show(e.args[2])}", p, e)
            if not d.writes:
                continue
            sets = {k: v for k, v in d.zset.items() if v}
            if failed and not d.sets:
                continue
            now = None
            for k, ms in sets.items():
                r.require(set(ms) == {NAME}, beat, where + "/name", f"registers {', '.join(show(m) for m in ms)}", p, d.zsites.get((k, next(iter(ms)))))
                at = ms.get(NAME)
                r.require(at is not None and at != GONE and set(linear(at)) == {"now"} and linear(at)["now"] == 1, beat, where + "/time", f"registers the worker as seen at {show(at) if at else None}", p)
                now = at
            r.require(WORKERS in sets, beat, where + "/workers", "a heartbeat does not register the worker", p)
            loops = [e for e in es if e.kind == "loop" and is_tasks(e.args[0])]
            if len({e.name for e in loops}) > 1:
                continue    # the registered tasks are the same each time
            elems = {("elem", norm(e.args[0]), i) for e in loops for i in range(int(e.name))}
            got = {norm(task_of(k)) for k in sets if task_of(k) is not None}
            r.require({x[2] for x in elems} == {x[2] for x in got if x[0] == "elem"} and all(x[0] == "elem" and is_tasks(x[1]) for x in got) and (loops or not failed), beat, where + "/tasks",
                      "a heartbeat does not register the worker for each of its tasks", p)
            r.require(bool(loops), beat, where + "/each-task", "a heartbeat does not go through the registered tasks", p)
            r.require(any(e.kind == "read" and e.name == "tasks" for e in es), beat, where + "/current", "a heartbeat registers the tasks of an earlier time", p)
            names = d.sets.get(worker_tasks(NAME), {})
            r.require(set(d.sets) <= {worker_tasks(NAME)} and (any(is_tasks(m) for m in names) or {m[2] for m in names if m[0] == "elem"} == {x[2] for x in elems}) and all(is_tasks(m) or m[0] == "elem" and is_tasks(m[1]) for m in names), beat, where + "/names", "a heartbeat does not register the names of the worker's tasks", p)
            ttl = d.expire.get(worker_tasks(NAME))
            r.require(set(d.expire) <= {worker_tasks(NAME)}, beat, where + "/expiry-of", "a heartbeat lets something else expire", p)
            if ttl is not None:
                r.require(long_enough(ttl[0]), beat, where + "/expiry", f"the names of the worker's tasks are kept for {show(ttl[0])}", p, ttl[1])
            r.require(len(units(d.writes)) == 1 or failed and not ends(es), beat, where + "/atomic", "a heartbeat is sent in several steps", p)
            _ = now
        waits = [e for e in p.trace if e.kind == "call" and last(e) in ("_wait_for_event", "sleep")]
        for e in waits:
            t = next((a for a in arguments(e) + [v for _, v in e.kwargs] if set(linear(a)) == {INTERVAL}), None)
            r.require(t is not None and linear(t)[INTERVAL] == 1, again, where + "/interval", "heartbeats are not the interval apart", p, e)
        cancelled = any(e.name == CANCELLED for e in thrown)
        stopped = cancelled or any("stopping" in repr(c) and v and c[0] == "truth" for c, v in facts(p)) or any(e.kind == "ret" and last(e) == "_wait_for_event" for e in p.trace) or \
            any(e.kind == "branch" and "_processing_session" in repr(e.args) and "None" in repr(e.args) and e.result for e in p.trace)
        waited = [e for e in p.trace if e.kind == "call" and last(e) == "wait_for"]
        done = stopped or bool(waited) and not any(e.name == "TimeoutError" for e in thrown)
        r.require(done, again, where + "/ends", "heartbeats end although the worker goes on", p)
        if thrown and not cancelled and thrown[0].name != "TimeoutError":
            r.require(bool(waits), again, where + "/goes-on", "a failed heartbeat is the last", p, thrown[0])


def ends(es: list[Event]) -> bool:
    return any(e.name == "EXEC" for e in es)


def is_tasks(t: Term) -> bool:
    t = norm(t)
    while t[0] == "call" and t[1] in ("list", "tuple", "set", "sorted", "keys", "dict") and len(t[2]) == 1 or t[0] == "star":
        t = norm(t[2][0] if t[0] == "call" else t[1])
    return t == TASKS


def long_enough(t: Term) -> bool:
    """Not shorter than the time a worker may be silent, and at least a second."""
    t = norm(t)
    while t[0] == "call" and t[1] in ("int", "total_seconds") and len(t[2]) == 1:
        t = norm(t[2][0])
    if t[0] == "call" and str(t[1]).endswith("ceil"):
        return is_age(t[2][0])
    if t[0] == "op" and t[1] == "+":
        return any(is_age(x) for x in t[2:4]) and any(list(linear(x)) == [None] and linear(x)[None] >= 1 for x in t[2:4])
    if t[0] == "call" and str(t[1]).split(".")[-1] == "max":
        return any(is_age(x) or long_enough(x) for x in t[2]) and any(set(linear(x)) == {None} and linear(x)[None] >= 1 for x in t[2])
    return False


def removal(w: World, r: Report, rule: str) -> None:
    where = "Worker._remove_heartbeat"

    def failing(e: Event, trace: list[Event]) -> list[str]:
        return [CONNECTION, "OSError"] if e.kind == "redis" and not any(x.kind == "throw" for x in trace) else []
    for p in w.paths(where, lambda it: w.call(it, w.worker(it), where, []), inline=lambda f: f.name not in OPAQUE, loop=2, raises=failing, faults=1):
        r.require(p.outcome == "ok", rule, where + "/fails", "a failure to withdraw stops the worker from stopping in order", p)
        if any(e.kind == "throw" for e in p.trace):
            continue
        d = Delta(p.trace)
        r.require(d.zset.get(WORKERS) == {NAME: GONE}, rule, where + "/workers", "the worker stays in the set of all workers", p)
        loops = [e for e in p.trace if e.kind == "loop" and is_tasks(e.args[0])]
        n = {i for e in loops for i in range(int(e.name))}
        got = {norm(task_of(k))[2] for k, v in d.zset.items() if task_of(k) is not None and v == {NAME: GONE} and norm(task_of(k))[0] == "elem"}
        r.require(bool(loops) and n == got, rule, where + "/tasks", "the worker stays registered for one of its tasks", p)
        r.require(worker_tasks(NAME) in d.cleared, rule, where + "/names", "the names of the worker's tasks stay", p)
        others = [k for k in d.cleared if k != worker_tasks(NAME)] + [k for k, v in d.zset.items() if v and k != WORKERS and task_of(k) is None] + \
            [m for v in d.zset.values() for m in v if m != NAME] + [e.args[0] for e in d.zremrange]
        r.require(not others, rule, where + "/others", f"withdraws something else: {', '.join(show(k) for k in others)[:80]}", p)


def lists(w: World, r: Report, rule: str, purge: str) -> None:
    docket = w.prog.klass("Docket")
    for name, k in (("workers", WORKERS), ("task_workers", task_workers(TASK))):
        f = w.prog.method(docket, name)
        where = "Docket." + name
        if not r.require(f is not None, rule, where, "not found"):
            continue
        q = f.qual

        def body(it: Any) -> Term:
            return it.freeze(w.call(it, DOCKET, q, [TASK] if name == "task_workers" else []))
        seen = 0
        for p in w.paths(where, body, inline=lambda g: g.name not in OPAQUE, loop=2):
            if not r.require(p.outcome == "ok", rule, where + "/fails", "raises", p):
                continue
            d = Delta(p.trace)
            for e in d.writes:
                r.require(e.name == "ZREMRANGEBYSCORE" and e.args[0] == k and ends_purge(e), purge, where, f"writes {e.name} {show(e.args[0])[:60]}" + (f" up to {show(e.args[2])[:80]}" if len(e.args) > 2 else ""), p, e)
            zr = [e for e in d.reads if e.name in ("ZRANGE", "ZRANGEBYSCORE")]
            if not r.require(len(zr) == 1 and zr[0].args[0] == k, rule, where + "/read", "does not read the set of workers once", p):
                continue
            if zr[0].name == "ZRANGE":
                r.require(bool(d.zremrange) and p.trace.index(d.zremrange[0]) < p.trace.index(zr[0]), purge, where + "/first", "lists workers without having dropped the silent ones", p)
                r.require(zr[0].args[1:3] == (const(0), const(-1)), rule, where + "/all", f"reads only {', '.join(show(a) for a in zr[0].args[1:3])}", p, zr[0])
            else:
                r.require(oldest(norm(zr[0].args[1])) and norm(zr[0].args[2]) in (const("+inf"), const("inf"), const(float("inf"))), purge, where + "/first", "lists workers that have been silent too long, or not all others", p, zr[0])
            reply = norm(zr[0].result)
            scores = dict(zr[0].kwargs).get("withscores", next((a for a in zr[0].args[3:] if norm(a)[0] == "const" and norm(a)[1] is True), const(False)))
            r.require(norm(scores) == const(True), rule, where + "/scores", "the workers are read without the times they were last seen", p, zr[0])
            n = max([int(e.name) for e in p.trace if e.kind == "loop" and norm(e.args[0]) == reply] or [0])
            value = norm(p.value)
            infos = [e for e in p.trace if e.kind == "new" and e.name.endswith(".WorkerInfo")]
            listed = value[2] if value[0] == "call" and value[1] in ("list", "tuple") else ()
            r.require(len(infos) == n and len(listed) == n and all(norm(e.result) == norm(x) for e, x in zip(infos, listed)), rule, where + "/each", f"lists {len(listed)} of {n} workers", p)
            seen = max(seen, n)
            for i, e in enumerate(infos):
                el: Term = ("elem", reply, i)
                b = info(w, e)
                nm = undo(b.get("name", NONE))
                r.require(nm == ("index", el, const(0)), rule, where + "/name", f"lists a worker as {show(nm)[:80]}", p, e)
                at = b.get("last_seen", NONE)
                r.require(at[0] == "call" and str(at[1]).endswith("fromtimestamp") and norm(at[2][0]) == ("index", el, const(1)) and len(at[2]) == 2 and "utc" in repr(at[2][1]).lower(), rule, where + "/seen", f"lists a worker as last seen at {show(at)[:80]}", p, e)
                ts = [x for x in walk(b.get("tasks", NONE)) if x[0] == "reply"]
                members = [x for x in ts if x[1] == "SMEMBERS"]
                r.require(bool(members) and all(x[2][0] == worker_tasks(("index", el, const(0))) for x in members), rule, where + "/tasks", f"lists a worker's tasks as {show(b.get('tasks', NONE))[:100]}", p, e)
        r.require(seen >= 2, rule, where + "/several", "no path lists several workers")


def info(w: World, e: Event) -> dict[str, Term]:
    c = w.prog.klass("WorkerInfo")
    out = dict(zip(c.attrs, (norm(a) for a in e.args)))
    out.update({k: norm(v) for k, v in e.kwargs})
    return out
