"""How long a worker runs: until finished, for ever, at most so often, and how it is left."""
from __future__ import annotations

from typing import Any

from ..model import Path, World
from ..paths import Event
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, walk
from .common import KEY, QUEUE, STREAM, facts, linear, units
from .loop import CANCELLED, OPAQUE, WORKER, joined, loop_paths, runs_spawned, spawned_run
from .running import execute_paths, is_body, last

FOREVER: Term = ("sym", "forever", "bool")
LIMITS: Term = ("sym", "iterations_by_key", "dict")


def told_to_stop(p: Path) -> bool:
    return any(e.kind == "branch" and e.result and "_worker_stopping" in repr(e.args) for e in p.trace)


def empty(p: Path, cmd: str, key: Term) -> list[Event]:
    """The reads of a size that the path found to be zero."""
    out = []
    for e in p.trace:
        if e.name == cmd and e.kind in ("redis", "queued") and e.args and norm(e.args[0]) == key:
            r = norm(e.result) if e.result is not None else None
            for c, v in facts(p):
                ts = [norm(x) for x in c[1:] if isinstance(x, tuple)]
                here = any(r == y for t in ts for y in walk(t))
                if here and (c[0] == "cmp" and c[1] == "<" and ts[-2] == const(0) and v is False or c[0] == "cmp" and c[1] == "==" and const(0) in ts and v is True or c[0] == "truth" and v is False or
                             c[0] == "cmp" and c[1] in ("<", "<=") and ts[-1] in (const(1), const(0)) and ts[-2] == r and v is True):
                    out.append(e)
                    break
    return out


def c31(w: World, r: Report) -> None:
    r.explain.append("Every path of Worker._worker_loop with up to one run is enumerated, once to finish and once for ever, and each way it ends is matched against what it found in the stream and the queue; run_forever, "
                     "run_until_finished and run_at_most are evaluated down to the loop they run, the condition run_at_most installs is evaluated for an unknown execution, and so are the counting of runs and Worker.__aexit__.")
    until = r.rule("C31.until", "a worker running until finished ends by itself only once nothing it started is unfinished and one look, taken after that, found both the stream and the queue empty")
    ever = r.rule("C31.forever", "a worker running for ever ends only when told to stop, cancelled or disconnected")
    mode = r.rule("C31.mode", "run_forever runs for ever; run_until_finished and run_at_most until finished")
    cond = r.rule("C31.limit", "while run_at_most runs, and only then, an execution counts as stricken exactly when its key is limited and was run as often as allowed")
    count = r.rule("C31.count", "each claimed run of a limited key is counted once, before its function is called, and no other")
    leave = r.rule("C31.leave", "leaving a worker tells it to stop and waits until it is done before what it needs is taken down")
    finishing(w, r, until, ever)
    modes(w, r, mode)
    limited(w, r, cond, count)
    leaving(w, r, leave)
    for rule, least in ((until, 4), (ever, 2), (mode, 3), (cond, 4), (count, 4), (leave, 2)):
        r.expect(rule, least)


def finishing(w: World, r: Report, until: str, ever: str) -> None:
    def prune(e: Event, trace: list[Event]) -> bool:
        return spawned_run(e) and bool(runs_spawned(trace))
    where = "Worker._worker_loop"
    after = 0
    def going(e: Event, trace: list[Event]) -> bool:
        return prune(e, trace) or e.kind == "branch" and bool(e.result) and "_worker_stopping" in repr(e.args)
    def ends(whiles: int) -> list[Path]:
        return [p for p in loop_paths(w, f"until finished {whiles}", None, going, [(("truth", FOREVER), False)], whiles=whiles) if p.outcome == "ok" and not told_to_stop(p)]
    paths = ends(2)
    if not any(runs_spawned(p.trace) for p in paths):
        paths = ends(3)
    for p in paths:
        if p.outcome != "ok" or told_to_stop(p):
            continue
        runs, joins = runs_spawned(p.trace), [e for e in p.trace if joined(e)]
        xs, zs = empty(p, "XLEN", STREAM), empty(p, "ZCARD", QUEUE)
        r.require(bool(xs), until, where + "/stream", "ends without having found the stream empty", p)
        r.require(bool(zs), until, where + "/queue", "ends without having found the queue empty", p)
        if not xs or not zs:
            continue
        same = [(x, z) for x in xs for z in zs if len(units([x, z])) == 1 and x.unit]
        r.require(bool(same), until, where + "/one-look", "the stream and the queue are looked at one after the other: a task moving between them is missed", p, zs[-1])
        if runs:
            after += 1
            at = [i for i, e in enumerate(p.trace) if e in joins]
            if r.require(len(joins) >= len(runs), until, where + "/unfinished", "ends with runs unfinished", p, runs[-1]):
                r.require(p.trace.index(xs[-1]) > at[-1], until, where + "/late", "a run that finished after the look may have left work behind", p, xs[-1])
    r.require(after > 0, until, where + "/runs", "no path runs something and ends")
    n = 0
    for p in loop_paths(w, "for ever", None, prune, [(("truth", FOREVER), True)], whiles=1):
        if p.outcome != "ok":
            continue
        n += 1
        r.require(told_to_stop(p), ever, where, "a worker running for ever ends by itself", p)
    r.require(n > 0, ever, where + "/stopped", "no path is told to stop")


def modes(w: World, r: Report, mode: str) -> None:
    for qual, want in (("Worker.run_forever", TRUE), ("Worker.run_until_finished", FALSE), ("Worker.run_at_most", FALSE)):
        def body(it: Any, qual: str = qual) -> Term:
            return w.call(it, w.worker(it), qual, [LIMITS] if qual.endswith("at_most") else [])
        got = False
        for p in w.paths(qual + " loop", body, inline=lambda f: f.name not in OPAQUE | {"_worker_loop", "_startup_log", "add_condition", "remove_condition", "redis"}, whiles=1):
            for e in p.trace:
                if e.kind == "call" and last(e) == "_worker_loop":
                    got = True
                    f = e.kw("forever", None)
                    f = norm(f) if f is not None else norm(e.args[2]) if len(e.args) > 2 else FALSE
                    r.require(f == want, mode, qual, f"runs the loop with forever={show(f)}", p, e)
        r.require(got, mode, qual + "/runs", "never runs the worker's loop")


def limited(w: World, r: Report, cond: str, count: str) -> None:
    def adding(it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term:
        given = [*args, *kwargs.values()]
        e = w.execution(it)
        it.emit(Event("mark", "condition", (it.freeze(given[-1]),)))
        v = it.call_term(given[-1], [e], {}, fr, at)
        if norm(it.freeze(v)) not in (TRUE, FALSE, NONE):
            v = TRUE if it.run.decide(it.truth_of(v), it.site(fr, at), it.fname(fr)) else FALSE
        it.emit(Event("mark", "struck", (it.freeze(v),)))
        return NONE

    def removing(it: Any, fn: Term, args: list[Term], kwargs: dict, fr: Any, at: Any) -> Term:
        it.emit(Event("mark", "removed", (it.freeze([*args, *kwargs.values()][-1]),)))
        return NONE

    def raises(e: Event, trace: list[Event]) -> list[str]:
        return ["Exception", CANCELLED] if e.kind == "call" and last(e) in ("_run", "run_until_finished") and e.extra == "opaque" and not any(x.kind == "throw" for x in trace) else []
    hooks = {w.prog.func("StrikeList.add_condition").qual: adding, w.prog.func("StrikeList.remove_condition").qual: removing}
    where = "Worker.run_at_most"
    seen: set[tuple[Any, Any]] = set()
    counters: set[str] = set()
    for p in w.paths(where, lambda it: w.call(it, w.worker(it), where, [LIMITS]), inline=lambda f: f.name not in ("_run",), hooks=hooks, raises=raises, summarise=lambda f: False):
        marks = {e.name: (i, e) for i, e in enumerate(p.trace) if e.kind == "mark"}
        runs = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "_run"]
        if not r.require("condition" in marks and bool(runs) and marks["condition"][0] < runs[0], cond, where + "/installed", "the worker runs without the limit", p):
            continue
        ok = "removed" in marks and marks["removed"][0] > runs[-1] and norm(marks["removed"][1].args[0]) == norm(marks["condition"][1].args[0])
        r.require(ok, cond, where + "/removed", "the limit stays in force after the run", p)
        thrown = next((e for e in p.trace if e.kind == "throw"), None)
        if thrown is not None:
            r.require(p.outcome == "raise", cond, where + "/swallowed", f"{thrown.name} is swallowed", p, thrown)
        v = norm(marks["struck"][1].args[0]) if "struck" in marks else NONE
        of = next((x for c, x in facts(p) if c[0] == "cmp" and c[1] == "in" and norm(c[2]) == KEY and norm(c[3]) == LIMITS), None)
        full: Any = None
        init = [e for e in p.trace[:runs[0]] if e.kind == "assign" and norm(e.args[0]) == WORKER]
        values = {norm(e.args[1]): e for e in init}
        for c, x in facts(p):
            while c[0] == "not":
                c, x = c[1], not x
            if c[0] == "cmp" and c[1] in ("<", "<=") and any(is_limit(t) for t in c[2:4]):
                lim, low = (c[3], c[2]) if is_limit(c[3]) else (c[2], c[3])
                low = norm(low)
                owner = norm(low[1]) if low[0] == "index" else norm(low[2][0]) if low[0] == "call" and low[1] == "get" else NONE
                key = norm(low[2]) if low[0] == "index" else norm(low[2][1]) if low[0] == "call" and low[1] == "get" else NONE
                r.require(key == KEY, cond, where + "/counter", f"compares {show(low)[:80]} with the limit", p)
                for val, e in values.items():
                    if owner in (val, ("attr", WORKER, e.name)):
                        counters.add(e.name)
                        zero = any(y == const(0) for y in walk(val)) and not any(y[0] == "const" and isinstance(y[1], int) and not isinstance(y[1], bool) and y[1] for y in walk(val) if len(y) == 2)
                        r.require(zero and any(y == LIMITS for y in walk(val)), cond, where + "/zero", f"counting starts at {show(val)[:80]}", p, e)
                strict = c[1] == "<" and lim == c[3]        # counted < limit
                other = c[1] == "<=" and lim == c[2]        # limit <= counted
                r.require(strict or other, cond, where + "/compare", f"the limit is compared as {show(c)[:100]}", p)
                full = (not x) if strict else x
        seen.add((of, full))
        if of is False:
            r.require(v in (FALSE, NONE), cond, where + "/unlimited", f"a key without a limit is struck: {show(v)[:60]}", p)
        elif of is True and full is not None:
            r.require(v == (TRUE if full else FALSE) or not full and v == NONE, cond, where + "/reached", f"a key that {'was' if full else 'was not'} run as often as allowed is {'let through' if full else 'struck'}", p)
    r.require({True, False} <= {f for o, f in seen if o is not False and f is not None}, cond, where + "/limits", "the limit is not compared with how often the key was run")
    r.require(len(counters) == 1, cond, where + "/counters", f"the runs are counted in {sorted(counters)}")
    name = next(iter(counters), "_execution_counts")
    table: Term = ("attr", WORKER, name)
    some = 0
    for p in execute_paths(w, False):
        claimed = next((i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "claim"), None)
        body = next((i for i, e in enumerate(p.trace) if is_body(e)), None)
        ups = [(i, e) for i, e in enumerate(p.trace) if e.kind == "setitem" and norm(e.args[0]) == table]
        tracked = next((v if c[1] == "in" else not v for c, v in facts(p) if c[0] == "cmp" and (c[1] == "in" and norm(c[3]) == table or c[1] == "==" and NONE in c[2:4] and any(of_table(x, table) for x in c[2:4]))), None)
        here = "Worker._execute"
        if body is None:
            refused = any(v is False and c[0] == "truth" and "claim" in str(c[1][1] if c[1][0] == "call" else "") for c, v in facts(p))
            r.require(not (refused and ups), count, here + "/refused", "a refused run is counted", p, ups[0][1] if ups else None)
            continue
        if tracked is False:
            r.require(not ups, count, here + "/other", "a key without a limit is counted", p, ups[0][1] if ups else None)
            continue
        some += 1
        if not r.require(len(ups) == 1, count, here, f"a run of a limited key is counted {len(ups)} times", p):
            continue
        i, e = ups[0]
        lin = linear(e.args[2])
        rest = {t: v for t, v in lin.items() if t is not None}
        good = lin.get(None) == 1 and len(rest) == 1 and all(v == 1 and any(y == table for y in walk(norm(t))) for t, v in rest.items())
        r.require(good and key_of(e.args[1]), count, here + "/value", f"counts {show(e.args[2])[:80]} for {show(e.args[1])[:40]}", p, e)
        r.require(claimed is not None and claimed < i < body, count, here + "/order", "a run is counted before it is claimed or after its function was called", p, e)
    r.require(some > 0, count, "Worker._execute/counted", "no run is ever counted")


def of_table(t: Any, table: Term) -> bool:
    t = norm(t)
    return t[0] == "call" and t[1] == "get" and norm(t[2][0]) == table


def is_limit(t: Any) -> bool:
    t = norm(t)
    return t[0] == "index" and norm(t[1]) == LIMITS and norm(t[2]) == KEY or t[0] == "call" and t[1] == "get" and norm(t[2][0]) == LIMITS and norm(t[2][1]) == KEY


def key_of(t: Term) -> bool:
    t = norm(t)
    return t == KEY or t[0] == "attr" and str(t[2]).lstrip("_") == "key"


def leaving(w: World, r: Report, leave: str) -> None:
    where = "Worker.__aexit__"
    for p in w.paths(where, lambda it: w.call(it, w.worker(it), where), inline=lambda f: f.name not in OPAQUE):
        sets = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "set" and "_worker_stopping" in repr(e.args[:1])]
        waits = [i for i, e in enumerate(p.trace) if "_worker_done" in repr(e.args[:1]) and (e.kind == "call" and last(e) == "wait" or e.kind == "await")]
        down = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) in ("__aexit__", "aclose") and not e.name.endswith("Worker.__aexit__")]
        r.require(bool(sets), leave, where + "/stop", "leaving a worker does not tell it to stop", p)
        if r.require(bool(waits) and bool(sets) and sets[0] < waits[0], leave, where + "/wait", "leaving a worker does not wait for it", p):
            r.require(bool(down) and waits[0] < down[0], leave, where + "/down", "what a worker needs is taken down before it is done", p)
