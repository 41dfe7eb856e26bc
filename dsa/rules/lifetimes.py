"""Dockets, connections, strike lists, result stores and workers open whole or not at all, and close whole."""
from __future__ import annotations

import ast
from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..pyexec import PyRaise
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, norm, show, walk
from .gates import ambient

CLASSES = ("Docket", "RedisConnection", "StrikeList", "ResultStorage", "Worker")
CLOSED = ("ConnectionPool", "RedisCluster", "Redis")
FAULTS = ("RuntimeError", "asyncio.CancelledError")


def c35(w: World, r: Report) -> None:
    r.explain.append("Each class of the package that is entered and left is entered symbolically, with a failure or a cancellation at every step, and then left, with a failure at every step: "
                     "what was opened on the path (contexts, tasks, connection pools, context variables) is matched with what is closed on it.")
    opens = r.rule("C35.opens", "entering connects, follows the strikes and prepares the results, and a failure is raised")
    undone = r.rule("C35.undone", "when a step of entering fails, all that was opened before is closed, and it can be entered again")
    closes = r.rule("C35.closes", "leaving closes all that was opened, once, the last first, whatever fails meanwhile")
    for name in CLASSES:
        lifetime(w, r, name, opens, undone, closes)
    for rule, least in ((opens, 10), (undone, 10), (closes, 30)):
        r.expect(rule, least)


def lifetime(w: World, r: Report, name: str, opens: str, undone: str, closes: str) -> None:
    c = w.prog.klass(name)
    me_: list[Term] = []

    def body(it: Any) -> Term:
        me = DOCKET if name == "Docket" else w.worker(it) if name == "Worker" else ("sym", "self", c.qual)
        me_[:] = [me]

        def state(where: str) -> None:
            if name == "RedisConnection":
                it.emit(Event("mark", where, (norm(w.call(it, me, f"{c.qual}.is_connected")),)))
        if name == "RedisConnection":
            for n in ast.walk(w.prog.method(c, "is_connected").node):
                if isinstance(n, ast.Attribute):
                    it.heap[(norm(me), n.attr)] = NONE
        try:
            w.call(it, me, f"{c.qual}.__aenter__")
        except PyRaise:
            it.emit(Event("mark", "failed", ()))
            state("after")
            raise
        it.emit(Event("mark", "entered", ()))
        state("open")
        try:
            w.call(it, me, f"{c.qual}.__aexit__", [NONE] * 3)
        finally:
            it.emit(Event("mark", "left", ()))
            state("after")
        return NONE
    outside = {"_monitor_strikes", "_normalized_url"}
    creators = ("_connection_pool_from_url", "_create_cluster_client", "_create_node_pool", "_get_or_create_memory_client")

    def failing(e: Event, trace: list[Event]) -> tuple[str, ...]:
        if any(x.kind == "throw" for x in trace) or e.name == "enter:uncalled_for.SharedContext":   # sets context variables, no more
            return ()
        left = any(x.kind == "mark" and x.name == "entered" for x in trace)
        if e.kind == "cm" and (e.name.startswith("enter:") and not left or e.name.startswith("exit:") and e.name != "exit:stack" and left):
            return FAULTS
        if e.kind == "call" and (last(e) in ("setup", *creators) and not left or last(e) == "aclose" and left):
            return FAULTS
        return ()
    met = 0
    for p in w.paths("lifetime of " + name, body, raises=failing, hooks=ambient(w), budget=20000,
                     inline=lambda f: f.name not in outside and f.name not in creators and (f.cls in w.prog.mro(c) or f.module is c.module or f.name in ("close_resource", "cancel_task") or "<locals>" in f.qual)
                     and not (f.cls is not None and f.cls not in w.prog.mro(c) and f.name.startswith("__a"))):
        at = next((i for i, e in enumerate(p.trace) if e.kind == "mark" and e.name in ("entered", "failed")), None)
        if at is None:
            continue    # refused: it is open already
        entered = p.trace[at].name == "entered"
        thrown = [e for e in p.trace if e.kind == "throw"]
        refused = not entered and not any(e.kind == "throw" for e in p.trace[:at])
        opened, order = held(w, p, at, me_[0], c)
        if refused and not opened:
            continue
        met += 1
        where = f"{name}.__aenter__" if not entered else f"{name}.__aexit__"
        rule = closes if entered else undone
        closed: list[Term] = []
        for e in p.trace:
            for t in ended(e):
                if t in order and t not in closed:
                    closed.append(t)
        for t in order:
            r.require(t in closed, rule, f"{where}/{opened[t]}", f"{show(t)[:80]} stays open" + (" after a failure" if thrown else ""), p)
        if entered:
            r.require(closed == [t for t in reversed(order) if t in closed], rule, where + "/order", "what was opened is not closed in the reverse order", p)
        again = [t for t in order if opened[t] == "context" and sum(e.kind == "cm" and e.name.startswith("exit") and norm(e.args[0]) == t for e in p.trace) > 1]
        r.require(not again, rule, where + "/twice", f"{show(again[0])[:60] if again else ''} is left twice", p)
        if not entered:
            r.require(p.outcome == "raise", opens, where + "/raises", "a failure to open is lost", p)
        elif not thrown:
            r.require(p.outcome == "ok", closes, where + "/quiet", "leaving fails although every step succeeds", p)
        for e in p.trace:
            if e.kind == "mark" and e.name in ("open", "after"):
                v = state_of(p, e.args[0])
                r.require(v is (e.name == "open"), opens if e.name == "open" else rule, f"{where}/connected", f"the connection {'does not count as' if e.name == 'open' else 'still counts as'} connected", p)
        if entered:
            complete(w, r, opens, name, p, at, me_[0])
    r.require(met > 0, opens, name + ".__aenter__", "is never entered")


def last(e: Event) -> str:
    return e.name.split(".")[-1]


def state_of(p: Path, t: Term) -> bool | None:
    t = norm(t)
    if t in (TRUE, FALSE):
        return t == TRUE
    if t[0] == "not":
        v = state_of(p, t[1])
        return None if v is None else not v
    if t[0] in ("or", "and"):
        vs = [state_of(p, x) for x in t[1]]
        stop = t[0] == "or"
        return stop if stop in vs else None if None in vs else not stop
    if t[0] == "cmp" and t[1] == "==" and NONE in t[2:4] and any(x[0] in ("call", "inst") for x in t[2:4]):
        return False    # what was just made
    if t[0] == "truth":
        return state_of(p, t[1])
    return p.run.facts.get(t, p.run.facts.get(("truth", t)))


def held(w: World, p: Path, at: int, me: Term, c: Any) -> tuple[dict[Term, str], list[Term]]:
    """What entering opened, in order."""
    out: dict[Term, str] = {}
    trace = p.trace[:at]
    for i, e in enumerate(trace):
        nxt = trace[i + 1] if i + 1 < len(trace) else None
        if e.kind == "cm" and e.name.startswith("enter:") and not (nxt is not None and nxt.kind == "throw") and norm(e.args[0])[:2] != ("inst", "contextlib.AsyncExitStack"):
            if norm(e.args[0])[0] in ("inst", "attr", "sym", "new"):
                out[norm(e.args[0])] = "context"
        elif e.kind == "assign" and norm(e.args[0]) == norm(me) and norm(e.args[1]) != NONE:
            ty = str(w.prog.attr_type(c, e.name) or "")
            if any(x.split("[")[0].split(".")[-1] in CLOSED for x in ty.replace("'", "").replace('"', "").split("|")):
                out[norm(e.args[1])] = e.name
        elif e.kind == "spawn":
            started = (x for e2 in p.trace[i:] for a in e2.args for x in walk(a) if x[0] == "call" and x[1] == "task" and e.name in repr(x))
            out[next((norm(x) for x in started), ("task", e.name))] = "task"
        elif e.kind == "ctx" and e.extra == "set":
            token = (norm(e2.args[1]) for e2 in trace[i + 1:] if e2.kind == "assign" and "token" in repr(e2.args[1]) and repr(e.name) in repr(e2.args[1]))
            out[next(token, ("ctx", e.name))] = "variable"
    return out, list(out)


def ended(e: Event) -> list[Term]:
    """What an event closes."""
    if e.kind == "cm" and e.name.startswith("exit:"):
        return [norm(e.args[0])]
    if e.kind == "call" and last(e) in ("aclose", "disconnect", "cancel"):
        return [norm(a) for a in e.args]
    if e.kind == "redis" and e.name in ("ACLOSE", "CLOSE"):
        return [norm(e.extra)] if isinstance(e.extra, tuple) else []
    if e.kind == "ctx" and e.extra == "reset":
        return [norm(e.args[0]), ("ctx", e.name)]
    if e.kind == "call" and last(e) == "cancel_task":
        return [norm(a) for a in e.args] + [norm(v) for _, v in e.kwargs]
    return []


def complete(w: World, r: Report, rule: str, name: str, p: Path, at: int, me: Term) -> None:
    trace = p.trace[:at]
    enters = [norm(e.args[0]) for e, nxt in zip(trace, [*trace[1:], None]) if e.kind == "cm" and e.name.startswith("enter:") and (nxt is None or nxt.kind != "throw")]
    value = {e.name: norm(e.args[1]) for e in trace if e.kind == "assign" and norm(e.args[0]) == norm(me)}
    if name == "Docket":
        r.require(("attr", DOCKET, "_redis") in enters, rule, "Docket.__aenter__/connection", "a docket is entered without a connection", p)
        sl = value.get("strike_list")
        r.require(sl is not None and sl in enters, rule, "Docket.__aenter__/strikes", "a docket is entered without following its strikes", p)
        store = value.get("result_storage")
        user = ("attr", DOCKET, "_user_result_storage")
        r.require(store is not None and (store in enters or store == user), rule, "Docket.__aenter__/results", "a docket is entered without a result storage", p)
        given = next((not v for k, v in p.run.facts.items() if k[0] == "cmp" and k[1] == "==" and user in k[2:4] and NONE in k[2:4]), None)
        r.require(given is None or given == (store == user), rule, "Docket.__aenter__/given", "the result storage given is not the one used", p)
        if store == user:
            has = next((v for k, v in p.run.facts.items() if "hasattr" in repr(k) and "'setup'" in repr(k)), True)
            r.require(not has or any(e.kind == "call" and last(e) == "setup" for e in trace), rule, "Docket.__aenter__/setup", "the result storage given is not set up", p)
    if name == "StrikeList":
        conn: Term = ("attr", me, "_redis")
        alone = next((v for k, v in p.run.facts.items() if k[0] == "cmp" and k[1] == "==" and conn in k[2:4] and NONE in k[2:4]), None)
        tasks = [e for e in trace if e.kind == "spawn"]
        if alone:
            r.require(not enters and not tasks, rule, "StrikeList.__aenter__/alone", "a strike list without a connection follows one", p)
        else:
            r.require(conn in enters, rule, "StrikeList.__aenter__/connection", "the strikes are followed without a connection", p)
            r.require(len(tasks) == 1 and "_monitor_strikes" in repr((tasks[0].args, tasks[0].name)), rule, "StrikeList.__aenter__/monitor", "the strikes are not followed by one task", p)
            r.require(value.get("_strikes_loaded", NONE) != NONE, rule, "StrikeList.__aenter__/loaded", "nothing tells when the strikes are loaded", p)
    if name == "Worker":
        sets = {e.name: norm(e.args[0]) for e in trace if e.kind == "ctx" and e.extra == "set"}
        r.require(sets.get("current_worker") == norm(me) and sets.get("current_docket") in (("attr", norm(me), "docket"), DOCKET), rule, "Worker.__aenter__/ambient", "the worker and its docket are not made current", p)
    if name == "ResultStorage":
        r.require("_store" in value and any(e.kind == "call" and last(e) == "setup" for e in trace), rule, "ResultStorage.__aenter__/setup", "the store is not set up", p)
