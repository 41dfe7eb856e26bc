"""Cancelling a running task: from docket.cancel to the one run it is meant for."""
from __future__ import annotations

from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import NONE, Term, const, norm, show, walk
from .common import KEY, facts
from .loop import CONNECTION, WORKER, event_of, execution_of, is_execute_task, joined, loop_paths, runs_spawned, spawned_run
from .running import last

SESSION: Term = ("sym", "session", "docket.worker._ProcessingSession")
REGISTRY: Term = ("attr", WORKER, "_tasks_by_key")
READING = ("XREADGROUP", "XAUTOCLAIM", "XCLAIM")


def registered(t: Term) -> Term | None:
    """The key a task was looked up under in the worker's registry."""
    t = norm(t)
    if t[0] == "call" and t[1] in ("get", "pop") and t[2] and norm(t[2][0]) == REGISTRY and len(t[2]) > 1:
        return norm(t[2][1])
    if t[0] == "index" and norm(t[1]) == REGISTRY:
        return norm(t[2])
    return None


def text(t: Term) -> Term:
    t = norm(t)
    while t[0] == "text" and len(t) == 2 or t[0] == "call" and t[1] in ("decode", "str") and len(t[2]) >= 1:
        t = norm(t[1] if t[0] == "text" else t[2][0])
    return t


def listener(w: World, raises: Any = None, **cfg: Any) -> list[Path]:
    def body(it: Any) -> Term:
        wk = w.worker(it)
        it.heap[(norm(WORKER), "_processing_session")] = SESSION
        return w.call(it, wk, "Worker._cancellation_listener")
    return w.paths("Worker._cancellation_listener", body, inline=lambda f: f.name not in ("_log_context", "labels", "_wait_for_event"), raises=raises, **cfg)


def stopped(p: Path) -> bool:
    """The path found out that the worker is stopping, by its last look."""
    found = [v for e in p.trace if e.kind == "branch" for c, v in ((e.args[0], e.result),)
             if event_of(c) is not None and norm(event_of(c)) == ("attr", SESSION, "stopping") or c[0] == "truth" and c[1][0] == "call" and str(c[1][1]).endswith("_wait_for_event")]
    return bool(found) and bool(found[-1])


def messages(p: Path) -> list[tuple[Event, Term, list[Event]]]:
    """Each received message, with what was done until the next one was asked for."""
    out = []
    at = [i for i, e in enumerate(p.trace) if e.kind == "redis" and e.name in ("GET_MESSAGE", "PARSE_RESPONSE") or e.kind == "loop" and "LISTEN" in repr(e.args)]
    for n, i in enumerate(at):
        e = p.trace[i]
        out.append((e, norm(e.result) if e.result is not None else NONE, p.trace[i:at[n + 1] if n + 1 < len(at) else len(p.trace)]))
    return out


def c28(w: World, r: Report) -> None:
    r.explain.append("Docket.cancel, Worker._cancellation_listener (with its handler inlined, up to two messages, and an error raised at any Redis call or handled message) and Worker._worker_loop are enumerated; every "
                     "task.cancel() is traced back to the registry entry of the key in the message at hand, every registry write to the run it registers, and every read of the stream to the wait for the listener.")
    told = r.rule("C28.published", "cancelling a key publishes that key on its own channel, after its record has been dealt with")
    chan = r.rule("C28.channel", "the listener subscribes to the cancellation channels of its own docket and to no others, whatever characters its name contains")
    one = r.rule("C28.cancel", "a cancellation received cancels exactly the registered run of the key it names, if there is one")
    goes = r.rule("C28.lasting", "the listener ends only when the worker stops: after any error it subscribes again")
    ready = r.rule("C28.ready", "no delivery is read before the listener has subscribed")
    reg = r.rule("C28.registered", "every run is registered under its own execution's key as soon as it is started, and stays so until it has finished")

    def cancel(it: Any) -> Term:
        w.call(it, DOCKET, "Docket.cancel", [KEY])
        it.freeze(NONE)
        return it.freeze(w.call(it, DOCKET, "Docket.cancel_channel", [KEY]))
    channel: Term = NONE
    for p in w.paths("Docket.cancel", cancel, inline=lambda f: True):
        if p.outcome != "ok":
            continue
        where = "Docket.cancel"
        channel = norm(p.value) if p.value is not None else channel
        sent = [(i, e) for i, e in enumerate(p.trace) if e.kind in ("redis", "queued") and e.name == "PUBLISH" and norm(e.args[0]) == norm(p.value)]
        if not r.require(len(sent) == 1, told, where, f"the cancellation is published {len(sent)} times on the key's channel", p):
            continue
        i, e = sent[0]
        r.require(text(e.args[1]) == text(KEY), told, where + "/payload", f"publishes {show(e.args[1])[:80]}", p, e)
        later = [x for x in p.trace[i + 1:] if x.kind == "script" or x.kind == "redis" and x.name not in ("PUBLISH", "EXEC")]
        r.require(not later, told, where + "/order", "the signal is sent before the record is dealt with", p, later[0] if later else None)

    # -- the listener
    heard: set[Term] = set()
    for p in listener(w, loop=1, whiles=2):
        listening(r, chan, one, p, channel)
        for i, e in enumerate(p.trace):
            if e.kind == "call" and last(e) == "set" and e.args and norm(e.args[0])[:1] == ("attr",):
                heard.add(norm(e.args[0]))
                r.require(any(x.kind == "redis" and x.name == "PSUBSCRIBE" for x in p.trace[:i]), ready, "Worker._cancellation_listener", "readiness is signalled before subscribing", p, e)
        if p.outcome != "ok":
            r.fail(goes, "Worker._cancellation_listener", f"the listener ends with {show(p.value)[:60] if p.value else 'an error'}", p)
            continue
        none = any(v is True and c == ("cmp", "==", SESSION, NONE) for c, v in facts(p))
        r.require(none or stopped(p), goes, "Worker._cancellation_listener", "the listener ends although the worker goes on", p)

    def raises(e: Event, trace: list[Event]) -> list[str]:
        if any(x.kind == "throw" for x in trace) or e.kind != "redis":
            return []
        return [CONNECTION, "Exception"]
    again = 0

    def once(e: Event, trace: list[Event]) -> bool:
        return e.kind == "redis" and e.name == "GET_MESSAGE" and sum(x.kind == "redis" and x.name == e.name for x in trace) > (1 if any(x.kind == "throw" for x in trace) else 0) + 1
    for p in listener(w, raises, loop=1, whiles=2, prune=once):
        thrown = [i for i, e in enumerate(p.trace) if e.kind == "throw"]
        if not thrown:
            continue
        where = "Worker._cancellation_listener/error"
        if p.outcome == "raise":
            r.fail(goes, where, f"the listener ends with {show(p.value)[:60] if p.value else 'an error'}", p)
            continue
        r.require(stopped(p), goes, where, "the listener ends after an error although the worker goes on", p, p.trace[thrown[0]])
        after = p.trace[thrown[0] + 1:]
        got = next((i for i, e in enumerate(after) if e.kind == "redis" and e.name == "GET_MESSAGE"), None)
        sub = next((i for i, e in enumerate(after) if e.kind == "redis" and e.name == "PSUBSCRIBE"), None)
        if got is not None:
            again += 1
            r.require(sub is not None and sub < got, goes, where + "/subscribe", "the listener goes on after an error without subscribing again", p, after[got])
    r.require(again > 0, goes, "Worker._cancellation_listener/again", "no path goes on after an error")

    # -- the worker's loop
    def prune(e: Event, trace: list[Event]) -> bool:
        return spawned_run(e) and bool(runs_spawned(trace))
    for p in loop_paths(w, "cancellation", None, prune):
        looping(r, ready, reg, p, heard)
    for rule, least in ((told, 2), (chan, 4), (one, 4), (goes, 8), (ready, 2), (reg, 4)):
        r.expect(rule, least)


def listening(r: Report, chan: str, one: str, p: Path, channel: Term) -> None:
    where = "Worker._cancellation_listener"
    subs = [e for e in p.trace if e.kind == "redis" and e.name in ("PSUBSCRIBE", "SUBSCRIBE")]
    for e in subs:
        for a in e.args:
            pattern(r, chan, where, p, e, norm(a), channel)
    for e in [x for x in p.trace if x.kind == "redis" and x.name == "GET_MESSAGE"]:
        r.require(bool(subs) and p.trace.index(subs[0]) < p.trace.index(e), chan, where + "/subscribed", "messages are awaited before subscribing", p, e)
    for e, m, did in messages(p):
        cancels = [x for x in did if x.kind == "call" and last(x) == "cancel"]
        data = ("index", m, const("data"))
        spell = (data, ("call", "get", (m, const("data"))))

        def named(k: Term | None) -> bool:
            return k is not None and any(text(k)[:len(s)] == s for s in spell)
        for c in cancels:
            k = registered(c.args[0]) if c.args else None
            r.require(named(k), one, where, f"cancels {show(c.args[0])[:100] if c.args else 'something'} for a message naming another key", p, c)
        kind = next((v for c, v in facts(p) if c[0] == "cmp" and c[1] == "==" and const("pmessage") in c[2:4] and m in [y for x in c[2:4] for y in walk(norm(x))]), None)
        here = next((v for c, v in facts(p) for k in ([registered(c[1])] if c[0] == "truth" else [registered(x) for x in c[2:4]] if c[0] == "cmp" and NONE in c[2:4] else []) if named(k) for v in (v is (c[0] == "truth"),)), None)
        isin = next((v for c, v in facts(p) if c[0] == "cmp" and c[1] == "in" and norm(c[3]) == REGISTRY and named(norm(c[2]))), None)
        found = here if here is not None else isin
        empty = any(v is True and c[0] == "cmp" and c[1] == "==" and NONE in c[2:4] and m in (norm(c[2]), norm(c[3])) or v is False and c == ("truth", m) for c, v in facts(p))
        if empty or kind is False:
            r.require(not cancels, one, where + "/nothing", "cancels a run although no cancellation was received", p, cancels[0] if cancels else None)
        elif found is not False and p.outcome == "ok" and not any(x.kind == "throw" for x in did):
            r.require(found is True or bool(cancels), one, where + "/ignored", "a cancellation received is not looked up among the running tasks", p, e)
            r.require(len(cancels) == 1, one, where + "/lost", "the run named by a cancellation is not cancelled" if not cancels else "several runs are cancelled for one message", p, e)


def cancellations(w: World) -> Term:
    """The channel a key's cancellation is announced on."""
    return next(norm(p.value) for p in w.paths("Docket.cancel_channel", lambda it: it.freeze(w.call(it, DOCKET, "Docket.cancel_channel", [KEY])), inline=lambda f: True) if p.value is not None)


def pattern(r: Report, chan: str, where: str, p: Path, e: Event, a: Term, channel: Term) -> None:
    """The pattern is the channel's own text, taken literally, with any key."""
    def flat(t: Term, raw: bool) -> list[tuple[Any, bool]]:
        t = norm(t)
        if t[0] == "cat":
            return [x for y in t[1] for x in flat(y, raw)]
        if t[0] == "text" and len(t) == 2:
            return flat(t[1], raw)
        if t[0] == "const":
            return [(ch, raw) for ch in str(t[1])]
        if t[0] == "call" and t[1] not in ("prefix", "str", "decode", "encode") and not str(t[1]).endswith(".prefix") and t[2] and any(x == DOCKET or x[:2] == ("attr", DOCKET) for x in walk(t)):
            inner = [x for x in t[2] if any(y == DOCKET or y[:2] == ("attr", DOCKET) for y in walk(norm(x)))]
            return [x for y in inner for x in flat(y, False)]
        return [(t, raw)]
    got, want = flat(a, True), flat(channel, True)
    mine = [x for x, _ in want if x != norm(KEY) and x != KEY]
    body, star = [x for x, _ in got[:-1]], got[-1:]
    r.require(last(e).upper() == "PSUBSCRIBE" and [x for x, _ in star] == ["*"] and body == mine, chan, where, f"subscribes to {show(a)[:120]}, not to the channels cancellations are sent on ({show(channel)[:80]})", p, e)
    names = [raw for x, raw in got if not isinstance(x, str)]
    r.require(not any(names), chan, where + "/literal", "the docket's name is read as a pattern: cancellations of other dockets are heard, or its own are not", p, e)


def looping(r: Report, ready: str, reg: str, p: Path, signals: set[Term]) -> None:
    where = "Worker._worker_loop"
    listens = [i for i, e in enumerate(p.trace) if e.kind == "spawn" and e.name.endswith("._cancellation_listener")]
    made = [e for e in p.trace if e.kind == "new" and e.name.endswith("._ProcessingSession")]
    known = {norm(v) for e in made for k, v in e.kwargs if ("attr", SESSION, k) in signals} | {s for s in signals if s[1] != SESSION}
    heard = None
    for i, e in enumerate(p.trace):
        if e.kind == "branch" and event_of(e.args[0]) in known:
            heard = (i, e.result)
        if e.kind == "call" and last(e) == "wait" and e.args and norm(e.args[0]) in known:
            heard = (i, True)
        if e.kind == "branch" and e.result and e.args[0][0] == "truth" and e.args[0][1][0] == "call" and str(e.args[0][1][1]).endswith("_wait_for_event") and norm(e.args[0][1][2][0]) in known:
            heard = (i, True)
        if e.kind == "redis" and e.name in READING or spawned_run(e):
            r.require(bool(listens) and listens[0] < i, ready, where + "/listener", "deliveries are read although nothing listens for cancellations", p, e)
            r.require(heard is not None and heard[1] is True, ready, where, "deliveries are read before the listener has subscribed", p, e)
            break
    for i, e in enumerate(p.trace):
        if not spawned_run(e):
            continue
        x = execution_of(e)
        sets = [(j, s) for j, s in enumerate(p.trace) if s.kind == "setitem" and norm(s.args[0]) == REGISTRY]
        mine = [(j, s) for j, s in sets if j > i and is_execute_task(norm(s.args[2]))]
        if not mine and p.outcome == "cut":
            continue
        if not r.require(bool(mine), reg, where, "a run is not registered for cancellation", p, e):
            continue
        j, s = mine[0]
        k = text(s.args[1])
        r.require(k[0] == "attr" and norm(k[1]) == x and str(k[2]).lstrip("_") == "key", reg, where + "/key", f"a run is registered under {show(s.args[1])[:80]}", p, s)
        waits = [y for y in p.trace[i + 1:j] if y.kind in ("await", "redis", "script") or y.kind == "call" and y.name.startswith("asyncio.") and last(y) in ("sleep", "wait", "wait_for", "gather")]
        r.require(not waits, reg, where + "/late", "a run is registered only after others had a chance to run", p, s)
        end = next((k for k, y in enumerate(p.trace) if k > j and joined(y)), None)
        done = next((k for k, y in enumerate(p.trace) if k > j and y.kind == "branch" and "done" in repr(y.args[0]) and y.result), None)
        until = min(k for k in (end, done, len(p.trace)) if k is not None)
        gone = [y for y in p.trace[j + 1:until] if y.kind == "delitem" and norm(y.args[0]) == REGISTRY or y.kind == "call" and last(y) in ("pop", "clear", "popitem") and y.args and norm(y.args[0]) == REGISTRY]
        r.require(not gone, reg, where + "/early", "a run is unregistered before it has finished", p, gone[0] if gone else None)
