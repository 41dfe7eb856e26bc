"""Admission gates: concurrency limits, rate limits, cooldowns, debounces."""
from __future__ import annotations

from typing import Any, Callable

from ..delta import GONE, Delta
from ..model import DOCKET, Path, World
from ..paths import Event, eq, lt, negate, truth
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, cat, const, norm, show, walk
from .common import (GEN, KEY, OWN_ID, QUEUE, STREAM, acked, deleted, facts, group, identifies, less, mentions, parked, payload, present, progress, runs, state_channel,
                     state_is, units)
from .cancelling import cancellations, pattern
from .running import arguments, before, calls, last

WORKER: Term = ("sym", "worker", "docket.worker.Worker")
STACK: Term = ("sym", "stack", "contextlib.AsyncExitStack?")
RT: Term = ("attr", WORKER, "redelivery_timeout")


def context(values: dict[str, Callable[[Any], Term]]) -> dict[str, Callable]:
    """Context variables: their values by name, changed by set and reset."""
    def name(t: Term) -> str | None:
        n = t[-1] if t[0] == "attr" else t[1] if len(t) > 1 and isinstance(t[1], str) else ""
        n = str(n).split(".")[-1]
        return n if n in values else None

    def get(it: Any, recv: Term, a: list, k: dict, fr: Any, at: Any) -> Term | None:
        n = name(recv)
        if n is None:
            return None
        c = ("ctx", n)
        if (c, "value") not in it.heap:
            it.heap[(c, "value")] = values[n](it)
        return it.heap[(c, "value")]

    def set_(it: Any, recv: Term, a: list, k: dict, fr: Any, at: Any) -> Term | None:
        n = name(recv)
        if n is None:
            return None
        c = ("ctx", n)
        old = it.heap.get((c, "value"), ("sym", "outer " + n, None))
        it.heap[(c, "value")] = a[0]
        it.emit(Event("ctx", n, (it.freeze(a[0]),), extra="set"))
        return ("token", n, old, it.run.fresh())

    def reset(it: Any, recv: Term, a: list, k: dict, fr: Any, at: Any) -> Term | None:
        n = name(recv)
        if n is None:
            return None
        if a[0][0] == "token":
            it.heap[(("ctx", n), "value")] = a[0][2]
        it.emit(Event("ctx", n, (a[0],), extra="reset"))
        return NONE
    return {".get": get, ".set": set_, ".reset": reset}


def ambient(w: World) -> dict[str, Callable]:
    def execution(it: Any) -> Term:
        if ("ambient", "execution") not in it.heap:
            it.heap[("ambient", "execution")] = w.execution(it)
        return it.heap[("ambient", "execution")]
    return context({"current_execution": execution, "current_docket": lambda it: DOCKET, "current_worker": lambda it: WORKER, "stack": lambda it: it.heap.get(("ambient", "stack"), STACK),
                    "cache": lambda it: it.new_dict([])})


def gate_paths(w: World, cls: str, meth: str, keep: tuple[str, ...] = (), name: str = "", prep: Any = None, **over: Term) -> list[Path]:
    """Paths of a dependency's method within a task's context."""
    def body(it: Any) -> Term:
        o = w.make(it, cls, **over)
        if prep is not None:
            prep(it, o)
        v = w.call(it, o, f"{cls}.{meth}")
        return ("tuple", (o, v))
    return w.paths(f"{cls}.{meth}{name}", body, inline=lambda f: f.name not in OUTSIDE and f.name not in keep, hooks=ambient(w))


OUTSIDE = {"add", "cancel", "call_repr", "sync", "_renew_lease_loop", "labels", "get_argument", "add_renewal"}


def multiple(t: Term, of: Term) -> float | None:
    """The multiple of a span's seconds a term is at least."""
    t = norm(t)
    if t[0] == "call" and t[1] == "max":
        vs = [multiple(x, of) for x in t[2]]
        return max([v for v in vs if v is not None], default=None)
    if t[0] == "call" and t[1] in ("int", "float", "math.ceil", "round") and t[2]:
        return multiple(t[2][0], of)
    if t[0] == "call" and str(t[1]).endswith("total_seconds"):
        return 1.0 if norm(t[2][0]) == norm(of) else multiple(t[2][0], of)
    if t == norm(of):
        return 1.0
    if t[0] == "op" and t[1] in ("*", "/", "//") and len(t) == 4:
        a, b = multiple(t[2], of), multiple(t[3], of)
        ca, cb = (x[1] if x[0] == "const" and isinstance(x[1], (int, float)) else None for x in (t[2], t[3]))
        if a is not None and cb:
            return a * cb if t[1] == "*" else a / cb
        if b is not None and ca is not None and t[1] == "*":
            return b * ca
    return None


def plus(t: Term, a: Callable[[Term], bool], b: Callable[[Term], bool], sign: str = "+") -> bool:
    """Whether a term is a + b (in either order) or a - b."""
    t = norm(t)
    if t[0] != "op" or t[1] != sign or len(t) != 4:
        return False
    return a(t[2]) and b(t[3]) or sign == "+" and a(t[3]) and b(t[2])


def now_seconds(t: Term) -> bool:
    t = norm(t)
    if t[0] == "call" and t[1] in ("timestamp", "float") and t[2]:
        t = norm(t[2][0])
    return t[0] == "call" and t[1] in ("now", "time") or t[0] == "now"


def is_span(t: Term) -> bool:
    return multiple(t, RT) == 1.0


def is_stale_threshold(t: Term) -> bool:
    return plus(t, now_seconds, is_span, "-") or (norm(t)[0] == "call" and norm(t)[1] == "timestamp" and is_stale_threshold(norm(t)[2][0]))


def limit_name(k: Term) -> list[Term]:
    return list(k[1]) if k[0] == "cat" else [k]


def c17(w: World, r: Report) -> None:
    r.explain.append("Every path of ConcurrencyLimit.__aenter__ through the Lua of its acquire-or-park script is enumerated; what each does is compared with what it found about the slots.")
    take = r.rule("C17.acquire", "a slot is taken only when fewer than max_concurrent are taken, or in exchange for exactly one slot not renewed for a redelivery timeout, or when a redelivery finds its own slot that old")
    park = r.rule("C17.park", "an execution that gets no slot is parked with its whole message under a new generation, its delivery acknowledged and deleted, its record pending again and naming the waiter; it is blocked, as handled")
    atom = r.rule("C17.atomic", "looking at the slots, taking one and parking happen in one script call")
    wake = r.rule("C17.safeguard", "parking schedules a safeguard a redelivery timeout ahead for those waiters, withdrawn again only if the execution is no longer parked")
    hold = r.rule("C17.hold", "an acquired slot is renewed well within the redelivery timeout until it is released, and released by the run's exit stack after renewal has stopped")
    key = r.rule("C17.key", "slots are shared by the executions with the same limit: per docket, scope and task, or argument value")
    own = r.rule("C17.shared", "the limit written in a task's signature is shared and not changed by an execution")
    grp = group(w)
    MAX: Term = ("sym", "max_concurrent", "int")
    SCOPE: Term = ("sym", "scope", "str")

    seen: set[str] = set()
    names: dict[tuple, set] = {}
    for arg in (NONE, ("sym", "argument", "str")):
      for scope in (NONE, SCOPE):
        def prep(it: Any, o: Term, arg: Term = arg, scope: Term = scope) -> None:
            for a, v in (("max_concurrent", MAX), ("argument_name", arg), ("scope", scope)):
                it.heap[(norm(o), a)] = v
            it.run.assume(truth(SCOPE), True)
            if arg != NONE:
                it.run.assume(eq(arg, NONE), False)
                it.run.assume(truth(arg), True)
        for p in gate_paths(w, "ConcurrencyLimit", "__aenter__", name=f"/{'task' if arg == NONE else 'argument'}{'' if scope == NONE else ' scoped'}", prep=prep, argument_name=NONE):
            where = "ConcurrencyLimit"
            if p.outcome == "raise" and not is_blocked(p.value):
                d = Delta(p.trace)
                r.require(not d.writes or any(e.kind == "throw" for e in p.trace), park, where + "/fails", f"ends with {show(p.value)} after writing to Redis", p)
                continue
            d = Delta(p.trace)
            cmds = p.redis()
            counts = [e for e in cmds if e.name in ("ZCARD", "ZCOUNT", "ZSCORE")]
            if not r.require(bool(counts), take, where, "no slot is looked at", p):
                continue
            K = norm(counts[0].args[0])
            names.setdefault((arg, scope), set()).add(K)
            held = holding(p, K)
            full = is_full(p, K, MAX)
            takes = [e for e in cmds if e.name == "ZADD" and norm(e.args[0]) == K]
            drops = [e for e in cmds if e.name in ("ZREM", "ZREMRANGEBYSCORE", "ZPOPMIN", "DEL", "UNLINK") and norm(e.args[0]) == K]
            if p.outcome == "ok":
                if not r.require(len(takes) == 1 and slot_member(takes[0]) == KEY and now_seconds(slot_score(takes[0])), take, where + "/slot", "it starts without taking a slot of its own, under the current time", p):
                    continue
                if held:
                    seen.add("takeover")
                    r.require(p.fact(truth(("sym", "redelivered", "bool"))) is True and own_stale(p, K), take, where + "/takeover", "takes over a slot of its own key that may be in use", p, takes[0])
                    r.require(not drops, take, where + "/takeover-drops", "gives up other slots", p)
                elif full is False:
                    seen.add("free")
                    r.require(not drops, take, where + "/drops", f"{drops[0].name if drops else ''} although there is a free slot", p)
                else:
                    seen.add("scavenged")
                    ok = len(drops) == 1 and drops[0].name == "ZREM" and len(drops[0].args) == 2 and stale_member(p, drops[0].args[1], K)
                    r.require(full is True and ok, take, where + "/full", "takes a slot although all are taken and none is known to be stale" if not ok else "takes a slot without having counted them", p, takes[0])
                ttl = [e for e in cmds if e.name in ("EXPIRE", "PEXPIRE") and norm(e.args[0]) == K]
                r.require(all((multiple(e.args[1], RT) or 0) * (1 if e.name == "EXPIRE" else 0.001) > 1 for e in ttl), take, where + "/ttl", "slots expire before they go stale", p, ttl[0] if ttl else None)
                r.require(not d.xadd and not d.xack and not d.xdel, take, where + "/message", "the delivery of an admitted execution is touched", p)
                us = units([*cmds])
                r.require(len(us) == 1, atom, where, "looking and taking are not one script call", p)
                v = p.value[1][1]
                spawned = [e for e in p.trace if e.kind == "spawn" and "_renew" in e.name]
                pushes = [e for e in p.trace if e.kind in ("call", "push") and last(e) in ("push_async_callback", "callback", "push_async_exit", "enter_async_context") or e.kind == "push"]
                rel = [n for n, e in enumerate(pushes) if "_release_and_wake" in repr(e.args)]
                stop = [n for n, e in enumerate(pushes) if "_renew_lease_loop" in repr(e.args)]
                r.require(len(rel) == 1, hold, where + "/release", f"the slot's release is registered {len(rel)} times", p)
                r.require(bool(spawned) and len(stop) == 1 and rel and stop[0] > rel[0], hold, where + "/renewal", "renewal is not running, or not stopped before the slot is released", p)
                for e in pushes:
                    if "_release_and_wake" in repr(e.args):
                        r.require(any(x == norm(v) for a in e.args for x in walk(norm(a))), hold, where + "/instance", "another limit's slot is released", p, e)
                        r.require(any(x[:2] == STACK[:2] for a in e.args for x in walk(norm(a))), hold, where + "/stack", "the release is not registered with the run's exit stack", p, e)
                after = [e for e in p.trace[p.trace.index(takes[0]) + 1:] if e.kind in ("cm", "await") and e.name.startswith("enter") and "redis" in e.name]
                r.require(not after, hold, where + "/gap", "something else may fail between taking the slot and registering its release", p)
                for a in ("_concurrency_key", "_task_key", "_redelivery_timeout", "max_concurrent"):
                    val = [e for e in p.trace if e.kind == "assign" and e.name == a and norm(e.args[0]) == norm(v)]
                    want = {"_concurrency_key": K, "_task_key": KEY, "_redelivery_timeout": RT, "max_concurrent": MAX}[a]
                    r.require(bool(val) and norm(val[-1].args[1]) == norm(want), hold, where + "/" + a, f"the limit that releases the slot has {a} = {show(val[-1].args[1]) if val else None}", p)
            else:
                seen.add("parked")
                b = p.value
                h = [e for e in p.trace if e.kind == "assign" and e.name == "handled" and norm(e.args[0]) == norm(b)]
                r.require(bool(h) and norm(h[-1].args[1]) == TRUE, park, where + "/handled", "the worker is not told that the execution was parked", p)
                r.require(not takes and not drops, park, where + "/slots", "slots change although the execution is parked", p)
                if held:
                    stale = own_stale(p, K)
                    r.require(not (p.fact(truth(("sym", "redelivered", "bool"))) is True and stale), park, where + "/own", "is parked behind its own abandoned slot", p)
                else:
                    some = any_stale(p, K)
                    r.require(full is True and some is False, park, where + "/free", "is parked although a slot is free or stale", p)
                r.require(acked(d, grp) and deleted(d), park, where + "/delivery", "the delivery is not acknowledged and deleted", p)
                W = norm(cat(K, const(":waiters")))
                adds = [x for x in d.xadd]
                if r.require(len(adds) == 1 and norm(adds[0][0]) == W, park, where + "/waiter", f"it is put on {[show(x[0]) for x in adds]}", p):
                    from .schedule import MESSAGE
                    fields = adds[0][1]
                    for f in MESSAGE:
                        r.require(const(f) in fields, park, where + "/" + f, f"the waiting message lacks {f}", p, adds[0][3])
                    r.require(bool(adds[0][2]), park, where + "/trace", "the waiting message loses its trace context", p, adds[0][3])
                    g = norm(fields.get(const("generation"), NONE))
                    r.require(g[0] == "reply" and g[1] == "HINCRBY" and norm(g[2][0]) == runs(), park, where + "/generation", f"the waiting message has generation {show(g)}", p, adds[0][3])
                    for f, s in (("key", "key"), ("args", "args"), ("kwargs", "kwargs"), ("function", "function"), ("when", "when"), ("attempt", "attempt")):
                        v = norm(fields.get(const(f), NONE))
                        r.require(any(x[0] == "sym" and s in x[1] for x in walk(v)), park, where + f"/{f}-value", f"the waiting message has {f} = {show(v)}", p, adds[0][3])
                    rec = {f: d.field(runs(), f) for f in ("state", "known", "waiter_stream", "waiter_entry_id", "stream_id")}
                    r.require(rec["state"] is not None and norm(rec["state"]) == const("scheduled"), park, where + "/state", f"its recorded state becomes {show(rec['state'] or NONE)}", p)
                    r.require(rec["known"] not in (None, GONE), park, where + "/known", "its key is not marked pending", p)
                    r.require(rec["waiter_stream"] not in (None, GONE) and norm(rec["waiter_stream"]) == W, park, where + "/waiter_stream", "its record does not name the waiters", p)
                    e = rec["waiter_entry_id"]
                    r.require(e not in (None, GONE) and norm(e)[0] == "reply" and norm(e)[1] == "XADD", park, where + "/entry", "its record does not name the waiting entry", p)
                    r.require(rec["stream_id"] == GONE, park, where + "/stream_id", "its record still names the deleted delivery", p)
                    pub = [payload(x[1]) for x in d.published if x[0] == state_channel()]
                    r.require(any(x and norm(x.get("state", NONE)) == const("scheduled") for x in pub), park, where + "/announce", "parking is not announced", p)
                us = units([e for e in d.writes] + [e for e in cmds if e.name in ("ZCARD", "ZSCORE", "ZRANGEBYSCORE")])
                r.require(len(us) == 1, atom, where + "/park", "looking and parking are not one script call", p)
                safeguard(r, wake, where, p, W, MAX)
            bad = [e for e in p.trace if e.kind == "assign" and p.outcome == "ok" and norm(e.args[0]) == norm(p.value[1][0])]
            r.require(not bad, own, where, f"sets {bad[0].name if bad else ''} on the shared limit", p, bad[0] if bad else None)
    r.require(seen == {"free", "scavenged", "takeover", "parked"}, take, "ConcurrencyLimit/outcomes", f"only {sorted(seen)} are met")
    bound(w, r, key, "ConcurrencyLimit", ("max_concurrent", "scope"))
    fn = lambda k: any(x[0] == "sym" and x[1].startswith("function") for x in walk(k))
    val = lambda k: any(x[0] == "call" and str(x[1]).endswith("get_argument") for x in walk(k))
    for (arg, scope), ks in names.items():
        where = f"ConcurrencyLimit/{'task' if arg == NONE else 'argument'}{' in a scope' if scope != NONE else ''}"
        r.require(len(ks) == 1, key, where, f"the slots are {[show(k) for k in ks]}")
        for k in ks:
            r.require(mentions(k, ("attr", DOCKET, "name")), key, where + "/docket", f"the slots {show(k)} are shared between dockets")
            r.require(scope == NONE or mentions(k, SCOPE), key, where + "/scope", f"the slots {show(k)} do not respect the scope")
            if arg == NONE:
                r.require(fn(k), key, where + "/function", f"the slots {show(k)} are shared between tasks")
            else:
                r.require(val(k) and identifies(k, arg), key, where + "/value", f"the slots {show(k)} are not per argument value")
    renewal(w, r, hold)
    for rule in (take, park, atom, wake, hold, key, own):
        r.expect(rule, 2)


def is_blocked(t: Any) -> bool:
    return isinstance(t, tuple) and t[0] == "inst" and t[1].endswith("Blocked")


def slot_member(e: Event) -> Term:
    return norm(e.args[2]) if len(e.args) > 2 else NONE


def slot_score(e: Event) -> Term:
    return norm(e.args[1]) if len(e.args) > 1 else NONE


def is_reply(t: Term, cmd: str, k: Term) -> bool:
    t = norm(t)
    if t[0] == "call" and t[1] in ("tonumber", "int", "float") and t[2]:
        t = norm(t[2][0])
    return t[0] == "reply" and t[1] == cmd and norm(t[2][0]) == k


def holding(p: Path, K: Term) -> bool | None:
    for c, v in facts(p):
        if c[0] == "truth" and is_reply(c[1], "ZSCORE", K):
            return v
        if c[0] == "cmp" and c[1] == "==" and is_reply(c[2], "ZSCORE", K) and c[3] in (NONE, FALSE):
            return not v
    return None


def is_full(p: Path, K: Term, limit: Term) -> bool | None:
    v = less(p, lambda t: is_reply(t, "ZCARD", K), lambda t: norm(t)[:2] == limit[:2])
    if v is not None:
        return not v
    return less(p, lambda t: norm(t)[:2] == limit[:2], lambda t: plus(t, lambda x: is_reply(x, "ZCARD", K), lambda x: x == const(1)))


def own_stale(p: Path, K: Term) -> bool:
    """Whether the path found the execution's own slot stale."""
    v = less(p, is_stale_threshold, lambda t: is_reply(t, "ZSCORE", K))
    if v is not None:
        return not v
    return less(p, lambda t: is_reply(t, "ZSCORE", K), is_stale_threshold) is True


def bound(w: World, r: Report, rule: str, cls: str, same: tuple[str, ...]) -> None:
    """A gate written on an Annotated parameter keeps its limits and applies to that parameter."""
    for named in (False, True):
        def body(it: Any) -> Term:
            o = w.make(it, cls)
            for a in same:
                it.heap[(norm(o), a)] = ("sym", a, None)
            it.run.assume(eq(("sym", "argument_name", "str"), NONE), False)
            it.heap[(norm(o), "argument_name")] = ("sym", "argument_name", "str") if named else NONE
            v = w.call(it, o, f"{cls}.bind_to_parameter", [("sym", "parameter", "str"), ("sym", "value", None)])
            return ("tuple", tuple(it.get_attr(v, a, None, None) for a in (*same, "argument_name")))
        for p in w.paths(f"{cls}.bind_to_parameter{named}", body, inline=lambda f: f.name not in OUTSIDE, summarise=lambda f: False):
            if not r.require(p.outcome == "ok", rule, cls + ".bind_to_parameter", f"ends with {show(p.value)}", p):
                continue
            for a, v in zip((*same, "argument_name"), p.value[1]):
                want = a if a != "argument_name" or named else "parameter"
                r.require(norm(v)[:2] == ("sym", want), rule, f"{cls}.bind_to_parameter/{a}", f"the {a} becomes {show(v)}", p)


def stale_lookup(t: Term, K: Term) -> bool:
    t = norm(t)
    if t[0] != "reply" or norm(t[2][0]) != K:
        return False
    a = [norm(x) for x in t[2]]
    if t[1] == "ZRANGEBYSCORE":
        return a[1][0] == "const" and str(a[1][1]) in ("0", "-inf", "0.0") and is_stale_threshold(a[2])
    return False


def stale_member(p: Path, t: Term, K: Term) -> bool:
    t = norm(t)
    return t[0] in ("elem", "index") and stale_lookup(t[1], K)


def any_stale(p: Path, K: Term) -> bool | None:
    for c, v in facts(p):
        if c[0] == "truth" and stale_lookup(c[1], K):
            return v
        if c[0] == "truth" and c[1][0] in ("len", "call", "elem", "item") and any(stale_lookup(x, K) for x in walk(c[1]) if x[0] == "reply"):
            return v
        if c[0] == "cmp" and any(stale_lookup(x, K) for x in walk(c) if x[0] == "reply"):
            if c[1] == "<" and c[2] == const(0):
                return v
            if c[1] == "==" and const(0) in (c[2], c[3]):
                return not v
            if c[1] == "==" and NONE in (c[2], c[3]):
                return not v
    return None


def safeguard(r: Report, rule: str, where: str, p: Path, W: Term, limit: Term) -> None:
    adds = [e for e in p.trace if e.kind == "call" and last(e) == "add"]
    if not r.require(len(adds) == 1, rule, where, f"{len(adds)} safeguards are scheduled", p):
        return
    kw = {**dict(zip(("function", "when", "key"), adds[0].args[1:])), **dict(adds[0].kwargs)}
    r.require(plus(kw.get("when", NONE), lambda t: norm(t)[0] in ("now", "call") and now_seconds(t), lambda t: norm(t) == RT), rule, where + "/when", f"the safeguard is due at {show(kw.get('when', NONE))}", p, adds[0])
    k = kw.get("key", NONE)
    r.require(mentions(norm(k), KEY) and norm(k) != KEY, rule, where + "/key", f"the safeguard's key is {show(k)}", p, adds[0])
    sent = [e for e in p.trace if e.kind == "call" and e.name.startswith(adds[0].name + "(") and "_safeguard_wake" in e.name]
    got = {**dict(zip(("waiter_stream", "max_concurrent"), sent[0].args)), **dict(sent[0].kwargs)} if sent else {}
    ok = sent and norm(got.get("waiter_stream", NONE)) == W and norm(got.get("max_concurrent", NONE)) == limit
    r.require(bool(ok), rule, where + "/waiters", "the safeguard is not for these waiters and this limit", p, sent[0] if sent else adds[0])
    reads = [e for e in p.trace if e.kind == "redis" and e.name in ("HGET", "HMGET") and p.trace.index(e) > p.trace.index(adds[0]) and norm(e.args[0]) == runs()]
    drop = [e for e in p.trace if e.kind == "call" and last(e) == "cancel"]
    still = state_is(p, runs(), "scheduled")
    r.require(bool(reads) and still is not None, rule, where + "/race", "a wake between parking and scheduling the safeguard leaves the safeguard behind", p)
    r.require(bool(drop) == (still is False), rule, where + "/withdrawn", "the safeguard is withdrawn although the execution is parked" if drop else "the safeguard is kept although the execution was woken", p)
    for e in drop:
        r.require(norm(arguments(e)[-1]) == norm(k), rule, where + "/which", f"cancels {show(arguments(e)[-1])}", p, e)


def renewal(w: World, r: Report, rule: str) -> None:
    K: Term = ("sym", "slots", "str")

    def body(it: Any) -> Term:
        o = w.make(it, "ConcurrencyLimit")
        for a, v in (("_concurrency_key", K), ("_task_key", KEY), ("_redelivery_timeout", RT)):
            it.heap[(norm(o), a)] = v
        it.run.assume(truth(K), True)
        it.run.assume(truth(KEY), True)
        return w.call(it, o, "ConcurrencyLimit._renew_lease_loop", [RT])

    def raises(e: Event, t: list) -> list[str]:
        return ["redis.exceptions.ConnectionError"] if e.kind == "redis" else []

    ps = w.paths("ConcurrencyLimit._renew_lease_loop", body, inline=lambda f: f.name not in OUTSIDE or f.name == "_renew_lease_loop", hooks=ambient(w), raises=raises, faults=1, whiles=3,
                 cut=lambda e, t: e.kind == "redis" and sum(x.kind == "redis" for x in t) > 4)
    again = 0
    for p in ps:
        where = "ConcurrencyLimit._renew_lease_loop"
        r.require(p.outcome == "cut", rule, where + "/ends", f"renewal ends with {show(p.value)}", p)
        wait = 0.0
        clean = True
        for e in p.trace:
            if e.kind == "call" and e.name == "asyncio.sleep":
                m = multiple(arguments(e)[0], RT)
                r.require(m is not None and m <= 0.5, rule, where + "/interval", f"waits {show(arguments(e)[0])} between renewals", p, e)
                r.require(clean, rule, where + "/every", "a turn renews nothing", p, e)
                clean = False
            if e.kind == "throw":
                clean = True
                again += 1
            if e.kind == "redis" and e.name == "ZADD":
                clean = True
                r.require(norm(e.args[0]) == K and slot_member(e) == KEY and now_seconds(slot_score(e)), rule, where + "/slot", f"renews {show(slot_member(e))} of {show(e.args[0])} at {show(slot_score(e))}", p, e)
            if e.kind == "redis" and e.name in ("EXPIRE", "PEXPIRE"):
                m = multiple(e.args[1], RT)
                r.require(norm(e.args[0]) == K and m is not None and m > 1, rule, where + "/ttl", f"slots expire after {show(e.args[1])}", p, e)
    r.require(again > 0, rule, "ConcurrencyLimit._renew_lease_loop/fault", "no failing renewal is met")


def c18(w: World, r: Report) -> None:
    r.explain.append("Every path of a slot's release, of the safeguard, and of cleaning up after a cancelled waiter is enumerated through their Lua, with none, one and two waiters in every state.")
    free = r.rule("C18.release", "releasing gives up exactly the run's own slot; other slots are evicted only when not renewed for a redelivery timeout")
    cap = r.rule("C18.capacity", "waiters are woken only into capacity counted after slots were given up, oldest first, never more than fit")
    wake = r.rule("C18.wake", "a waiter still parked is moved to the stream with its whole message under a new generation, removed from the waiters, and its record becomes queued and names the delivery")
    drop = r.rule("C18.drop", "a waiter that was cancelled, replaced or is gone is removed without being moved, and its record is left alone")
    tidy = r.rule("C18.tidy", "a waiter's safeguard goes with it; slots and waiters are deleted only when found empty")
    atom = r.rule("C18.atomic", "releasing, counting and waking happen in one script call")
    clean = r.rule("C18.cancelled", "a cancelled waiter is taken off its waiters and its record, its progress removed and its safeguard cancelled; anything else is left alone")
    reg = r.rule("C18.registered", "every worker can run safeguards and listens for cancellations for as long as it runs")
    K: Term = ("sym", "slots", "str")
    MAX: Term = ("sym", "max_concurrent", "int")
    W = norm(cat(K, const(":waiters")))

    def release(it: Any) -> Term:
        o = w.make(it, "ConcurrencyLimit")
        for a, v in (("_concurrency_key", K), ("_task_key", KEY), ("_redelivery_timeout", RT), ("max_concurrent", MAX)):
            it.heap[(norm(o), a)] = v
        it.run.assume(truth(K), True)
        it.run.assume(truth(KEY), True)
        return w.call(it, o, "ConcurrencyLimit._release_and_wake")

    def sweep(it: Any) -> Term:
        return w.call(it, None, "docket.dependencies._concurrency._safeguard_wake", [cat(K, const(":waiters")), MAX])

    for name, body in (("release", release), ("safeguard", sweep)):
        outcomes = set()
        for p in w.paths(f"concurrency {name}", body, inline=lambda f: f.name not in OUTSIDE, hooks=ambient(w), loop=2, elements=2):
            where = f"concurrency {name}"
            if not r.require(p.outcome == "ok", free, where, f"raises {show(p.value)}", p):
                continue
            cmds = p.redis()
            if not cmds and name == "safeguard":
                continue
            d = Delta(p.trace)
            r.require(len(units(cmds)) == 1, atom, where, "it takes more than one script call", p)
            own = [e for e in cmds if e.name == "ZREM" and norm(e.args[0]) == K and norm(e.args[1]) == KEY]
            if name == "release":
                r.require(len(own) == 1 and not any(e.name == "ZCARD" for e in cmds[:cmds.index(own[0])]), free, where + "/own", "its own slot is not given up first", p)
            gone = [e for e in cmds if norm(e.args[0]) == K and e.name in ("ZREM", "ZREMRANGEBYSCORE", "ZREMRANGEBYRANK", "ZPOPMIN") and e not in own]
            for e in gone:
                ok = e.name == "ZREM" and all(any(stale_lookup(x, K) for x in walk(norm(a)) if x[0] == "reply") for a in e.args[1:]) \
                    or e.name == "ZREMRANGEBYSCORE" and is_stale_threshold(e.args[2]) and str(e.args[1][1]) in ("0", "-inf")
                r.require(ok, free, where + "/others", f"{e.name} gives up slots that may be in use", p, e)
            r.require(not [e for e in d.writes if norm(e.args[0]) == K and e.name == "ZADD"], free, where + "/takes", "it takes a slot", p)
            waiting = p_has_waiters(p, W)
            adds = [e for e in cmds if e.name == "XADD"]
            looked = [e for e in cmds if e.name == "XRANGE"]
            for e in looked:
                n = norm(e.args[4]) if len(e.args) > 4 else NONE
                count = capacity_of(n, K)
                r.require(norm(e.args[0]) == W and e.args[1] == const("-") and e.args[2] == const("+"), cap, where + "/waiters", f"looks at {show(e.args[0])} from {show(e.args[1])} to {show(e.args[2])}", p, e)
                i = cmds.index(e)
                cards = [x for x in cmds[:i] if x.name == "ZCARD" and norm(x.args[0]) == K]
                late = [x for x in gone + own if cards and cmds.index(x) > cmds.index(cards[-1])]
                r.require(count and bool(cards) and not late, cap, where + "/count", f"takes {show(n)} waiters", p, e)
                pos = less(p, lambda t: t == const(0), lambda t: norm(t) == n)
                if pos is None:
                    v = less(p, lambda t: norm(t) == n, lambda t: t == const(1))
                    pos = None if v is None else not v
                if pos is None:
                    pos = less(p, lambda t: is_reply(t, "ZCARD", K), lambda t: norm(t)[:2] == MAX[:2])
                r.require(pos is True, cap, where + "/positive", "takes waiters although nothing is known to be free", p, e)
            if waiting and not looked:
                full = [v for c, v in facts(p) if c[0] == "cmp" and c[1] == "<" and any(is_reply(x, "ZCARD", K) for x in walk(c) if x[0] == "reply")]
                r.require(bool(full), cap, where + "/idle", "waiters are not looked at although capacity may be free", p)
            if waiting:
                before_count = cmds[:max([i for i, x in enumerate(cmds) if x.name == "ZCARD" and norm(x.args[0]) == K and (not looked or i < cmds.index(looked[0]))], default=0)]
                swept = [x for x in before_count if x.name == "ZREMRANGEBYSCORE" and norm(x.args[0]) == K
                         or x.name == "ZRANGEBYSCORE" and len(x.args) == 3 and stale_lookup(("reply", x.name, x.args), K)]
                r.require(bool(swept), free, where + "/stale", "waiters stay behind slots nobody renews", p)
                if gone:
                    outcomes.add("evicted")
            elems: dict[Term, dict[str, Any]] = {}
            for e in p.trace:
                for t in [*e.args, *[v for _, v in e.kwargs]] if e.kind in ("redis", "branch") else []:
                    for x in walk(norm(t)):
                        if x[0] == "elem" and x[1][0] == "reply" and x[1][1] == "XRANGE":
                            elems.setdefault(x, {})
            for x in elems:
                mine = [e for e in adds if any(y == x for a in e.args for y in walk(norm(a)))]
                rk = next((norm(e.args[0]) for e in cmds if e.name in ("HGET", "HMGET") and mentions(norm(e.args[0]), x)), None)
                parked_ = rk is not None and state_is(p, rk, "scheduled") is True
                same = rk is not None and same_generation(p, rk, x)
                dels = [e for e in cmds if e.name == "XDEL" and norm(e.args[0]) == W and any(mentions(norm(a), x) for a in e.args[1:])]
                r.require(len(dels) == 1, wake if mine else drop, where + "/removed", f"a waiter looked at is removed {len(dels)} times", p)
                guard = [e for e in d.writes if e.name == "ZREM" and norm(e.args[0]) == QUEUE and any(mentions(norm(a), x) for a in e.args[1:])]
                data = [e for e in d.writes if e.name in ("DEL", "UNLINK") and any(mentions(norm(a), x) for a in e.args)]
                r.require(bool(guard) and len([a for e in data for a in e.args if mentions(norm(a), x)]) >= 2, tidy, where + "/safeguard", "a waiter's safeguard stays behind", p)
                r.require(all(mentions(norm(a), x) and "__safeguard__" in repr(a) for e in guard + data for a in (e.args[1:] if e.name == "ZREM" else e.args)), tidy, where + "/only-safeguard", "more than the safeguard is deleted", p)
                if mine:
                    outcomes.add("woken")
                    e = mine[0]
                    r.require(len(mine) == 1 and norm(e.args[0]) == STREAM, wake, where + "/stream", f"a waiter is put on {[show(y.args[0]) for y in mine]}", p, e)
                    r.require(parked_ and same is True, drop, where + "/revived", "a waiter is woken without having been found parked under its own generation", p, e)
                    got = {}
                    for k, v in zip(e.args[2::2], e.args[3::2]):
                        got[k] = norm(v)
                    for f in ("key", "when", "function", "args", "kwargs", "attempt"):
                        v = got.get(const(f))
                        r.require(v is not None and mentions(v, x), wake, where + "/" + f, f"the waiter's {f} is lost", p, e)
                    r.require("rest" in repr(e.args), wake, where + "/trace", "the waiter's trace context is lost", p, e)
                    g = got.get(const("generation"), NONE)
                    r.require(g[0] == "reply" and g[1] == "HINCRBY" and norm(g[2][0]) == rk, wake, where + "/generation", f"a woken execution has generation {show(g)}", p, e)
                    st, sid = d.field(rk, "state"), d.field(rk, "stream_id")
                    r.require(st is not None and norm(st) == const("queued"), wake, where + "/state", f"a woken execution's record says {show(st or NONE)}", p, e)
                    r.require(sid not in (None, GONE) and norm(sid)[0] == "reply" and norm(sid)[1] == "XADD", wake, where + "/stream_id", "a woken execution's record does not name its delivery", p, e)
                    for f in ("waiter_stream", "waiter_entry_id"):
                        r.require(d.field(rk, f) == GONE, wake, where + "/" + f, f"a woken execution's record keeps {f}", p, e)
                    r.require(d.field(rk, "known") in (None,), wake, where + "/known", "a woken execution is no longer marked pending", p, e)
                    pub = [y for y in d.published if mentions(norm(y[0]), x) and "queued" in repr(y[1])]
                    r.require(bool(pub), wake, where + "/announce", "waking is not announced", p, e)
                else:
                    outcomes.add("dropped")
                    r.require(not (parked_ and same is True) and rk is not None, wake, where + "/lost", "a parked waiter is dropped", p)
                    r.require(not [e for e in d.writes if rk is not None and norm(e.args[0]) == rk], drop, where + "/record", "the record of another execution changes", p)
            r.require(len(adds) <= len(elems), cap, where + "/more", "something else is put on the stream", p)
            for e in [x for x in d.writes if x.name in ("DEL", "UNLINK")]:
                for a in e.args:
                    if norm(a) == K:
                        r.require(empty_after(p, e, K, "ZCARD", ("ZREM",)), tidy, where + "/slots", "slots are deleted without having been found empty", p, e)
                    elif norm(a) == W:
                        r.require(empty_after(p, e, W, "XLEN", ("XDEL",)), tidy, where + "/waiters", "waiters are deleted without having been found empty", p, e)
            if name == "release":
                outcomes.add("freed")
        r.require({"woken", "dropped", "evicted"} <= outcomes, wake, f"concurrency {name}/outcomes", f"only {sorted(outcomes)} are met")

    # a cancelled waiter
    def cleanup(it: Any) -> Term:
        return w.call(it, ("class", "docket.dependencies._concurrency.ConcurrencyLimit"), "ConcurrencyLimit._cleanup_cancelled_waiter", [DOCKET, KEY])
    some = False
    for p in w.paths("concurrency cancelled", cleanup, inline=lambda f: f.name not in OUTSIDE, hooks=ambient(w)):
        where = "ConcurrencyLimit._cleanup_cancelled_waiter"
        if p.outcome != "ok":
            continue
        d = Delta(p.trace)
        looked = [e for e in p.redis("HMGET", "HGET", "HGETALL") if norm(e.args[0]) == runs()]
        xd = d.xdel
        if not d.writes:
            r.require(any((not v if c[0] == "truth" else v if c[0] == "cmp" and c[1] == "==" and NONE in c[2:4] else False) and any(recorded(x, n) for x in walk(c) for n in ("waiter_stream", "waiter_entry_id")) for c, v in p.run.facts.items()),
                      clean, where + "/parked", "a parked execution's entry is left where it is", p)
            continue
        some = True
        r.require(bool(looked), clean, where, "does not look whether the execution is parked", p)
        r.require(len(xd) == 1 and any(recorded(x, "waiter_entry_id") for x in walk(xd[0][1])) and any(recorded(x, "waiter_stream") for x in walk(xd[0][0])), clean, where + "/entry", "removes something other than the recorded waiter", p)
        for f in ("waiter_stream", "waiter_entry_id"):
            r.require(d.field(runs(), f) == GONE, clean, where + "/" + f, f"the record keeps {f}", p)
        other = [e for e in d.writes if norm(e.args[0]) == runs() and e.name not in ("HDEL",) or e.name in ("HDEL",) and {a[1] for a in e.args[1:]} - {"waiter_stream", "waiter_entry_id"}]
        r.require(not other, clean, where + "/record", "the record changes beyond the waiter", p, other[0] if other else None)
        dels = {norm(a) for e in d.writes if e.name in ("DEL", "UNLINK") for a in e.args}
        r.require(norm(progress()) in dels, clean, where + "/progress", "its progress stays behind", p)
        r.require(all(k == norm(progress()) or "waiter_stream" in repr(k) for k in dels), clean, where + "/dels", "more than the waiter's traces is deleted", p)
        for e in [x for x in d.writes if x.name in ("DEL", "UNLINK") and any("waiter_stream" in repr(a) for a in x.args)]:
            k = next(norm(a) for a in e.args if "waiter_stream" in repr(a))
            r.require(empty_after(p, e, k, "XLEN", ("XDEL",)), clean, where + "/others", "other waiters are deleted with it", p, e)
        cs = [e for e in p.trace if e.kind == "call" and last(e) == "cancel"]
        r.require(len(cs) == 1 and "__safeguard__" in repr(arguments(cs[0])) and mentions(norm(arguments(cs[0])[-1]), KEY), clean, where + "/safeguard", "its safeguard is not cancelled", p)
    r.require(some, clean, "ConcurrencyLimit._cleanup_cancelled_waiter/any", "a cancelled waiter is never removed")

    def sub(it: Any) -> Term:
        return w.call(it, ("class", "docket.dependencies._concurrency.ConcurrencyLimit"), "ConcurrencyLimit._cancel_subscriber", [DOCKET])
    heard = 0
    channel = cancellations(w)
    for p in w.paths("concurrency subscriber", sub, inline=lambda f: f.name not in OUTSIDE and f.name != "_cleanup_cancelled_waiter", hooks=ambient(w), loop=2):
        where = "ConcurrencyLimit._cancel_subscriber"
        subs = [e for e in p.trace if e.kind in ("call", "redis") and last(e).lower() in ("psubscribe", "subscribe")]
        if r.require(bool(subs) and bool(subs[0].args), clean, where + "/pattern", "does not listen for cancellations", p):
            pattern(r, clean, where + "/pattern", p, subs[0], norm(subs[0].args[-1]), channel)
        for e in p.trace:
            if e.kind == "call" and last(e) == "_cleanup_cancelled_waiter":
                heard += 1
                r.require("data" in repr(arguments(e)[-1]), clean, where + "/key", f"cleans up after {show(arguments(e)[-1])}", p, e)
        typ = [v for c, v in facts(p) if "pmessage" in repr(c)]
        done = [e for e in p.trace if e.kind == "call" and last(e) == "_cleanup_cancelled_waiter"]
        if typ.count(True) and not any("isinstance" in repr(c) or c[0] == "truth" for c, v in facts(p) if not v):
            r.require(len(done) >= typ.count(True), clean, where + "/missed", "a cancellation is ignored", p)
    r.require(heard > 0, clean, "ConcurrencyLimit._cancel_subscriber", "no cancellation is ever acted upon")

    lifecycle(w, r, reg)
    for rule in (free, cap, wake, drop, tidy, atom, clean, reg):
        r.expect(rule, 1)


def recorded(t: Term, name: str) -> bool:
    """A field of the run's record, whichever command read it."""
    if t[0] == "reply" and t[1] == "HGET":
        return t[2] == (runs(), const(name))
    if t[0] == "index" and t[1][0] == "reply" and t[1][1] == "HMGET" and t[2][0] == "const" and isinstance(t[2][1], int):
        fs = list(norm(t[1][2][1])[1]) if len(t[1][2]) == 2 and norm(t[1][2][1])[0] == "tuple" else t[1][2][1:]
        return t[1][2][0] == runs() and t[2][1] < len(fs) and norm(fs[t[2][1]]) == const(name)
    return t[0] in ("index", "call", "field") and any(x[0] == "reply" and x[1] == "HGETALL" and x[2][0] == runs() for x in walk(t)) and any(x in (const(name), const(name.encode())) for x in walk(t))


def p_has_waiters(p: Path, W: Term) -> bool | None:
    for c, v in facts(p):
        if c[0] == "cmp" and any(is_reply(x, "XLEN", W) for x in walk(c) if x[0] == "reply"):
            if c[1] == "<" and c[2] == const(0):
                return v
            if c[1] == "==" and const(0) in (c[2], c[3]):
                return not v
    return None


def capacity_of(n: Term, K: Term) -> bool:
    return n == const(1) or plus(n, lambda t: norm(t)[:2] == ("sym", "max_concurrent"), lambda t: is_reply(t, "ZCARD", K), "-")


def same_generation(p: Path, rk: Term, x: Term) -> bool | None:
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "==":
            a, b = c[2], c[3]
            for s, t in ((a, b), (b, a)):
                if mentions(s, x) and "generation" in repr(s) and s[0] != "reply" and t[0] == "reply" and norm(t[2][0]) == rk and const("generation") in t[2]:
                    return v
    return None


def empty_after(p: Path, e: Event, k: Term, count: str, removers: tuple[str, ...]) -> bool:
    """Whether k was found empty after the last removal before e."""
    cmds = [x for x in p.trace if x.kind in ("redis", "branch")]
    i = cmds.index(e)
    found = False
    for x in cmds[:i]:
        if x.kind == "redis" and x.name in ("XADD", "ZADD", "RPUSH") and norm(x.args[0]) == k:
            found = False
        if x.kind == "branch":
            c, v = x.args[0], x.result
            if c[0] == "cmp" and c[1] == "==" and any(is_reply(y, count, k) for y in c[2:4]) and const(0) in c[2:4]:
                found = bool(v)
            elif c[0] == "cmp" and c[1] == "<" and c[2] == const(0) and is_reply(c[3], count, k):
                found = not v
    return found


def lifecycle(w: World, r: Report, rule: str) -> None:
    c: Term = ("class", "docket.dependencies._concurrency.ConcurrencyLimit")
    ps = w.paths("concurrency lifecycle", lambda it: w.call(it, c, "ConcurrencyLimit.worker_lifecycle", [DOCKET, WORKER]), inline=lambda f: f.name not in OUTSIDE and f.name not in ("_cancel_subscriber", "register"), summarise=lambda f: False)
    for p in ps:
        where = "ConcurrencyLimit.worker_lifecycle"
        ys = [i for i, e in enumerate(p.trace) if e.kind == "yield"]
        regs = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "register" and "_safeguard_wake" in repr(e.args + tuple(v for _, v in e.kwargs))]
        sp = [i for i, e in enumerate(p.trace) if e.kind == "spawn" and "_cancel_subscriber" in e.name]
        r.require(bool(regs) and (not ys or regs[0] < ys[0]), rule, where + "/safeguard", "safeguards are not registered with the docket", p)
        r.require(bool(sp) and (not ys or sp[0] < ys[0]), rule, where + "/subscriber", "cancellations of waiters are not listened for", p)
        stop = [i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) in ("cancel", "cancel_task") and "_cancel_subscriber" in repr(e.args)]
        r.require(bool(stop) and (not ys or stop[0] > ys[0]), rule, where + "/stop", "the subscriber outlives the worker, or stops before it", p)
    r.require(bool(ps), rule, "ConcurrencyLimit.worker_lifecycle/any", "no path")
