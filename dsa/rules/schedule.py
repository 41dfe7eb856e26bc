"""Scheduling: what add, replace, schedule and reschedule leave in Redis."""
from __future__ import annotations

from ..delta import GONE, Delta
from ..model import Path, World
from ..report import Report
from ..terms import NONE, Term, const, norm, show
from .common import (KEY, MSGID, QUEUE, STREAM, enum_is, future, group, known_key, last_assign, mentions, parked, payload, present, runs,
                     scheduling_paths, state_channel, state_is, stream_id_key, stricken, units, value_text, when_of)


def attempts(w: World, how: str) -> list[tuple[Path, Delta]]:
    """The paths that reach Redis without the task being stricken."""
    out = []
    for p in scheduling_paths(w, how):
        if p.outcome == "raise" or stricken(p):
            continue
        out.append((p, Delta(p.trace)))
    return out


def occupied(p: Path) -> bool:
    return bool(present(p, runs(), "known")) or bool(state_is(p, runs(), "running")) or bool(present(p, known_key()))


def c01(w: World, r: Report) -> None:
    r.explain.append("Every path of Docket.add, Docket.schedule and Docket.replace through Execution.schedule and the Lua of _schedule is enumerated; "
                     "on each, the Redis commands issued and the outcome reported are compared with what the branch facts of that path say about the key.")
    keep = r.rule("C01.keep", "a path that finds the key pending (known marker), running, or known at the legacy location issues no write and no publish")
    claim = r.rule("C01.accept", "a path that writes has established that the key is neither pending, nor running, nor known at the legacy location")
    told = r.rule("C01.told", "the disposition is ALREADY_SCHEDULED exactly on the paths that write nothing, SCHEDULED on the others, and local state is left alone")
    atom = r.rule("C01.atomic", "the tests and the writes of one attempt are issued by a single script call")
    over = r.rule("C01.replace", "replace() always writes: no path of it is a no-op")
    for how in ("add", "schedule"):
        reasons = set()
        for p, d in attempts(w, how):
            where = f"Docket.{how}"
            disp = last_assign(p, "disposition")
            if d.writes:
                k = present(p, runs(), "known")
                run = state_is(p, runs(), "running")
                leg = present(p, known_key())
                r.require(k is False, claim, where + "/known", "writes without having found the pending marker of the key absent", p, d.writes[0])
                r.require(run is False, claim, where + "/running", "writes without having found the key not to be running", p, d.writes[0])
                r.require(leg is False, claim, where + "/legacy", "writes without having found the legacy marker absent", p, d.writes[0])
                r.require(enum_is(disp, "Disposition", "SCHEDULED"), told, where + "/scheduled", f"disposition after scheduling is {show(disp) if disp else None}", p)
                us = units([*d.writes, *d.reads])
                r.require(len(us) == 1 and "script" in next(iter(us)), atom, where, "the check for an existing key and the writes are not one script call", p)
            else:
                if present(p, runs(), "known"):
                    reasons.add("known")
                elif state_is(p, runs(), "running"):
                    reasons.add("running")
                elif present(p, known_key()):
                    reasons.add("legacy")
                r.require(occupied(p), keep, where + "/noop", "the task is dropped although the key is free", p)
                r.require(enum_is(disp, "Disposition", "ALREADY_SCHEDULED"), told, where + "/already",
                          f"disposition after finding the key taken is {show(disp) if disp else None}", p)
                changed = [e for e in p.trace if e.kind == "assign" and e.name == "state" and after_script(p, e)]
                r.require(not changed, told, where + "/local-state", "local state changes although nothing was scheduled", p, changed[0] if changed else None)
            if occupied(p):
                r.require(not d.writes, keep, where, f"{d.writes[0].name if d.writes else ''} issued although the key is pending or running", p,
                          d.writes[0] if d.writes else None)
        r.require(reasons == {"known", "running", "legacy"}, keep, f"Docket.{how}/reasons", f"only {sorted(reasons)} keep an existing schedule")
    for p, d in attempts(w, "replace"):
        r.require(bool(d.writes), over, "Docket.replace", "replace() leaves the previous schedule in place", p)
        r.require(enum_is(last_assign(p, "disposition"), "Disposition", "SCHEDULED"), over, "Docket.replace/disposition", "replace() does not report SCHEDULED", p)
    for rule in (keep, claim, told, atom, over):
        r.expect(rule, 2)


def after_script(p: Path, e) -> bool:
    i = p.trace.index(e)
    return any(x.kind == "script" for x in p.trace[:i])


MESSAGE = ("key", "when", "function", "args", "kwargs", "attempt", "generation")


def whole_message(r: Report, rule: str, where: str, named: dict, rest: list, d: Delta, p: Path, at) -> None:
    for f in MESSAGE:
        r.require(const(f) in named, rule, f"{where}/{f}", f"the stored message lacks the field {f}", p, at)
    if const("key") in named:
        r.require(norm(named[const("key")]) == KEY, rule, where + "/key-value", f"the stored message carries key {show(named[const('key')])}", p, at)
    gen = d.field(runs(), "generation")
    if const("generation") in named:
        r.require(norm(named[const("generation")]) == norm(gen or NONE), rule, where + "/generation-value",
                  "the generation in the message is not the one recorded for the key", p, at)
    for f, src in (("args", "args"), ("kwargs", "kwargs"), ("when", None), ("attempt", None), ("function", None)):
        if const(f) in named and src:
            v = named[const(f)]
            r.require(any(x[0] == "sym" and x[1] == src for x in syms(v)), rule, f"{where}/{f}-value", f"field {f} holds {show(v)}", p, at)
    if const("when") in named:
        r.require(mentions(named[const("when")], when_of(p)), rule, where + "/when-value", f"field when holds {show(named[const('when')])}", p, at)
    r.require(bool(rest), rule, where + "/trace", "fields beyond the fixed ones (trace context) are not stored", p, at)


def syms(t):
    from ..terms import walk

    return [x for x in walk(norm(t)) if x[0] == "sym"]


def c02(w: World, r: Report) -> None:
    r.explain.append("On every accepting path of add, replace, schedule and reschedule the Redis commands are folded into the change they make to the keyspace, "
                     "which must contain exactly one home for the task (stream entry or parked hash plus queue member) holding the whole message, "
                     "and a run record naming that home.")
    one = r.rule("C02.one-home", "an accepted task ends up in exactly one place: one XADD when due, parked hash and queue member otherwise")
    whole = r.rule("C02.message", "the stored message has every field of the task, with the values given by the caller")
    rec = r.rule("C02.record", "the run record is marked pending (known) with its time, state, function and arguments, and names the stream entry exactly when there is one")
    old = r.rule("C02.old-homes", "replace removes the previous stream entry, queue member and parked data; rescheduling acknowledges and deletes the delivered message")
    atom = r.rule("C02.atomic", "all of it is issued by one script call")
    told = r.rule("C02.told", "the same script call announces the key with the state it now has and its time, and the execution itself takes that state")
    for how in ("add", "replace", "schedule", "reschedule"):
        entry = f"Docket.{how}" if how != "reschedule" else "Execution.schedule(reschedule)"
        n = 0
        for p, d in attempts(w, how):
            if not d.writes:
                continue
            n += 1
            when = when_of(p)
            fut = future(p, when)
            where = f"{entry}/{'future' if fut else 'now'}"
            adds = [x for x in d.xadd if x[0] == STREAM]
            member = d.zset.get(QUEUE, {}).get(KEY)
            ph = d.hash.get(parked(), {})
            live = {f: v for f, v in ph.items() if v != GONE}
            if not r.require(fut is not None, one, where, "the time of the task is not compared with the current time", p):
                continue
            if fut:
                r.require(not d.xadd, one, where, "a task for the future is put on the stream", p, d.xadd[0][3] if d.xadd else None)
                r.require(member is not None and member != GONE and mentions(member, when), one, where + "/queue",
                          f"the task is not queued under its time (score {show(member) if member else None})", p)
                if r.require(bool(live), one, where + "/parked", "the task's data is not parked", p):
                    whole_message(r, whole, where, live, d.rest.get(parked(), []), d, p, None)
                r.require(not [x for x in d.expire if x == parked()], one, where + "/ttl", "the parked data may expire", p)
            else:
                r.require(len(adds) == 1 and len(d.xadd) == 1, one, where, f"{len(d.xadd)} stream entries are added for one task", p)
                r.require(member is None or member == GONE, one, where + "/queue", "a due task is also queued", p)
                r.require(not live, one, where + "/parked", "a due task is also parked", p)
                if adds:
                    whole_message(r, whole, where, adds[0][1], adds[0][2], d, p, adds[0][3])
            state = d.field(runs(), "state")
            r.require(value_text(state) == ("scheduled" if fut else "queued"), rec, where + "/state", f"the record's state becomes {show(state) if state else None}", p)
            kn = d.field(runs(), "known")
            r.require(kn not in (None, GONE), rec, where + "/known", "the key is not marked pending", p)
            wv = d.field(runs(), "when")
            r.require(wv not in (None, GONE) and mentions(wv, when), rec, where + "/when", "the record does not hold the task's time", p)
            for f in ("function", "args", "kwargs"):
                v = d.field(runs(), f)
                src = (adds[0][1] if adds else live).get(const(f))
                r.require(v not in (None, GONE) and (src is None or norm(v) == norm(src)), rec, f"{where}/{f}",
                          f"the record's {f} is {show(v) if v and v != GONE else 'missing'}", p)
            sid = d.field(runs(), "stream_id")
            if fut:
                r.require(sid in (None, GONE) and (runs() in d.cleared or sid == GONE), rec, where + "/stream_id", "a queued task's record names a stream entry", p)
            else:
                r.require(sid not in (None, GONE) and adds and norm(sid) == norm(adds[0][3].result), rec, where + "/stream_id",
                          "the record does not name the stream entry of the task", p)
            for f in ("worker", "started_at", "error", "result_key", "completed_at"):
                v = d.field(runs(), f)
                r.require(v == GONE, rec, f"{where}/stale-{f}", f"the previous run's {f} stays in the record", p)
            r.require(runs() in d.cleared and runs() not in d.expire, rec, where + "/ttl", "the pending record keeps or gains an expiry", p)
            us = units(d.writes)
            r.require(len(us) == 1 and "script" in next(iter(us)), atom, where, "the writes are spread over several atomic units", p)
            pubs = [x for x in d.published if x[0] == state_channel()]
            f = (payload(pubs[0][1]) or {}) if pubs else {}
            r.require(len(pubs) == 1 and f.get("key") == KEY and value_text(f.get("state")) == ("scheduled" if fut else "queued") and value_text(f.get("type")) == "state"
                      and "when" in f and mentions(f["when"], when), told, where, "the new schedule is not announced with key, state and time", p)
            r.require(enum_is(last_assign(p, "state"), "ExecutionState", "SCHEDULED" if fut else "QUEUED"), told, where + "/local", "the execution's own state does not follow", p)
            if how == "replace":
                new, legacy = present(p, runs(), "stream_id"), present(p, stream_id_key())
                gone = [norm(x[1]) for x in d.xdel if x[0] == STREAM]
                hit = [g for g in gone if g[0] == "reply"]
                if new:
                    r.require(any(g[1] in ("HGET", "HGETALL", "HMGET") for g in hit), old, where + "/stream", "the previous stream entry stays", p)
                elif legacy:
                    r.require(any(g[1] == "GET" for g in hit), old, where + "/stream-legacy", "the previous stream entry (legacy location) stays", p)
                else:
                    r.require(new is False and legacy is False, old, where + "/stream-lookup", "the previous stream entry is not looked up", p)
                r.require(parked() in d.cleared, old, where + "/parked", "previously parked data stays", p)
                if not fut:
                    r.require(member == GONE, old, where + "/queue", "the previous queue member stays", p)
                r.require(known_key() in d.cleared and stream_id_key() in d.cleared, old, where + "/legacy", "legacy markers stay", p)
            if how == "reschedule":
                r.require([x for x in d.xack if x[0] == STREAM and norm(x[2]) == MSGID and norm(x[1]) == group(w)], old, where + "/ack", "the delivered message is not acknowledged", p)
                r.require([x for x in d.xdel if x[0] == STREAM and norm(x[1]) == MSGID], old, where + "/del", "the delivered message is not deleted", p)
            else:
                r.require(not d.xack, old, where + "/no-ack", "scheduling acknowledges a message", p)
        r.require(n >= 2, one, entry, "no accepting path for both a due and a future task")
    for rule in (one, whole, rec, old, atom, told):
        r.expect(rule, 4)
