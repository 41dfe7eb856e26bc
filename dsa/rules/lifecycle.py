"""The life of an execution: superseded, moved when due, cancelled, claimed, finished."""
from __future__ import annotations

from typing import Any

from ..delta import GONE, Delta
from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, walk
from .common import (GEN, KEY, QUEUE, STREAM, acked, cancel_channel, deleted, enum_is, equals, established, facts, group, has_message, hgetall_field,
                     is_gen, key, known_key, last_assign, less, mentions, newer, own_message, parked, payload, present, progress, recorded_gen, replies,
                     runs, stale, state_channel, state_is, stream_id_key, tracked, units, value_text)
from ..scripts import script_of, text_orders
from .schedule import attempts


def method(w: World, qual: str) -> list[tuple[Path, Delta]]:
    recv = {"Execution": w.execution, "Worker": w.worker}.get(qual.split(".")[0], lambda it: DOCKET)
    ps = w.paths(qual, lambda it: w.call(it, recv(it), qual))
    return [(p, Delta(p.trace)) for p in ps]


MARKS = {"Execution.mark_as_completed": "completed", "Execution.mark_as_failed": "failed", "Execution.mark_as_cancelled": "cancelled"}


def settled(r: Report, rule: str, where: str, p: Path, d: Delta, grp: Term) -> None:
    """The delivered message, when there is one, is acknowledged and deleted."""
    m = has_message(p)
    if m is False:
        r.require(True, rule, where)
        return
    r.require(acked(d, grp), rule, where + "/ack", "the delivered message is not acknowledged", p)
    r.require(deleted(d), rule, where + "/delete", "the delivered message stays on the stream", p)


def c03(w: World, r: Report) -> None:
    r.explain.append("Every path of scheduling, Execution.claim, mark_as_completed/failed/cancelled and is_superseded through their Lua is enumerated; "
                     "the path's facts about the recorded generation decide whether it is superseded, and the folded Redis effect is checked against that.")
    bump = r.rule("C03.bump", "every accepted scheduling increments the key's generation atomically and stores the new value in the record and in the message")
    refuse = r.rule("C03.claim", "a claim succeeds only on paths that found the execution untracked or the recorded generation present and not newer; "
                                 "it is refused only on superseded paths, which change neither the record nor the progress nor announce anything")
    term = r.rule("C03.finish", "finishing a superseded execution leaves the record alone, still announces the outcome, and deletes progress only if it is untagged or not newer")
    ack = r.rule("C03.ack", "a superseded execution's delivered message is acknowledged and deleted")
    own = r.rule("C03.check", "is_superseded() is the comparison recorded generation > own generation, false for untracked executions")
    number = r.rule("C03.number", "scripts compare generations, and whatever else they put in an order, as numbers")
    grp = group(w)
    for how in ("add", "replace", "schedule", "reschedule"):
        for p, d in attempts(w, how):
            if not d.writes:
                continue
            g = d.field(runs(), "generation")
            ok = g not in (None, GONE) and norm(g)[0] == "reply" and norm(g)[1] == "HINCRBY" and norm(g)[2][0] == runs() and norm(g)[2][1] == const("generation")
            amount = norm(g)[2][2] if ok else NONE
            r.require(ok and amount[0] == "const" and str(amount[1]).lstrip("-").isdigit() and int(amount[1]) > 0, bump, how + "/record",
                      "the recorded generation is not an atomic increment of the previous one", p)
            msgs = [x[1] for x in d.xadd] + [{f: v for f, v in d.hash.get(parked(), {}).items() if v != GONE}]
            for m in msgs:
                if m:
                    r.require(g is not None and norm(m.get(const("generation"), NONE)) == norm(g), bump, how + "/message",
                              f"the message carries generation {show(m.get(const('generation'), NONE))}", p)
    seen = set()
    for p, d in method(w, "Execution.claim"):
        if p.outcome != "ok":
            continue
        s = stale(p)
        if norm(p.value) == TRUE:
            seen.add("claimed")
            r.require(s is False, refuse, "Execution.claim/accept", "the execution is claimed although it was not found to be current", p)
        elif norm(p.value) == FALSE:
            seen.add("refused")
            r.require(s is True, refuse, "Execution.claim/refuse", "the claim is refused although the execution is current", p)
            hit = [e for e in d.writes if e.args and e.args[0] in (runs(), progress(), known_key(), stream_id_key(), parked())]
            r.require(not hit, refuse, "Execution.claim/refuse-writes", "a refused claim writes to the key's record or progress", p, hit[0] if hit else None)
            r.require(not d.published, refuse, "Execution.claim/refuse-publish", "a refused claim announces a state", p, d.published[0][2] if d.published else None)
            settled(r, ack, "Execution.claim", p, d, grp)
            st = last_assign(p, "state")
            r.require(st is None or not enum_is(st, "ExecutionState", "RUNNING"), refuse, "Execution.claim/refuse-local", "a refused execution considers itself running", p)
        else:
            r.fail(refuse, "Execution.claim/value", f"claim returns {show(p.value)}", p)
    r.require(seen == {"claimed", "refused"}, refuse, "Execution.claim/outcomes", f"claim only ever ends {sorted(seen)}")
    for qual in MARKS:
        kinds = set()
        for p, d in method(w, qual):
            if p.outcome != "ok":
                continue
            s = stale(p)
            touched = [e for e in d.writes if e.args and (e.args[0] == runs() or (e.name in ("DEL", "UNLINK") and runs() in e.args))]
            if touched:
                kinds.add("current")
                r.require(s is False, term, qual + "/record", f"{touched[0].name} on the record although the execution was not found to be current", p, touched[0])
            else:
                kinds.add("stale")
                r.require(s is True, term, qual + "/skip", "the outcome is not recorded although the execution is current", p)
                r.require(any(x[0] == state_channel() for x in d.published), term, qual + "/announce", "the outcome of a superseded execution is not announced", p)
                dels = [e for e in d.writes if progress() in e.args and e.name in ("DEL", "UNLINK")]
                there = present(p, progress(), "generation")
                tag_newer = less(p, is_gen, recorded_gen(progress()))
                mine = there is False or tag_newer is False
                if dels:
                    r.require(mine, term, qual + "/progress", "deletes progress that may belong to the successor", p, dels[0])
                else:
                    r.require(there is True and tag_newer is True, term, qual + "/progress-leak", "its own progress stays behind", p)
                other = [e for e in d.writes if e.args and e.args[0] in (progress(),) and e not in dels]
                r.require(not other, term, qual + "/progress-write", "writes to progress that may belong to the successor", p, other[0] if other else None)
                settled(r, ack, qual, p, d, grp)
        r.require(kinds == {"current", "stale"}, term, qual + "/outcomes", f"only {sorted(kinds)} executions are handled")
    for p, d in method(w, "Execution.is_superseded"):
        if p.outcome != "ok":
            continue
        v = norm(p.value)
        if tracked(p) is False:
            r.require(v == FALSE, own, "Execution.is_superseded/untracked", f"an untracked execution is superseded: {show(v)}", p)
            continue
        here = present(p, runs(), "generation")
        n = newer(p)
        if here is False and any(f and c[0] == "cmp" and c[1] == "<" and is_gen(c[2]) and c[3] == const(0) for c, f in facts(p)):
            continue    # generations count up from zero
        ok = (v[0] == "cmp" and v[1] == "<" and is_gen(v[2]) and (recorded_gen()(v[3]) or here is False and v[3] == const(0))) \
            or (here is False and v == FALSE) or (n is not None and v == const(n))
        r.require(ok, own, "Execution.is_superseded", f"the answer is {show(v)}", p)
    for f in w.prog.scripts().values():
        sc = script_of(w.prog, f)
        for n, texts in text_orders(sc):
            r.require(not texts, number, f"{f.qual}/{n.op}", "compares texts, of which '10' comes before '9'", at=f"{f.site} (line {n.line} of the script)")
    for rule in (bump, refuse, term, ack, own, number):
        r.expect(rule, 2)


# ------------------------------------------------------------------------ mover
def c04(w: World, r: Report) -> None:
    r.explain.append("Every path of one turn of Worker._scheduler_loop through its Lua is enumerated (no due entry, one due entry with or without parked data); "
                     "a moved task must leave the queue for the stream with every field, in one script call.")
    due = r.rule("C04.due", "only members whose score lies between 0 and the current time are considered")
    move = r.rule("C04.move", "a due task with parked data is added to the stream with every field, its parked data is deleted and its queue member removed")
    rec = r.rule("C04.record", "the moved task's record becomes queued, names the new stream entry, and the change is announced")
    keep = r.rule("C04.keep", "nothing is added to the stream, and no parked data deleted, for anything else")
    atom = r.rule("C04.atomic", "looking up and moving happen in one script call")
    again = r.rule("C04.again", "every worker looks for due tasks from before its first delivery and again at every scheduling interval until it stops, whatever becomes of one attempt")
    moved = 0
    for p, d in method(w, "Worker._scheduler_loop"):
        looks = [e for e in d.reads if e.name in ("ZRANGEBYSCORE", "ZRANGE") and e.args[0] == QUEUE]
        for e in looks:
            lo, hi = e.args[1], e.args[2]
            zero = lo[0] == "const" and str(lo[1]) in ("0", "-inf", "0.0")
            r.require(zero and is_now(hi), due, "mover/lookup", f"due tasks are those scored from {show(lo)} to {show(hi)}", p, e)
        for e in d.zremrange:
            lo, hi = e.args[1], e.args[2]
            same = any(norm(hi) == norm(x.args[2]) for x in looks)
            r.require(e.args[0] == QUEUE and same and lo[0] == "const" and str(lo[1]) in ("0", "-inf", "0.0"), keep, "mover/remove",
                      "removes queue members beyond those it looked up", p, e)
            r.require(bool(d.xadd), keep, "mover/remove-only", "queue members are removed though nothing was moved", p, e)
        if d.xadd:
            for stream, named, rest, e in d.xadd:
                moved += 1
                r.require(stream == STREAM, move, "mover/stream", f"moves to {show(stream)}", p, e)
                src = {x[1] for v in named.values() for x in walk(v) if x[0] == "field" and replies_any(x[1], "HGETALL")}
                r.require(len(src) == 1, move, "mover/data", "the stream entry is not built from the parked data", p, e)
                if len(src) != 1:
                    continue
                data = next(iter(src))
                pk = data[2][0]
                member = [x for x in walk(pk) if x[0] == "elem"]
                r.require(bool(member) and norm(pk) == norm(parked(member[0])), move, "mover/parked-key", f"reads the parked data from {show(pk)}", p, e)
                for f in ("key", "when", "function", "args", "kwargs", "attempt", "generation"):
                    v = named.get(const(f))
                    r.require(v is not None and norm(v) == ("field", data, const(f)), move, f"mover/{f}", f"field {f} of the parked task becomes {show(v) if v else 'nothing'}", p, e)
                r.require(any(x[1] == data for x in rest if len(x) > 1), move, "mover/rest", "other fields of the parked task (its trace context) are dropped", p, e)
                r.require(pk in d.cleared, move, "mover/parked", "the parked data stays behind", p, e)
                gone = bool(d.zremrange) or (member and d.zset.get(QUEUE, {}).get(member[0]) == GONE)
                r.require(gone, move, "mover/queue", "the task stays queued and will be moved again", p, e)
                keys = [key("runs:", ("field", data, const("key")))] + [key("runs:", m) for m in member]
                rk = next((k for k in keys if k in d.hash), None)
                if r.require(rk is not None, rec, "mover/record", "the run record is not updated", p, e):
                    h = d.hash[rk]
                    r.require(value_text(h.get(const("state"))) == "queued", rec, "mover/state", "the record does not become queued", p, e)
                    r.require(norm(h.get(const("stream_id"), NONE)) == norm(e.result), rec, "mover/stream_id", "the record does not name the stream entry", p, e)
                    extra = [f for f in h if f[0] != "const" or f[1] not in ("state", "stream_id", "known", "when")]
                    r.require(not extra and rk not in d.cleared and rk not in d.expire, rec, "mover/record-only", "other parts of the record change", p, e)
                    r.require(h.get(const("known")) != GONE, rec, "mover/known", "the task stops being pending", p, e)
                chans = [key("state:", ("field", data, const("key")))] + [key("state:", m) for m in member]
                pubs = [x for x in d.published if x[0] in chans]
                f = announced(pubs[0][1]) if len(pubs) == 1 else None
                if r.require(f is not None, rec, "mover/announce", "the change to queued is not announced, or not as JSON", p, e):
                    r.require(f.get("type") == const("state") and value_text(f.get("state")) == "queued", rec, "mover/announce-state", "the change to queued is announced as another", p, e)
                    k = f.get("key", NONE)
                    r.require(escaped(k) in (("field", data, const("key")), *member) or k[0] == "json", rec, "mover/announce-key", "the key is announced without being escaped: one with a quote or backslash is no JSON", p, e)
                us = units([*looks, *d.writes, *[x for x in d.reads if x.name == "HGETALL"]])
                r.require(len(us) == 1 and "script" in next(iter(us)), atom, "mover", "moving a task is not one script call", p, e)
        else:
            others = [e for e in d.writes if e.name not in ("ZREMRANGEBYSCORE",)]
            r.require(not others, keep, "mover/nothing", f"{others[0].name if others else ''} though no task was moved", p, others[0] if others else None)
    r.require(moved > 0, move, "mover", "no path moves a due task to the stream")
    watching(w, r, again)
    for rule in (due, move, rec, keep, atom, again):
        r.expect(rule)


def watching(w: World, r: Report, rule: str) -> None:
    """The loop that moves due tasks, and its start."""
    from .loop import WORKER, loop_paths, runs_spawned, spawned_run

    where = "Worker._scheduler_loop"

    def fails(e: Event, trace: list[Event]) -> list[str]:
        return ["redis.exceptions.ConnectionError", "redis.exceptions.ResponseError", "OSError"] if e.kind in ("redis", "script:before") and not any(x.kind == "throw" for x in trace) else []

    def enough(e: Event, trace: list[Event]) -> bool:
        return e.kind == "redis" and sum(1 for x in trace if looked(x)) >= 2
    rounds, failed = 0, 0
    for p in w.paths(where + " (repeated)", lambda it: w.call(it, w.worker(it), where), inline=lambda f: f.name != "_wait_for_event", whiles=3, loop=1, raises=fails, faults=1, prune=enough, budget=20000):
        if any(c[0] == "cmp" and c[1] == "==" and NONE in c[2:4] and "session" in repr(c) and v for c, v in facts(p)):
            continue
        if p.outcome == "raise" and not (p.value is not None and "LuaError" in repr(p.value)):
            r.require(False, rule, where + "/fails", f"a failed attempt ends it ({show(p.value)[:60] if p.value else ''})", p)
            continue
        looks = [i for i, e in enumerate(p.trace) if looked(e)]
        rounds = max(rounds, len(looks))
        stops = p.outcome == "cut" or any(v and c[0] == "truth" and ("_wait_for_event" in repr(c) or "is_set" in repr(c)) for c, v in facts(p))
        r.require(stops, rule, where + "/until-stopped", "due tasks are no longer looked for although the worker is not stopping", p)
        waits = [i for i, e in enumerate(p.trace) if e.kind == "call" and last_of(e) in ("_wait_for_event", "sleep")]
        for i in waits:
            e = p.trace[i]
            a = [norm(x) for x in [*e.args, *(v for _, v in e.kwargs)]]
            r.require(any(mentions(x, ("attr", WORKER, "scheduling_resolution")) for x in a), rule, where + "/interval", f"waits for {show(a[-1])[:60]} between attempts", p, e)
        for i, j in zip(looks, looks[1:]):
            r.require(any(i < x < j for x in waits), rule, where + "/spins", "looks again without waiting", p)
        failed += any(e.kind == "throw" for e in p.trace) and bool(waits)
    r.require(rounds >= 2, rule, where + "/repeats", "due tasks are looked for only once")
    r.require(failed > 0, rule, where + "/goes-on", "a failed attempt is the last")
    for p in loop_paths(w, "one delivery read", None, lambda e, t: spawned_run(e) and bool(runs_spawned(t))):
        reads = [i for i, e in enumerate(p.trace) if e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM")]
        ours = [i for i, e in enumerate(p.trace) if e.kind == "spawn" and e.name.endswith("._scheduler_loop")]
        if reads:
            r.require(len(ours) == 1 and ours[0] < reads[0], rule, "Worker._worker_loop/starts", f"{len(ours)} schedulers are started before the first delivery is taken", p)


def looked(e: Event) -> bool:
    return e.kind == "redis" and e.name in ("ZRANGEBYSCORE", "ZRANGE", "ZCARD", "ZCOUNT") and bool(e.args) and e.args[0] == QUEUE and e.name != "ZCARD"


def last_of(e: Event) -> str:
    return e.name.split("(")[0].split(".")[-1]


def announced(t: Term) -> dict[str, Term] | None:
    """The fields of a JSON text put together from pieces; None when it is not
    one whatever the pieces are."""
    import json

    t = norm(t)
    got = payload(t)
    if got is not None:
        return got
    parts = t[1] if t[0] == "cat" else (t,)
    text, holes = "", {}
    for x in parts:
        if x[0] == "const":
            text += str(x[1])
        else:
            holes[f"\x7f{len(holes)}\x7f"] = x
            text += list(holes)[-1]
    try:
        d = json.loads(text)
    except ValueError:
        return None
    return {k: holes.get(v, const(v)) for k, v in d.items()} if isinstance(d, dict) else None


def escaped(t: Term) -> Term | None:
    """What a term is the escaping of, for a JSON string."""
    t = norm(t)
    subs: list[tuple[Any, Any]] = []
    while t[0] == "call" and str(t[1]).split(".")[-1] == "gsub" and len(t[2]) >= 3:
        subs.append((t[2][1], t[2][2]))
        t = norm(t[2][0])
    subs.reverse()
    plain = [(a[1], b[1]) for a, b in subs if a[0] == b[0] == "const"]
    if len(plain) != len(subs) or not plain or plain[0][0] not in ("\\", "\\\\", "%\\"):
        return None
    return t if any(a == '"' and b == '\\"' for a, b in plain[1:]) and plain[0][1] in ("\\\\", "\\\\\\\\") else None


def is_now(t: Term) -> bool:
    return any(x[0] == "now" for x in walk(norm(t)))


def replies_any(t: Term, cmd: str) -> bool:
    return t[0] == "reply" and t[1] == cmd


# ---------------------------------------------------------------------- cancel
TERMINAL = ("completed", "failed", "cancelled")


def terminal_state(p: Path) -> bool | None:
    got = [state_is(p, runs(), s) for s in TERMINAL]
    if any(got):
        return True
    if all(g is False for g in got):
        return False
    return None


def c05(w: World, r: Report) -> None:
    r.explain.append("Every path of Docket.cancel through its Lua is enumerated and folded into its effect on the keyspace.")
    home = r.rule("C05.home", "cancel deletes the stream entry (recorded or legacy), the queue member and the parked data, in one script call")
    mark = r.rule("C05.markers", "cancel clears the pending markers so that the key may be scheduled again")
    state = r.rule("C05.state", "the record becomes cancelled unless it is already terminal")
    told = r.rule("C05.told", "the cancellation of a pending task is announced to its subscribers; that of a finished one is not")
    sig = r.rule("C05.signal", "workers are told to cancel a running task: the key is published on its cancellation channel, after the record changed")
    for p, d in method(w, "Docket.cancel"):
        if p.outcome != "ok":
            continue
        where = "Docket.cancel"
        new, legacy = present(p, runs(), "stream_id"), present(p, stream_id_key())
        dels = [norm(x[1]) for x in d.xdel if x[0] == STREAM]
        if new:
            r.require(any(replies(x, ("HGET",), runs(), const("stream_id")) or hgetall_field(x, runs(), "stream_id") for x in dels), home, where + "/stream", "the stream entry stays", p)
        elif legacy:
            r.require(any(replies(x, ("GET",), stream_id_key()) for x in dels), home, where + "/stream-legacy", "the stream entry (legacy location) stays", p)
        else:
            r.require(new is False and legacy is False, home, where + "/lookup", "the stream entry is not looked up", p)
            r.require(not dels, home, where + "/other", "deletes an unrelated stream entry", p)
        r.require(d.zset.get(QUEUE, {}).get(KEY) == GONE, home, where + "/queue", "the queue member stays", p)
        r.require(parked() in d.cleared, home, where + "/parked", "the parked data stays", p)
        r.require(progress() in d.cleared, mark, where + "/progress", "the task's progress stays behind", p)
        for f in ("known", "stream_id"):
            r.require(d.field(runs(), f) == GONE, mark, f"{where}/{f}", f"the marker {f} stays", p)
        for k in (known_key(), stream_id_key()):
            r.require(k in d.cleared, mark, where + "/legacy", "a legacy marker stays", p)
        t = terminal_state(p)
        st = d.field(runs(), "state")
        deleted_record = runs() in d.cleared
        sets = [e for e in d.writes if e.name in ("HSET", "HMSET") and e.args[0] == runs() and const("state") in e.args]
        if sets:
            r.require(t is False, state, where + "/overwrite", "the state is overwritten without having been found non-terminal", p, sets[0])
            r.require(const("cancelled") in sets[-1].args and const("completed_at") in sets[-1].args, state, where + "/value", "the state recorded is not cancelled with its time", p, sets[-1])
        else:
            r.require(t is True, state, where + "/missing", "a task that is not finished is not recorded as cancelled", p)
        if deleted_record:
            ttl = established(p, lambda x: mentions(x, ("attr", DOCKET, "execution_ttl")))
            r.require(ttl is False, state, where + "/delete", "the record is deleted though records are kept", p)
        else:
            r.require(runs() in d.expire and mentions(d.expire[runs()][0], ("attr", DOCKET, "execution_ttl")), state, where + "/ttl", "the record of a cancelled task neither expires as those of finished tasks do nor is deleted", p)
        pubs = [x for x in d.published if x[0] == state_channel()]
        there = present(p, runs(), "state")
        running = state_is(p, runs(), "running")
        if pubs:
            r.require(t is False, told, where + "/finished", "the end of a finished task is announced again", p, pubs[0][2])
            f = payload(pubs[0][1]) or {}
            r.require(value_text(f.get("state")) == "cancelled" and f.get("key") == KEY and value_text(f.get("type")) == "state", told, where + "/payload", f"announces {show(pubs[0][1])}", p, pubs[0][2])
        else:
            r.require(t is True or running is True or there is False, told, where + "/pending", "the cancellation of a pending task is not announced", p)
        core = [e for e in d.writes if e.name in ("XDEL", "ZREM", "HDEL") or (e.name == "HSET") or (e.name == "DEL" and parked() in e.args)]
        us = units(core)
        r.require(len(us) == 1 and "script" in next(iter(us)), home, where + "/atomic", "the effects of a cancellation are spread over several atomic units", p)
        cs = [x for x in d.published if x[0] == cancel_channel()]
        r.require(bool(cs) and norm(cs[0][1]) == KEY, sig, where, "no cancellation signal with the key is published on the key's channel", p)
        if cs and core:
            r.require(p.trace.index(cs[0][2]) > p.trace.index(core[-1]), sig, where + "/order", "the signal precedes the record", p)
    for rule in (home, mark, state, told, sig):
        r.expect(rule, 4)


# ------------------------------------------------------------- the run record
def c06(w: World, r: Report) -> None:
    r.explain.append("Every path of Execution.claim and mark_as_completed/failed/cancelled through their Lua is enumerated and folded into its effect on the run record, "
                     "the progress record and the markers.")
    run = r.rule("C06.running", "a successful claim records running, the worker and the start, drops the pending markers, and leaves the message unacknowledged")
    prog = r.rule("C06.progress", "a successful claim starts progress afresh (0 of 100, tagged with the generation, no message)")
    done = r.rule("C06.finished", "finishing records the terminal state, the time, and the error and result location when given")
    ttl = r.rule("C06.ttl", "the finished record expires after the configured time, or is deleted at once when that is zero")
    ack = r.rule("C06.ack", "the message is acknowledged and deleted in the same script call that records the outcome, and progress is dropped")
    local = r.rule("C06.local", "local state follows the record")
    told = r.rule("C06.told", "each transition is announced in the same script call with key, state and time")
    grp = group(w)
    n = 0
    for p, d in method(w, "Execution.claim"):
        if p.outcome != "ok" or norm(p.value) != TRUE:
            continue
        n += 1
        where = "Execution.claim"
        worker = ("sym", "worker", "str")
        r.require(value_text(d.field(runs(), "state")) == "running", run, where + "/state", "the record does not become running", p)
        r.require(d.field(runs(), "worker") not in (None, GONE) and mentions(d.field(runs(), "worker"), worker), run, where + "/worker", "the record does not name the worker", p)
        r.require(d.field(runs(), "started_at") not in (None, GONE) and is_now(d.field(runs(), "started_at")), run, where + "/started_at", "the record does not hold the start", p)
        for f in ("known", "stream_id"):
            r.require(d.field(runs(), f) == GONE, run, f"{where}/{f}", f"the pending marker {f} stays after the claim", p)
        r.require(known_key() in d.cleared and stream_id_key() in d.cleared, run, where + "/legacy", "legacy pending markers stay after the claim", p)
        r.require(not d.xack and not d.xdel, run, where + "/no-ack", "the message is settled before the task ran", p)
        r.require(runs() not in d.cleared and runs() not in d.expire and d.field(runs(), "generation") is None, run, where + "/keeps", "the claim drops, expires or re-generations the record", p)
        h = d.hash.get(progress(), {})
        r.require(value_text(h.get(const("current"))) == "0" and value_text(h.get(const("total"))) == "100", prog, where + "/fresh", "progress does not start at 0 of 100", p)
        r.require(norm(h.get(const("generation"), NONE)) == GEN, prog, where + "/tag", "progress is not tagged with the generation", p)
        for f in ("message", "updated_at"):
            r.require(d.field(progress(), f) == GONE, prog, f"{where}/{f}", f"the previous run's progress {f} stays", p)
        pubs = [x for x in d.published if x[0] == state_channel()]
        f = (payload(pubs[0][1]) or {}) if pubs else {}
        r.require(len(pubs) == 1 and f.get("key") == KEY and value_text(f.get("state")) == "running" and "worker" in f and "started_at" in f and value_text(f.get("type")) == "state",
                  told, where, "running is not announced with key, worker and start", p)
        r.require(len(units(d.writes)) == 1, told, where + "/atomic", "the claim is not one script call", p)
        r.require(enum_is(last_assign(p, "state"), "ExecutionState", "RUNNING"), local, where, "the claimed execution's own state is not running", p)
    r.require(n > 0, run, "Execution.claim", "no claim ever succeeds")
    for qual, text in MARKS.items():
        n = 0
        for p, d in method(w, qual):
            if p.outcome != "ok" or stale(p) is True:
                continue
            n += 1
            sets = [e for e in d.writes if e.name in ("HSET", "HMSET") and e.args[0] == runs()]
            fields: dict[Term, Term] = {}
            for e in sets:
                a = list(e.args[1:])
                fields.update(zip(a[0::2], a[1::2]))
            r.require(value_text(fields.get(const("state"))) == text, done, qual + "/state", f"the record becomes {show(fields.get(const('state'), NONE))}", p)
            r.require(is_now(fields.get(const("completed_at"), NONE)), done, qual + "/completed_at", "the time of completion is not recorded", p)
            err, res = ("sym", "error", None), ("sym", "result_key", None)
            for nm in ("error", "result_key"):
                given = given_arg(p, nm)
                v = fields.get(const(nm))
                if given:
                    r.require(v is not None and any(x[0] == "sym" and x[1] == nm for x in walk(norm(v))), done, f"{qual}/{nm}", f"the {nm} given is not recorded", p)
                elif given is None and nm in arguments_of(w, qual):
                    r.require(v is not None and any(x[0] == "sym" and x[1] == nm for x in walk(norm(v))), done, f"{qual}/{nm}", f"the {nm} is neither recorded nor asked for", p)
                elif given is False:
                    r.require(v is None, done, f"{qual}/no-{nm}", f"a {nm} is recorded though none was given", p)
            kept = established(p, lambda x: mentions(x, ("attr", DOCKET, "execution_ttl")))
            if runs() in d.expire:
                r.require(mentions(d.expire[runs()][0], ("attr", DOCKET, "execution_ttl")), ttl, qual + "/expire", f"the record expires after {show(d.expire[runs()][0])}", p)
                r.require(runs() not in d.cleared, ttl, qual + "/kept", "the record is deleted though it should be kept", p)
            else:
                r.require(runs() in d.cleared, ttl, qual + "/forever", "the finished record neither expires nor is deleted", p)
                r.require(kept is False or zero_ttl(p), ttl, qual + "/dropped", "the finished record is deleted though records are kept", p)
            r.require(progress() in d.cleared, ack, qual + "/progress", "progress stays behind", p)
            settled(r, ack, qual, p, d, grp)
            pubs = [x for x in d.published if x[0] == state_channel()]
            f = (payload(pubs[0][1]) or {}) if pubs else {}
            r.require(len(pubs) == 1 and f.get("key") == KEY and value_text(f.get("state")) == text and "completed_at" in f and value_text(f.get("type")) == "state", told, qual,
                      "the outcome is not announced with key, state and time", p)
            if given_arg(p, "result_key"):
                r.require(any(x[0] == "sym" and x[1] == "result_key" for x in walk(norm(last_assign(p, "result_key") or NONE))), local, qual + "/result_key", "the execution itself does not name its result", p)
            if given_arg(p, "error"):
                r.require("error" in f, told, qual + "/error", "the announcement lacks the error", p)
            r.require(len(units(d.writes)) == 1 and "script" in next(iter(units(d.writes)), ""), ack, qual + "/atomic", "recording and acknowledging are not one script call", p)
            st = last_assign(p, "state")
            r.require(enum_is(st, "ExecutionState", text.upper()), local, qual, "the execution's own state does not follow", p)
        r.require(n > 0, done, qual, "no outcome is ever recorded")
    for rule in (run, prog, done, ttl, ack, local, told):
        r.expect(rule, 2)


def arguments_of(w: World, qual: str) -> set[str]:
    a = w.prog.func(qual).node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def given_arg(p: Path, name: str) -> bool | None:
    """Whether an optional argument was found to be given."""
    for c, v in facts(p):
        if c[0] == "truth" and c[1][0] == "sym" and c[1][1] == name:
            return v
        if c[0] == "cmp" and c[1] == "==" and c[2][0] == "sym" and c[2][1] == name and c[3] == NONE:
            return not v
    return None


def zero_ttl(p: Path) -> bool:
    return less(p, lambda t: t == const(0), lambda t: mentions(t, ("attr", DOCKET, "execution_ttl"))) is False
