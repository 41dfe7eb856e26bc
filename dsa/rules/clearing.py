"""Clearing a docket."""
from __future__ import annotations

from ..delta import Delta, GONE
from ..model import DOCKET, Path, World
from ..report import Report
from ..terms import NONE, Term, const, norm, show
from .common import QUEUE, STREAM, facts, known_key, linear, parked, runs, same_sum, state_is, stream_id_key, units
from .snapshot import rounds
from .wire import undo

TTL: Term = ("attr", DOCKET, "execution_ttl")


def key_of(p: Path, msg: Term) -> tuple[Term, bool]:
    """A message's key, and whether it has one."""
    k = norm(("index", msg, const("key")))
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "in" and norm(c[2]) in (const("key"), const(b"key")) and norm(c[3]) == msg:
            return k, bool(v)
        if c[0] == "cmp" and c[1] == "==" and NONE in (norm(c[2]), norm(c[3])) and norm(("call", "get", (msg, const("key")))) in (norm(c[2]), norm(c[3])):
            return k, not v
    return k, True


def c39(w: World, r: Report) -> None:
    r.explain.append("Docket.clear is enumerated over an unknown stream and schedule of up to two entries each, running or not; what one transaction leaves behind is compared, key by key, with what a cleared and an untouched task consist of.")
    gone = r.rule("C39.gone", "every scheduled task and every message of the stream that is not of a running task is removed, with its parked message")
    again = r.rule("C39.again", "the keys cleared can be scheduled again")
    record = r.rule("C39.record", "the records of cleared tasks expire after the time records are kept, or are deleted if none are kept")
    left = r.rule("C39.left", "running tasks keep their message and record, and nothing but the cleared tasks is touched")
    counted = r.rule("C39.count", "the number returned is the number of tasks cleared")
    several = 0
    for p in w.paths("Docket.clear", lambda it: w.call(it, DOCKET, "Docket.clear", []), inline=lambda f: f.name not in ("labels",), loop=2, budget=20000, summarise=lambda f: False):
        where = "Docket.clear"
        if not r.require(p.outcome == "ok", gone, where + "/fails", "raises", p):
            continue
        d = Delta(p.trace)
        xr = [e for e in d.reads if e.name == "XRANGE" and e.args[0] == STREAM]
        zr = [e for e in d.reads if e.name in ("ZRANGE", "ZRANGEBYSCORE") and e.args[0] == QUEUE]
        empty = any(c[0] == "cmp" and c[1] in ("<", "==") and any(norm(x)[:2] == ("reply", "XLEN") and norm(x)[2] == (STREAM,) for x in c[2:4]) and (v if c[1] == "==" else not v) for c, v in facts(p)) or \
            any(c[0] == "truth" and norm(c[1])[:2] == ("reply", "XLEN") and not v for c, v in facts(p))
        r.require(len(xr) == 1 or not xr and empty, gone, where + "/stream", "the messages of the stream are not read", p)
        r.require(len(zr) == 1, gone, where + "/schedule", "the schedule is not read", p)
        for e in (*xr, *zr):
            lo, hi = (norm(a) for a in e.args[1:3])
            r.require((lo, hi) in ((const("-"), const("+")), (const(0), const(-1)), (const("-inf"), const("+inf"))) and len(e.args) == 3, gone, where + "/all", f"reads only part of {show(e.args[0])[-20:]}", p, e)
        tasks: list[Term] = []
        ids: list[Term] = []
        busy: list[tuple[Term, Term]] = []
        unknown = False
        for e in xr:
            rep = norm(e.result)
            for i in range(rounds(p.trace, rep)):
                el: Term = ("elem", rep, i)
                k, has = key_of(p, norm(("index", el, const(1))))
                mid = norm(("index", el, const(0)))
                run = next((x for x in (state_is(p, runs(kk), "running") for kk in spellings(k)) if x is not None), None) if has else False
                unknown |= run is None
                if run is None:
                    r.require(False, left, where + "/known", "a message is removed or kept without knowing whether its task is running", p)
                elif run:
                    busy.append((mid, k))
                else:
                    ids.append(mid)
                    if has:
                        tasks.append(k)
        parked_of: list[Term] = []
        for e in zr:
            rep = norm(e.result)
            parked_of += [("elem", rep, i) for i in range(rounds(p.trace, rep))]
        if unknown:
            continue
        deleted = {norm(m) for k, m, _ in d.xdel if k == STREAM}
        several = max(several, len(ids) + len(parked_of))
        trims = [e for e in d.writes if e.name == "XTRIM"]
        r.require(not trims and STREAM not in d.cleared, left, where + "/trimmed", "the whole stream is emptied, with the messages of running tasks or the consumer group", p, trims[0] if trims else None)
        for m in ids:
            r.require(m in deleted, gone, where + "/message", "a waiting task stays in the stream", p)
        r.require(QUEUE in d.cleared or all(d.zset.get(QUEUE, {}).get(m) == GONE for m in parked_of), gone, where + "/queue", "scheduled tasks stay in the schedule", p)
        for m in parked_of:
            r.require(parked(m) in d.cleared, gone, where + "/parked", "a scheduled task's message stays parked", p)
        for m, k in busy:
            r.require(m not in deleted, left, where + "/running", "a running task's message is removed", p)
        mine = [*tasks, *parked_of]
        names = {norm(runs(kk)): k for k in mine for kk in spellings(k)}
        for k in mine:
            rk = next((x for kk in spellings(k) for x in (runs(kk),) if x in d.cleared or x in d.hash or x in d.expire), runs(k))
            kept = rk not in d.cleared
            h = d.hash.get(rk, {})
            r.require(not kept or h.get(const("known")) == GONE, again, where + "/known", "a cleared key still counts as scheduled", p)
            ttl = d.expire.get(rk)
            positive = ttl_kept(p)
            if kept:
                r.require(ttl is not None and is_ttl(ttl[0]), record, where + "/expiry", f"a cleared task's record {'is kept for ' + show(ttl[0])[:60] if ttl else 'never expires'}", p)
                r.require(positive is not False, record, where + "/deleted", "a cleared task's record stays although none are kept", p)
            else:
                r.require(positive is not True, record, where + "/kept", "a cleared task's record is deleted although records are kept", p)
        allowed = {QUEUE, *names, *(parked(x) for x in parked_of), *(f(kk) for f in (known_key, stream_id_key) for k in mine for kk in spellings(k))}
        if empty or not xr or True:
            touched = {norm(e.args[0]) if e.args else NONE for e in d.writes if e.name not in ("XDEL", "XTRIM")} | {norm(k) for k, _, _ in d.xdel if k != STREAM}
            other = [t for t in d.cleared | touched if norm(t) not in allowed]
            r.require(not other, left, where + "/others", f"touches {', '.join(show(t)[:60] for t in other)}", p)
            extra = deleted - set(ids) - {m for m, _ in busy}
            r.require(not extra, left, where + "/others-messages", "removes a message that was not read", p)
        sent = [e for e in d.writes]
        r.require(len(units(sent)) <= 1, gone, where + "/atomic", "the docket is cleared in several steps", p)
        n = linear(p.value) if p.value is not None else {}
        size = {}
        for t, v in n.items():
            rep = norm(t) if t is not None else None
            if rep is not None and (rep[:2] == ("reply", "ZCARD") and rep[2] == (QUEUE,) or rep[0] == "len" and zr and norm(rep[1]) == norm(zr[0].result)):
                rep = QUEUE
            size[rep] = size.get(rep, 0) + v
        want = {QUEUE: 1.0, **({None: float(len(ids))} if ids else {})}
        r.require(same_sum(size, want), counted, where, f"returns {show(p.value)[:100] if p.value else None} for {len(ids)} messages and the schedule", p)
    for rule, k in ((gone, 20), (again, 8), (record, 8), (left, 8), (counted, 8)):
        r.expect(rule, k)
    r.require(several >= 3, gone, "Docket.clear/several", "no path clears several tasks")


def spellings(k: Term) -> list[Term]:
    return [k, ("text", k), norm(("call", "decode", (k,)))]


def ttl_kept(p: Path) -> bool | None:
    for c, v in facts(p):
        if c == ("truth", TTL):
            return bool(v)
        if c[0] == "cmp" and any(t is not None and TTL in (t,) for x in c[2:4] for t in linear(x)):
            a, b = linear(c[2]), linear(c[3])
            if c[1] == "<" and b.get(TTL, 0) > 0 and set(a) <= {None}:
                return bool(v)
            if c[1] == "<" and a.get(TTL, 0) > 0:
                return not v
            if c[1] == "==":
                return not v
    return None


def is_ttl(t: Term) -> bool:
    t = norm(undo(t))
    while t[0] == "call" and str(t[1]).split(".")[-1] in ("int", "total_seconds", "ceil", "max") and t[2]:
        t = norm(t[2][0])
    return t == TTL
