"""What a running task reports: progress, and what is read back of it."""
from __future__ import annotations

from typing import Any

from ..delta import GONE, Delta
from ..model import Path, World
from ..paths import Event
from ..report import Report
from ..terms import NONE, Term, const, norm, show, walk
from .common import KEY, is_positive, linear, payload, progress, replies, same_sum
from .gates import ambient
from .handlers import fresh

TOTAL: Term = ("sym", "total", "int")
AMOUNT: Term = ("sym", "amount", "int")
TEXT: Term = ("sym", "message", "str|None")
OPS = {"set_total": TOTAL, "increment": AMOUNT, "set_message": TEXT}
OLD: dict[str, Term] = {a: ("sym", f"old {a}", None) for a in ("current", "total", "message", "updated_at")}
FIELD = {"set_total": "total", "increment": "current", "set_message": "message"}


def plain(t: Term | None) -> Term | None:
    """A value without the text it is written as."""
    if t is None:
        return None
    t = norm(t)
    while True:
        if t[0] == "call" and str(t[1]).split(".")[-1] in ("isoformat", "str", "fromisoformat", "int", "decode", "ExecutionState") and len(t[2]) == 1:
            t = norm(t[2][0])
        elif t[0] == "or" and len(t[1]) == 2 and norm(t[1][1]) == const(0):   # of a count
            t = norm(t[1][0])
        elif t[0] in ("text", "bytes") and len(t) == 2:
            t = norm(t[1])
        else:
            return t


def absent(p: Path, t: Term) -> bool:
    """Whether the path found a value to be None."""
    return p.fact(("cmp", "==", norm(t), NONE)) is True or p.fact(("cmp", "==", NONE, norm(t))) is True or norm(t) != TEXT and p.fact(("truth", norm(t))) is False


def operations(w: World, names: tuple[str, ...], dependency: bool) -> list[Path]:
    """Paths of reporting progress: through the Progress of a running task, or
    through its execution's record; before each operation a mark is left."""
    def body(it: Any) -> Term:
        e = w.execution(it)
        it.heap[("ambient", "execution")] = e
        fr = w.frame("docket.execution")
        if dependency:
            o = w.make(it, "Progress")
            it.emit(Event("mark", "start", (o,)))
            pr = w.call(it, o, "Progress.__aenter__")
            it.emit(Event("mark", "entered", (it.freeze(pr), o)))
        else:
            pr = it.get_attr(e, "progress", fr, None)
        for n in names:
            it.emit(Event("mark", n, ()))
            w.call(it, pr, ("Progress." if dependency else "ExecutionProgress.") + n, [OPS[n]])
        it.emit(Event("mark", "end", ()))
        return NONE
    return w.paths(f"{'Progress' if dependency else 'ExecutionProgress'}.{'+'.join(names)}", body, inline=lambda f: True, hooks=ambient(w))


def steps(p: Path) -> dict[str, list[Event]]:
    out: dict[str, list[Event]] = {}
    at = "before"
    for e in p.trace:
        if e.kind == "mark" and e.name in (*OPS, "end"):
            at = e.name
        out.setdefault(at, []).append(e)
    return out


def c27(w: World, r: Report) -> None:
    r.explain.append("Every path of Progress.set_total, increment and set_message (alone and one after another, both through the dependency of a running task and through its execution) is folded into the "
                     "difference it makes to the progress hash and the events it publishes; ExecutionProgress.sync is then required to read each field back as it was written.")
    own = r.rule("C27.own", "each run gets a Progress of its own, bound to its own execution; the one in the signature stays as it is")
    bounds = r.rule("C27.bounds", "a total or an increment below one is refused with ValueError and changes nothing; others are accepted")
    store = r.rule("C27.store", "an operation stores its own field (an absent message removes it) and the time of the update, atomically, in its own task's hash, and touches nothing else")
    count = r.rule("C27.count", "an increment adds its amount to the stored value in one command, never by reading and writing back")
    event = r.rule("C27.event", "an operation publishes one progress event on the task's own channel, not before it is stored, carrying the new value, the other values as last reported and the time stored")
    local = r.rule("C27.local", "an operation leaves the values it stored on the object")
    sync = r.rule("C27.sync", "sync reads the hash of the task and takes each field from it; a missing message or time reads as None")
    for dep in (True, False):
        for a in OPS:
            for b in (None, *OPS):
                if b == a and a != "increment":
                    continue
                names = (a,) if b is None else (a, b)
                if names == ("increment", "increment"):
                    continue
                operation(w, r, names, dep, own, bounds, store, count, event, local)
    reading(w, r, sync)
    for x in (own, bounds, store, count, event, local, sync):
        r.expect(x)


def operation(w: World, r: Report, names: tuple[str, ...], dep: bool, own: str, bounds: str, store: str, count: str, event: str, local: str) -> None:
    cls = "Progress" if dep else "ExecutionProgress"
    for p in operations(w, names, dep):
        if dep:
            m = next((e for e in p.trace if e.kind == "mark" and e.name == "entered"), None)
            if m is None:
                r.fail(own, "Progress.__aenter__", "entering a task's Progress fails", p)
                continue
            if len(names) == 1:
                fresh(r, own, "Progress", p, m.args[1], m.args[0])
        s = steps(p)
        told: dict[str, Term] = {}
        unknown: set[str] = set()
        for i, n in enumerate(names):
            if n not in s:
                break
            evs, x = s[n], OPS[n]
            where = f"{cls}.{n}"
            d = Delta(evs)
            finished = i + 1 < len(names) and names[i + 1] in s or "end" in s
            if n != "set_message":
                low = small(p, x)
                if not finished:
                    r.require(p.outcome == "raise" and norm(p.value)[0] == "exc" and str(norm(p.value)[1]).endswith("ValueError"), bounds, where, f"fails with {show(p.value)[:60]}", p)
                    r.require(low is True, bounds, where + "/refused", "refuses a value of one or more", p)
                    r.require(not d.writes, bounds, where + "/refused-writes", "a refused value still changes something", p, d.writes[0] if d.writes else None)
                    break
                r.require(is_positive(p, x) or low is False, bounds, where + "/accepted", "accepts a value below one", p)
            elif not finished:
                r.fail(store, where, f"fails with {show(p.value)[:60]}", p)
                break
            k = progress()
            hash_ = d.hash.get(k, {})
            stored = {f[1]: v for f, v in hash_.items() if f[0] == "const"}
            gone = n == "set_message" and (absent(p, x))
            field = FIELD[n]
            other = [e for e in d.writes if e.args[:1] != (k,)] + d.other
            r.require(not other, store, where + "/elsewhere", f"writes {show(other[0].args[0])[:60] if other and other[0].args else ''} too", p, other[0] if other else None)
            r.require(k not in d.cleared and not d.rest.get(k) and set(stored) <= {field, "updated_at"}, store, where + "/others", f"changes {sorted(map(str, set(stored) - {field, 'updated_at'}))} too", p)
            v = stored.get(field)
            if n == "increment":
                ok = v is not None and replies(v, ("HINCRBY",), k, const("current")) and norm(v[2][2]) == x
                r.require(ok, count, where, f"stores {show(v)[:60] if v else None}", p)
                ups = [e for e in d.writes if e.name == "HINCRBY"]
                r.require(len(ups) == 1, count, where + "/once", f"adds {len(ups)} times", p)
            elif gone:
                r.require(v == GONE, store, where + "/cleared", "an absent message does not remove the last one", p)
            else:
                r.require(v is not None and v != GONE and plain(v) == x, store, where, f"{field} is stored as {show(v)[:60] if v else None}", p)
            t = stored.get("updated_at")
            r.require(t is not None and plain(t)[0] == "now", store, where + "/time", "the time of the update is not stored", p)
            ws = [e for e in d.writes if e.name != "PUBLISH"]
            r.require(len({repr(e.unit) for e in ws}) <= 1 and (len(ws) < 2 or ws[0].unit is not None and not broken(ws[0].unit)), store, where + "/atomic", "the value and the time of the update are not stored as one", p, ws[0] if ws else None)
            # announced
            if len(d.published) != 1:
                r.fail(event, where, f"publishes {len(d.published)} events", p)
            for ch, msg, e in d.published:
                f = payload(msg) or {}
                r.require(ch == k, event, where + "/channel", f"published on {show(ch)[:60]}", p, e)
                r.require(f.get("type") == const("progress") and f.get("key") == KEY, event, where + "/kind", "not a progress event of the task", p, e)
                r.require(set(f) == {"type", "key", "current", "total", "message", "updated_at"}, event, where + "/fields", f"has fields {sorted(f)}", p, e)
                r.require(not ws or evs.index(e) > max(evs.index(x) for x in ws if x.name != "EXPIRE"), event, where + "/early", "announced before it is stored", p, e)
                now = {**told, field: NONE if gone else v if n == "increment" else x}
                for g, y in now.items():
                    got = f.get(g)
                    ok = got is not None and (plain(got) == plain(y) or g == "current" and got == const(0) and absent(p, y) or y == NONE and got in (NONE, TEXT) and (got == NONE or absent(p, TEXT)) or g == "message" and got == NONE and absent(p, TEXT))
                    r.require(ok, event, f"{where}/{g}", f"announces {g} as {show(got)[:60] if got else None}, not {show(y)[:60]}", p, e)
                r.require(f.get("updated_at") is not None and t is not None and plain(f["updated_at"]) == plain(t), event, where + "/updated_at", "announces another time than it stores", p, e)
            told[field] = NONE if gone else v if n == "increment" and v is not None else x
            mine = [e for e in evs if e.kind == "assign" and e.name == field]
            ok = bool(mine) and (plain(mine[-1].args[1]) == plain(told[field]) or gone and mine[-1].args[1] in (NONE, TEXT))
            r.require(ok, local, where, f"{field} is left as {show(mine[-1].args[1])[:60] if mine else 'it was'}", p, mine[-1] if mine else None)


def broken(unit: Term) -> bool:
    """A pipeline that is no transaction."""
    return unit[0] == "redis" and unit[1] == "pipeline" and unit[3] == ("const", False, "bool")


def small(p: Path, t: Term) -> bool | None:
    """Whether the path found a whole number to be below one."""
    d = linear(t)
    for c, v in p.run.facts.items():
        if c[0] == "cmp" and c[1] == "<":
            a, b = linear(c[2]), linear(c[3])
            if same_sum(a, d) and set(b) <= {None}:      # t < b
                if v and b.get(None, 0) <= 1:
                    return True
                if not v and b.get(None, 0) >= 1:
                    return False
            if same_sum(b, d) and set(a) <= {None}:      # a < t
                if v and a.get(None, 0) >= 0:
                    return False
                if not v and a.get(None, 0) <= 0:
                    return True
    return None


def reading(w: World, r: Report, rule: str) -> None:
    def body(it: Any) -> Term:
        e = w.execution(it)
        pr = it.get_attr(e, "progress", w.frame("docket.execution"), None)
        for a, t in OLD.items():
            it.heap[(norm(pr), a)] = t
        w.call(it, pr, "ExecutionProgress.sync")
        return ("tuple", tuple(norm(it.freeze(it.get_attr(pr, a, w.frame("docket.execution"), None))) for a in OLD))
    read_back(r, rule, "ExecutionProgress.sync", w.paths("ExecutionProgress.sync", body, inline=lambda f: True), progress(), tuple(OLD), ("total",), ("current", "total"))


def read_back(r: Report, rule: str, where: str, paths: list[Path], k: Term, names: tuple[str, ...], kept: tuple[str, ...], defaulted: tuple[str, ...]) -> None:
    """Each attribute (in the order returned) is read from the hash field of its name: it is None when nothing is
    stored, except for those ``kept``, and when its field is missing, except for those ``defaulted``."""
    some: set[str] = set()
    for p in paths:
        d = Delta(p.trace)
        r.require(not d.writes, rule, where + "/writes", "reading changes something", p, d.writes[0] if d.writes else None)
        if p.outcome != "ok":
            r.fail(rule, where, f"fails with {show(p.value)[:60]}", p)
            continue
        reads = [e for e in d.reads if e.name in ("HGETALL", "HMGET", "HGET")]
        r.require(bool(reads) and all(e.args[:1] == (k,) for e in reads), rule, where + "/key", "reads another key", p, reads[0] if reads else None)
        empty = any(c[0] == "truth" and replies(c[1], ("HGETALL",), k) and not v for c, v in p.run.facts.items())
        for name, v in zip(names, p.value[1]):
            v = plain(v)
            if empty:
                r.require(v == NONE or name in kept and v[1] != f"old {name}", rule, f"{where}/{name}/none", f"with nothing stored, {name} is {show(v)[:60]}", p)
                continue
            there = next((x for c, x in p.run.facts.items() if c[0] == "cmp" and c[1] == "in" and c[2] == const(name) and replies(c[3], ("HGETALL",), k)), None)
            if v is not None and taken(v, k, name):
                some.add(name)
                r.require(there is not False, rule, f"{where}/{name}", "reads a field that is not there", p)
            else:
                r.require(there is False or is_absent_read(p, k, name), rule, f"{where}/{name}", f"{name} is {show(v)[:60] if v else None}, not what is stored", p)
                if name not in defaulted:
                    r.require(v == NONE, rule, f"{where}/{name}/none", f"a missing {name} reads as {show(v)[:60] if v else None}", p)
    for name in names:
        r.require(name in some, rule, f"{where}/{name}/reads", "is never taken from what is stored")


def taken(v: Term, k: Term, name: str) -> bool:
    return v[0] in ("index", "field") and replies(v[1], ("HGETALL",), k) and v[2] == const(name) or replies(v, ("HGET",), k, const(name)) or \
        v[0] == "index" and replies(v[1], ("HMGET",), k) and v[2][0] == "const" and isinstance(v[2][1], int) and fieldname(v[1], v[2][1]) == name


def fieldname(reply: Term, i: int) -> Any:
    args: list[Term] = []
    for x in reply[2][1:]:
        args.extend(x[1] if x[0] == "tuple" else x[2] if x[0] == "call" and x[1] in ("list", "tuple") else [x])
    return args[i][1] if i < len(args) and args[i][0] == "const" else None


def is_absent_read(p: Path, k: Term, name: str) -> bool:
    """A single field's read that came back with nothing."""
    for c, v in p.run.facts.items():
        for x in walk(c):
            if taken(x, k, name) and x[0] != "index" or x[0] == "index" and taken(x, k, name):
                if c[0] == "truth" and not v or c[0] == "cmp" and c[1] == "==" and NONE in c[2:4] and v:
                    return True
    return False
