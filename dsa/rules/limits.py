"""Rate limits, cooldowns and debounces."""
from __future__ import annotations

from typing import Any

from ..delta import Delta
from ..model import Path, World
from ..paths import Event, eq, lt, truth
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, walk
from .common import KEY, facts, identifies, is_positive, linear, mentions, same_sum, units
from .gates import OUTSIDE, ambient, is_blocked

SCOPE: Term = ("sym", "scope", "str")
PARAM: Term = ("sym", "parameter", "str")
VALUE: Term = ("sym", "argument_value", None)
BLOCKED = "docket.dependencies._base.AdmissionBlocked"
ENDS = (None, BLOCKED, "docket.dependencies._concurrency.ConcurrencyBlocked", "ValueError", "asyncio.CancelledError")


def stays(w: World, cls: str, own: dict[str, Term], bound: bool, scoped: bool, end: str | None) -> list[Path]:
    """Paths of a run through a gate: in on the run's exit stack, and out again when the run ends. The value is (gate, what it admitted as)."""
    c = w.prog.klass(cls)

    def body(it: Any) -> Term:
        fr, at = w.frame(c.module.name), c.node
        stack = it.call_ext("contextlib.AsyncExitStack", [], {}, fr, at)
        it.heap[("ambient", "stack")] = stack
        o = w.make(it, cls, **own, scope=SCOPE if scoped else NONE)
        it.run.assume(truth(SCOPE), True)
        it.run.assume(truth(PARAM), True)
        it.run.assume(eq(PARAM, NONE), False)
        if bound:
            o = w.call(it, o, f"{cls}.bind_to_parameter", [PARAM, VALUE])
        out = [NONE]
        it.emit(Event("mark", "enter", (o,)))

        def inner(_: Term) -> Term:
            out[0] = it.exit_stack(stack, "enter_async_context", [o], {}, fr, at)
            it.emit(Event("mark", "admitted", (out[0],)))
            if end is not None:
                it.throw(end)
            return NONE
        it.enter(stack, inner, fr, at)
        return ("tuple", (o, out[0]))
    return w.paths(f"{cls} {'bound' if bound else 'task'} {'scoped' if scoped else ''} {end}", body, inline=lambda f: f.name not in OUTSIDE, hooks=ambient(w), summarise=lambda f: False)


def split(p: Path) -> tuple[Path, Path, bool]:
    """The events on the way in, those on the way out, and whether the gate admitted."""
    i = next((n for n, e in enumerate(p.trace) if e.kind == "mark" and e.name == "admitted"), None)
    return (p.trace[:i] if i is not None else p.trace), (p.trace[i + 1:] if i is not None else []), i is not None  # type: ignore[return-value]


def redis(es: Any) -> list[Event]:
    return [e for e in es if e.kind == "redis"]


def field(p: Path, o: Term, name: str) -> Term:
    v = [e.args[1] for e in p.trace if e.kind == "assign" and e.name == name and norm(e.args[0]) == norm(o)]
    if v and v[-1][0] in ("truth", "cmp", "not") and p.fact(v[-1]) is not None:
        return const(p.fact(v[-1]))
    return v[-1] if v else NONE


def unclamped(t: Any) -> Any:
    """A number without its lower bound."""
    if isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and str(t[1]).split(".")[-1] == "max":
        rest = [x for x in t[2] if x[0] != "const"]
        if len(rest) == 1:
            return unclamped(rest[0])
    return tuple(unclamped(x) for x in t) if isinstance(t, tuple) else t


def key_of(r: Report, rule: str, where: str, p: Path, K: Term, bound: bool, scoped: bool, e: Event) -> None:
    """A gate's Redis key: per scope or docket, and per task or parameter and value."""
    if scoped:
        r.require(mentions(K, SCOPE), rule, where + "/scope", f"its scope is not part of {show(K)}", p, e)
    else:
        r.require(any(x[0] == "attr" and x[2] in ("name", "prefix") or x[0] == "call" and x[1] == "prefix" for x in walk(K)), rule, where + "/docket", f"the docket is not part of {show(K)}", p, e)
    if bound:
        r.require(mentions(K, PARAM) and identifies(K, VALUE), rule, where + "/argument", f"the parameter and its value are not part of {show(K)}", p, e)
    else:
        r.require(any(x[0] == "sym" and x[1].startswith("function") for x in walk(K)), rule, where + "/task", f"the task is not part of {show(K)}", p, e)
    r.require(not mentions(K, KEY), rule, where + "/key", f"{show(K)} depends on the execution's own key", p, e)


def kept(r: Report, rule: str, where: str, p: Path, o: Term) -> None:
    bad = [e for e in p.trace[next((i for i, e in enumerate(p.trace) if e.kind == "mark"), 0):] if e.kind in ("assign", "setitem") and norm(e.args[0]) == norm(o)]
    r.require(not bad, rule, where, f"the gate in the task's signature is changed: {bad[0].name if bad else ''}", p, bad[0] if bad else None)


def total(o: Term) -> dict[Any, float]:
    return linear(o)


def scale(d: dict[Any, float], k: float) -> dict[Any, float]:
    return {x: v * k for x, v in d.items()}


def c19(w: World, r: Report) -> None:
    r.explain.append("Every path into and out of RateLimit (plain and bound to a parameter, with and without scope) is enumerated through its Lua script, for runs that end normally, fail, are cancelled or are blocked by another gate.")
    admit = r.rule("C19.admit", "an execution is admitted only when fewer than limit admissions younger than the window are recorded, and is recorded itself with the current time")
    window = r.rule("C19.window", "admissions are forgotten only once they are a window old")
    atom = r.rule("C19.atomic", "looking and recording happen in one script call")
    block = r.rule("C19.blocked", "an execution over the limit is dropped if so asked, and otherwise blocked for a positive delay until the oldest admission leaves the window, and records nothing")
    back = r.rule("C19.withdrawn", "an execution blocked by another gate takes back its own record and no other; any other ending keeps it")
    key = r.rule("C19.key", "admissions are counted per docket or scope, and per task or argument value")
    own = r.rule("C19.shared", "the limit in a task's signature is not changed by an execution")
    LIMIT: Term = ("sym", "limit", "int")
    PER: Term = ("sym", "per", "datetime.timedelta")
    DROP: Term = ("sym", "drop", "bool")
    seen: set[str] = set()
    keys: dict[tuple[bool, bool], Term] = {}
    for bound in (False, True):
        for scoped in (False, True):
            for end in ENDS:
                for p in stays(w, "RateLimit", dict(limit=LIMIT, per=PER, drop=DROP), bound, scoped, end):
                    where = "RateLimit" + ("/parameter" if bound else "")
                    into, out, admitted = split(p)
                    cmds = redis(into)
                    marks = [e for e in p.trace if e.kind == "mark"]
                    kept(r, own, where, p, marks[0].args[0])
                    if not admitted and not is_blocked(p.value):
                        r.require(any(e.kind in ("throw", "note") for e in p.trace), admit, where + "/error", f"ends with {show(p.value)}", p)
                        continue
                    looks = [e for e in cmds if e.name in ("ZCARD", "ZCOUNT")]
                    if not r.require(len(looks) >= 1, admit, where, "the admissions are not counted", p):
                        continue
                    K = norm(looks[-1].args[0])
                    if keys.setdefault((bound, scoped), K) == K:
                        key_of(r, key, where, p, K, bound, scoped, looks[-1])
                    adds = [e for e in cmds if e.name == "ZADD"]
                    drops = [e for e in cmds if e.name in ("ZREMRANGEBYSCORE", "ZREM", "DEL", "ZPOPMIN", "ZREMRANGEBYRANK", "UNLINK")]
                    for e in drops:
                        cut = linear(e.args[2]) if e.name == "ZREMRANGEBYSCORE" else {}
                        k = cut.get("now", 0)
                        r.require(norm(e.args[0]) == K and bool(k) and same_sum(cut, {"now": k, **scale(linear(PER), -k)}), window, where + "/pruned", f"{e.name} up to {show(e.args[2]) if len(e.args) > 2 else ''} forgets admissions within the window", p, e)
                    under = count_under(p, looks[-1], LIMIT)
                    pruned = [e for e in drops if e.name == "ZREMRANGEBYSCORE" and p.trace.index(e) < p.trace.index(looks[-1]) and norm(e.args[0]) == K]
                    if looks[-1].name == "ZCARD":
                        r.require(bool(pruned), block, where + "/prune", "admissions that have left the window still count", p, looks[-1])
                    r.require(under is not None, admit, where + "/compared", "the count is not compared with the limit", p)
                    if admitted:
                        seen.add("admitted")
                        r.require(under is True, admit, where + "/over", "admits an execution at or over the limit", p)
                        if r.require(len(adds) == 1 and norm(adds[0].args[0]) == K, admit, where + "/recorded", f"records {len(adds)} admissions", p):
                            score, member = linear(adds[0].args[1]), norm(adds[0].args[2])
                            r.require(set(score) == {"now"}, admit, where + "/time", f"records the admission at {show(adds[0].args[1])}", p, adds[0])
                            unit = score.get("now", 1)
                            for e in drops:
                                if e.name == "ZREMRANGEBYSCORE":
                                    r.require(linear(e.args[2]).get("now") == unit, window, where + "/unit", "prunes in another unit of time than it records", p, e)
                            r.require(mentions(member, KEY), admit, where + "/member", f"two executions share the record {show(member)}", p, adds[0])
                            r.require(any(x[0] == "now" for x in walk(member)), admit, where + "/again", "two runs of an execution share a record", p, adds[0])
                            ttl = [e for e in cmds if e.name in ("EXPIRE", "PEXPIRE") and norm(e.args[0]) == K]
                            for e in ttl:
                                s = linear(e.args[1])
                                per = next(iter(linear(PER)))
                                r.require(set(s) == {per} and s[per] * (1 if e.name == "EXPIRE" else 0.001) >= 1, window, where + "/ttl", f"admissions expire after {show(e.args[1])}", p, e)
                        r.require(len(units(cmds)) == 1, atom, where, "looking and recording are not one script call", p)
                        undo = [e for e in redis(out) if e.name in ("ZREM", "ZREMRANGEBYSCORE", "DEL", "UNLINK", "ZADD", "SET")]
                        if end in ENDS[1:3]:
                            seen.add("withdrawn")
                            r.require(len(undo) == 1 and undo[0].name == "ZREM" and bool(adds) and tuple(norm(a) for a in undo[0].args) == (K, norm(adds[0].args[2])), back, where + "/blocked",
                                      f"an execution blocked by another gate {'removes ' + ', '.join(show(a) for a in undo[0].args) if undo else 'keeps its record'}", p, undo[0] if undo else None)
                        else:
                            seen.add("kept")
                            r.require(not undo, back, where + "/kept", f"a run that took place is forgotten ({undo[0].name if undo else ''})", p, undo[0] if undo else None)
                    else:
                        seen.add("blocked")
                        r.require(under is False, block, where + "/under", "blocks an execution although it is under the limit", p)
                        r.require(not adds, block, where + "/records", "a blocked execution is recorded as an admission", p, adds[0] if adds else None)
                        dropped = p.fact(truth(DROP))
                        again = norm(field(p, p.value, "reschedule"))
                        r.require(norm(field(p, p.value, "handled")) == FALSE, block, where + "/handled", "says it handled the delivery, which it did not", p)
                        r.require(dropped is not None and again == const(not dropped), block, where + "/drop", f"reschedules: {show(again)}, asked to drop: {dropped}", p)
                        if dropped is False:
                            delay = field(p, p.value, "retry_delay")
                            d = linear(unclamped(norm(delay)))
                            r.require(norm(delay) != NONE and is_positive(p, delay), block, where + "/positive", f"waits for {show(delay)}", p)
                            if set(d) != {None}:
                                k = -d.get("now", 0)
                                old = [x for x in d if isinstance(x, tuple) and "score" in repr(x) and "ZRANGE" in repr(x)]
                                want = {**scale(linear(PER), 1), **{x: d[x] for x in old}, "now": -k}
                                # the oldest admission's score is in the unit in which the time is recorded
                                ok = len(old) == 1 and first_element(old[0]) and k > 0 and abs(d[old[0]] - k / unit_of(p, K)) < 1e-12 and same_sum(d, want)
                                r.require(ok, block, where + "/delay", f"waits for {show(delay)}", p)
                                seen.add("delayed")
    r.require(seen == {"admitted", "withdrawn", "kept", "blocked", "delayed"}, admit, "RateLimit/outcomes", f"only {sorted(seen)} are met")
    r.require(len(set(keys.values())) == 4, key, "RateLimit/distinct", "different uses share a key")
    for rule in (admit, window, atom, block, back, key, own):
        r.expect(rule, 1)


def first_element(t: Term) -> bool:
    """The score of the first of the elements in ascending order."""
    for x in walk(t):
        if x[0] == "elem" and x[1][0] == "reply" and x[1][1] in ("ZRANGE", "ZRANGEBYSCORE"):
            a = [norm(y) for y in x[1][2]]
            low = a[1] == const(0) if x[1][1] == "ZRANGE" else str(a[1][1]) == "-inf"
            return x[2] == 0 and low and not any(y[0] == "const" and str(y[1]).upper() == "REV" for y in a)
    return False


def unit_of(p: Path, K: Term) -> float:
    """How many of the recorded times' units a second has."""
    for e in p.redis("ZADD", "ZREMRANGEBYSCORE", "ZCOUNT"):
        if norm(e.args[0]) == K:
            for a in e.args[1:]:
                k = linear(a).get("now")
                if k:
                    return abs(k)
    return 1.0


def count_under(p: Path, look: Event, limit: Term) -> bool | None:
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "<":
            a, b = norm(c[2]), norm(c[3])
            if a == norm(look.result) and b == limit:
                return v
            if b == norm(look.result) and a == limit:
                return None if not v else False
            d = linear(("op", "-", b, a))
            if same_sum(d, {limit: 1, norm(look.result): -1}):
                return v
            if same_sum(d, {norm(look.result): 1, limit: -1, None: 1}):
                return not v
    return None


def c41(w: World, r: Report) -> None:
    r.explain.append("Every path into and out of Cooldown (plain and bound to a parameter, with and without scope) is enumerated, for runs that end normally, fail, are cancelled or are blocked by another gate.")
    admit = r.rule("C41.admit", "an execution is admitted only by creating the window's marker where there was none, to expire when the window ends")
    block = r.rule("C41.blocked", "an execution within the window is dropped and leaves the window as it was")
    back = r.rule("C41.withdrawn", "an execution that another gate blocks gives its window back; any other ending keeps it, and one the cooldown itself blocked gives nothing back")
    key = r.rule("C41.key", "windows are kept per docket or scope, and per task or argument value")
    own = r.rule("C41.shared", "the cooldown in a task's signature is not changed by an execution")
    WINDOW: Term = ("sym", "window", "datetime.timedelta")
    seen: set[str] = set()
    keys: dict[tuple[bool, bool], Term] = {}
    for bound in (False, True):
        for scoped in (False, True):
            for end in ENDS:
                for p in stays(w, "Cooldown", dict(window=WINDOW), bound, scoped, end):
                    where = "Cooldown" + ("/parameter" if bound else "")
                    into, out, admitted = split(p)
                    cmds = redis(into)
                    marks = [e for e in p.trace if e.kind == "mark"]
                    kept(r, own, where, p, marks[0].args[0])
                    if not admitted and not is_blocked(p.value):
                        r.require(any(e.kind in ("throw", "note") for e in p.trace), admit, where + "/error", f"ends with {show(p.value)}", p)
                        continue
                    sets = [e for e in cmds if e.name in ("SET", "SETNX", "PSETEX", "SETEX")]
                    if not r.require(len(sets) == 1, admit, where, f"{len(sets)} markers are set", p):
                        continue
                    s = sets[0]
                    K = norm(s.args[0])
                    if keys.setdefault((bound, scoped), K) == K:
                        key_of(r, key, where, p, K, bound, scoped, s)
                    words = [str(a[1]).upper() if a[0] == "const" else "" for a in s.args[2:]]
                    nx = "NX" in words or any(n == "nx" and norm(v) == TRUE for n, v in s.kwargs)
                    ttl: dict[Any, float] | None = None
                    for n, v in [*zip(words, s.args[3:]), *[(n.upper(), v) for n, v in s.kwargs]]:
                        if n in ("PX", "EX"):
                            ttl = scale(linear(v), 0.001 if n == "PX" else 1)
                    r.require(nx, admit, where + "/only-if-absent", "overwrites a window", p, s)
                    r.require(ttl is not None and same_sum(ttl, linear(WINDOW)), admit, where + "/window", f"the window lasts {ttl}", p, s)
                    got = p.fact(truth(norm(s.result))) if s.result is not None else None
                    if got is None:
                        got = {True: False, False: True}.get(p.fact(eq(norm(s.result), NONE)))  # type: ignore[arg-type]
                    other = [e for e in Delta(into).writes if e is not s]  # type: ignore[arg-type]
                    r.require(not other, block, where + "/writes", f"{other[0].name if other else ''} changes more than the window", p, other[0] if other else None)
                    undo = Delta(out).writes  # type: ignore[arg-type]
                    if admitted:
                        seen.add("admitted")
                        r.require(got is True, admit, where + "/within", "admits an execution within the window", p)
                        if end in ENDS[1:3]:
                            seen.add("withdrawn")
                            r.require(len(undo) == 1 and undo[0].name in ("DEL", "UNLINK") and [norm(a) for a in undo[0].args] == [K], back, where + "/blocked",
                                      "an execution blocked by another gate " + (f"does {undo[0].name} {show(undo[0].args[0])}" if undo else "keeps its window"), p, undo[0] if undo else None)
                        else:
                            r.require(not undo, back, where + "/kept", "the window of a run that took place is ended", p, undo[0] if undo else None)
                    else:
                        seen.add("blocked")
                        r.require(got is False, block, where + "/free", "blocks an execution outside any window", p)
                        r.require(norm(field(p, p.value, "reschedule")) == FALSE and norm(field(p, p.value, "handled")) == FALSE, block, where + "/dropped", "the blocked execution is not dropped", p)
                        r.require(not undo, back, where + "/not-its-own", "ends the window of another execution", p, undo[0] if undo else None)
    r.require(seen == {"admitted", "withdrawn", "blocked"}, admit, "Cooldown/outcomes", f"only {sorted(seen)} are met")
    r.require(len(set(keys.values())) == 4, key, "Cooldown/distinct", "different uses share a key")
    for rule in (admit, block, back, key, own):
        r.expect(rule, 1)


def c42(w: World, r: Report) -> None:
    r.explain.append("Every path into and out of Debounce (plain and bound to a parameter, with and without scope) is enumerated through its Lua script.")
    lead = r.rule("C42.winner", "the first execution becomes the winner and waits for the settle time")
    settle = r.rule("C42.settled", "the winner runs only once the settle time has passed since the last submission, and then leaves no trace; until then it waits exactly the remainder")
    late = r.rule("C42.later", "any other execution is dropped and restarts the settle time")
    last_ = r.rule("C42.ttl", "the winner and the time last seen outlive the settle time")
    atom = r.rule("C42.atomic", "each decision is one script call")
    key = r.rule("C42.key", "submissions settle per docket or scope, and per task or argument value")
    own = r.rule("C42.shared", "the debounce in a task's signature is not changed by an execution")
    SETTLE: Term = ("sym", "settle", "datetime.timedelta")
    span = next(iter(linear(SETTLE)))
    seen: set[str] = set()
    keys: dict[tuple[bool, bool], set[Term]] = {}
    for bound in (False, True):
        for scoped in (False, True):
            for end in ENDS:
                for p in stays(w, "Debounce", dict(settle=SETTLE), bound, scoped, end):
                    where = "Debounce" + ("/parameter" if bound else "")
                    into, out, admitted = split(p)
                    cmds = redis(into)
                    marks = [e for e in p.trace if e.kind == "mark"]
                    kept(r, own, where, p, marks[0].args[0])
                    if not admitted and not is_blocked(p.value):
                        r.require(any(e.kind in ("throw", "note") for e in p.trace), lead, where + "/error", f"ends with {show(p.value)}", p)
                        continue
                    undo = Delta(out).writes  # type: ignore[arg-type]
                    r.require(not undo, settle, where + "/out", "changes what later submissions find when its run ends", p, undo[0] if undo else None)
                    gets = [e for e in cmds if e.name == "GET"]
                    if not r.require(bool(gets), lead, where, "nobody looks for a winner", p):
                        continue
                    WIN = norm(gets[0].args[0])
                    r.require(len(units(cmds)) == 1, atom, where, "a decision takes more than one script call", p)
                    ks = keys.setdefault((bound, scoped), set())
                    for e in cmds:
                        for a in (e.args if e.name in ("DEL", "UNLINK") else e.args[:1]):
                            if norm(a) not in ks:
                                ks.add(norm(a))
                                key_of(r, key, where, p, norm(a), bound, scoped, e)
                    winner = norm(gets[0].result)
                    exists = p.fact(truth(winner))
                    mine = p.fact(eq(winner, KEY)) if exists is not False else False
                    if mine is None:
                        mine = p.fact(eq(KEY, winner))
                    d = Delta(into)  # type: ignore[arg-type]
                    sets = {norm(e.args[0]): e for e in cmds if e.name in ("SET", "PSETEX", "SETEX")}
                    for e in cmds:
                        t = None
                        if e.name in ("PEXPIRE", "EXPIRE"):
                            t = scale(linear(e.args[1]), 0.001 if e.name == "PEXPIRE" else 1)
                        elif e.name == "SET":
                            words = [str(a[1]).upper() if a[0] == "const" else "" for a in e.args]
                            for i, x in enumerate(words):
                                if x in ("PX", "EX") and i > 1:
                                    t = scale(linear(e.args[i + 1]), 0.001 if x == "PX" else 1)
                            r.require("NX" not in words[2:], last_, where + "/nx", "a time last seen is not updated", p, e)
                            if t is None:
                                continue
                        else:
                            continue
                        r.require(set(t) == {span} and t[span] > 1, last_, where + "/ttl", f"{show(e.args[0])} expires after {t}", p, e)
                    again, delay = norm(field(p, p.value, "reschedule")) if not admitted else NONE, field(p, p.value, "retry_delay") if not admitted else NONE
                    if not admitted:
                        r.require(norm(field(p, p.value, "handled")) == FALSE, lead, where + "/handled", "says it handled the delivery, which it did not", p)
                    SEEN = next((k for k in sets if k != WIN), None)
                    now = {linear(e.args[1]).get("now") for k, e in sets.items() if k != WIN}
                    if exists is False:
                        seen.add("leads")
                        r.require(not admitted and again == TRUE, lead, where + "/waits", "the first execution does not wait", p)
                        r.require(WIN in sets and norm(sets[WIN].args[1]) == KEY, lead, where + "/claims", "the first execution does not become the winner", p)
                        r.require(SEEN is not None and set(linear(sets[SEEN].args[1])) == {"now"}, lead, where + "/seen", "the first submission's time is not recorded", p)
                        r.require(same_sum(linear(delay), linear(SETTLE)), lead, where + "/delay", f"the first execution waits for {show(delay)}", p)
                    elif mine is True:
                        reads = [e for e in gets if norm(e.args[0]) != WIN]
                        seen_at = norm(reads[0].result) if reads else NONE
                        r.require(bool(reads), settle, where + "/reads", "the winner does not look when the last submission was", p)
                        done = settled(p, seen_at, span)
                        r.require(not any(e.name in ("SET",) and norm(e.args[0]) != WIN for e in cmds), settle, where + "/own", "the winner's own return restarts the settle time", p)
                        if admitted:
                            seen.add("runs")
                            r.require(done is True, settle, where + "/early", "runs before the settle time has passed", p)
                            gone = {norm(a) for e in cmds if e.name in ("DEL", "UNLINK") for a in e.args}
                            r.require({WIN, norm(reads[0].args[0]) if reads else NONE} <= gone, settle, where + "/cleared", "the next submission finds the winner of this one", p)
                        else:
                            seen.add("waits")
                            r.require(again == TRUE and done is False, settle, where + "/waits", "the winner is dropped, or waits although submissions have settled", p)
                            x = linear(unclamped(norm(delay)))
                            k = 0.001
                            if seen_at in x:
                                k = x[seen_at]
                            r.require(same_sum({a: v for a, v in x.items() if a != seen_at}, {span: 1, "now": -1}) and (seen_at in x) == seen_known(p, seen_at) and abs(x.get(seen_at, k)) in (1, 0.001),
                                      settle, where + "/delay", f"waits for {show(delay)}", p)
                            r.require(not [e for e in cmds if e.name in ("DEL", "UNLINK", "SET")], settle, where + "/keeps", "a waiting winner gives up its place", p)
                    elif mine is False:
                        seen.add("late")
                        r.require(not admitted and again == FALSE, late, where + "/dropped", "a later submission is not dropped", p)
                        r.require(WIN not in sets and not [e for e in cmds if e.name in ("DEL", "UNLINK")], late, where + "/winner", "a later submission takes the winner's place", p)
                        r.require(SEEN is not None and set(linear(sets[SEEN].args[1])) == {"now"}, late, where + "/seen", "a later submission does not restart the settle time", p)
                        r.require(any(e.name in ("PEXPIRE", "EXPIRE") and norm(e.args[0]) == WIN for e in cmds), last_, where + "/refreshed", "the winner may expire while submissions keep coming", p)
                    else:
                        r.require(False, lead, where + "/unknown", "decides without knowing whether it is the winner", p)
                    r.require(len(now) <= 1, settle, where + "/unit", "times are recorded in different units", p)
                    _ = d
    r.require(seen == {"leads", "runs", "waits", "late"}, lead, "Debounce/outcomes", f"only {sorted(seen)} are met")
    for a in keys:
        for b in keys:
            r.require(a == b or not keys[a] & keys[b], key, "Debounce/distinct", "different uses share a key")
        r.require(len(keys[a]) == 2, key, "Debounce/keys", "one key serves two purposes")
    for rule in (lead, settle, late, last_, atom, key, own):
        r.expect(rule, 1)


def seen_known(p: Path, seen: Term) -> bool:
    return p.fact(truth(seen)) is not False


def settled(p: Path, seen: Term, span: Term) -> bool | None:
    """Whether the path found that the settle time has passed since seen."""
    for c, v in facts(p):
        if c[0] != "cmp" or c[1] != "<":
            continue
        d = linear(("op", "-", norm(c[2]), norm(c[3])))       # d < 0 iff v
        n, s, t = d.get("now", 0), d.get(seen, 0), d.get(span, 0)
        rest = set(d) - {"now", seen, span}
        if rest or not n or abs(t) != abs(n) or t * n > 0 or (s and s * n > 0):
            continue
        if not s and seen_known(p, seen):
            continue
        if n > 0:
            return not v            # now - seen - settle < 0: not yet
        if v:
            return True             # settle - (now - seen) < 0
    return None
