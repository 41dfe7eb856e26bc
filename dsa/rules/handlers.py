"""Retries, perpetual tasks, crons and timeouts."""
from __future__ import annotations

from typing import Any, Callable

from ..delta import GONE, Delta
from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, walk
from .common import (KEY, QUEUE, STREAM, acked, deleted, facts, group, has_message, less, linear, mentions, parked, present, runs, same_sum, stale, stricken, tracked)
from .gates import OUTSIDE, ambient
from .limits import field
from .running import arguments, calls, last

OUTCOME: Term = ("sym", "outcome", "docket.dependencies._base.TaskOutcome")
BOUNDARY = OUTSIDE - {"add", "cancel"} | {"general_labels", "labels", "call_repr", "is_stricken", "format_duration"}
ATTEMPTS: Term = ("sym", "attempts", None)
ATTEMPT: Term = ("sym", "attempt", "int")
DELAY: Term = ("sym", "delay", "datetime.timedelta")
MAXIMUM: Term = ("sym", "maximum", "datetime.timedelta")
SPAN: Term = ("sym", "span", "datetime.timedelta")
TIME: Term = ("sym", "time", "datetime.datetime")


def overflows(e: Event, trace: list[Event]) -> list[str]:
    return ["OverflowError"] if e.kind == "pure" and e.name.startswith("overflow") and not any(x.kind == "throw" for x in trace) else []


def paths(w: World, name: str, body: Callable[[Any], Term], **kw: Any) -> list[Path]:
    def within(it: Any) -> Term:
        it.heap[("ambient", "execution")] = w.execution(it)
        return body(it)
    return w.paths(name, within, inline=lambda f: f.name not in BOUNDARY, hooks=ambient(w), **kw)


def home(d: Delta) -> tuple[dict[Term, Term] | None, str | None]:
    """The message a path schedules: its fields, and where it is put."""
    adds = [x for x in d.xadd if x[0] == STREAM]
    if adds:
        return adds[0][1], "stream"
    ph = {f: v for f, v in d.hash.get(parked(), {}).items() if v != GONE}
    return (ph, "queue") if ph else (None, None)


def times(t: Term) -> list[Term]:
    """A stored time, without its formatting."""
    t = norm(t)
    while t[0] == "call" and str(t[1]).split(".")[-1] in ("isoformat", "timestamp", "encode", "str", "bytes") and t[2]:
        t = t[2][0]
    return [t]


def stored_time(m: dict[Term, Term]) -> Term:
    return times(m[const("when")])[0] if const("when") in m else NONE


def number(t: Term) -> dict[Any, float]:
    t = norm(t)
    while t[0] in ("call", "text") and (t[0] == "text" or str(t[1]).split(".")[-1] in ("str", "encode", "bytes", "repr")):
        t = t[1] if t[0] == "text" else t[2][0]
    if t[0] == "const" and isinstance(t[1], (str, bytes)) and str(t[1].decode() if isinstance(t[1], bytes) else t[1]).isdigit():
        return {None: int(t[1])}
    return linear(t)


def current(p: Path) -> bool:
    """Whether the path found that its execution is not superseded (a record that is gone names no successor)."""
    return stale(p) is False or tracked(p) is False or present(p, runs(), "generation") is False


def exhausted(p: Path, limit: Term = ATTEMPTS) -> bool | None:
    """Whether the path found that no attempts are left."""
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "==" and {c[2], c[3]} == {limit, NONE} and v:
            return False
    for c, v in facts(p):
        if c[0] != "cmp" or c[1] not in ("<", "=="):
            continue
        a, b = linear(c[2]), linear(c[3])
        d = {x: b.get(x, 0) - a.get(x, 0) for x in {*a, *b} if b.get(x, 0) - a.get(x, 0)}  # b - a
        k = d.pop(None, 0)
        if c[1] == "<" and same_sum(d, {limit: 1, ATTEMPT: -1}):  # attempt < limit + k
            if k == 0:
                return not v
            if k > 0 and not v or k < 0 and v:
                return not v
        if c[1] == "<" and same_sum(d, {limit: -1, ATTEMPT: 1}):  # limit < attempt + k
            if k == 1:
                return v
            if k < 1 and v:
                return True
            if k > 1 and not v:
                return False
    return None


def c20(w: World, r: Report) -> None:
    r.explain.append("Every path of Retry.handle_failure is enumerated down to the Redis commands of the rescheduling script; the retries resolved for each run (linear and exponential) are compared with the attempt they are for.")
    bound = r.rule("C20.bound", "a failed run is retried exactly when attempts remain and the key has not been given a newer schedule")
    again = r.rule("C20.again", "a retry schedules the same execution once more: next attempt, its delay from now, the failed delivery acknowledged and deleted in the same step")
    told = r.rule("C20.told", "the failure is reported as handled exactly when a retry was scheduled")
    back = r.rule("C20.delay", "a linear retry waits its delay; an exponential one doubles the minimum with every attempt and never waits longer than the maximum")
    own = r.rule("C20.own", "a run resolves its own Retry, for its own attempt, and leaves the one in the signature alone")
    force = r.rule("C20.forced", "after(), in_() and at() set the delay of this retry and raise ForcedRetry; a time in the past means at once")

    def failing(it: Any) -> Term:
        o = w.make(it, "Retry", attempts=ATTEMPTS, delay=DELAY)
        return w.call(it, o, "Retry.handle_failure", [it.heap[("ambient", "execution")], OUTCOME])
    some = set()
    for p in paths(w, "Retry.handle_failure", failing):
        if any(not v and mentions(c, ("attr", OUTCOME, "exception")) for c, v in facts(p) if c[0] == "truth"):
            continue
        d = Delta(p.trace)
        m, where = home(d)
        ended = exhausted(p)
        if p.outcome == "raise":
            r.require(False, bound, "Retry.handle_failure", f"raises {show(p.value)}", p)
            continue
        old = stale(p)
        if m is None:
            if stricken(p):
                continue
            r.require(not [e for e in d.writes if e.name in ("XADD", "ZADD", "HSET", "XACK", "XDEL")], bound, "Retry.handle_failure/nothing", "something is written although nothing is scheduled", p, d.writes[0] if d.writes else None)
            r.require(ended is True or old is True, bound, "Retry.handle_failure/kept", "the failure is not retried although attempts remain", p)
            r.require(no(p, p.value), told, "Retry.handle_failure/given-up", "reports the failure as handled although nothing is scheduled", p)
            some.add("none")
            continue
        some.add(where)
        r.require(ended is False, bound, "Retry.handle_failure/bound", "retries without having found attempts left", p, d.writes[0])
        r.require(current(p), bound, "Retry.handle_failure/superseded", "retries without having found its key not to be superseded", p, d.writes[0])
        r.require(yes(p, p.value), told, "Retry.handle_failure/scheduled", "reports the failure as not handled although a retry is scheduled", p)
        n = number(m.get(const("attempt"), NONE))
        r.require(same_sum(n, {ATTEMPT: 1, None: 1}), again, "Retry.handle_failure/attempt", f"the next attempt is {show(m.get(const('attempt'), NONE))}", p)
        t = stored_time(m)
        r.require(same_sum(linear(t), {"now": 1, **linear(DELAY)}), again, "Retry.handle_failure/when", f"the retry is scheduled at {show(t)}", p)
        r.require(norm(m.get(const("key"), NONE)) == KEY, again, "Retry.handle_failure/key", "the retry has another key", p)
        for f in ("args", "kwargs", "function"):
            v = m.get(const(f), NONE)
            r.require(any(x[0] == "sym" and x[1] == f or x[0] == "attr" and x[2] == f for x in walk(v)), again, "Retry.handle_failure/" + f, f"the retry's {f} is {show(v)}", p)
        if has_message(p) is not False:
            r.require(acked(d, group(w)) and deleted(d), again, "Retry.handle_failure/delivery", "the failed delivery is not acknowledged and deleted", p)
    r.require(some == {"none", "stream", "queue"}, bound, "Retry.handle_failure/outcomes", f"only {sorted(some)} happen")

    def resolved(cls: str, **over: Term) -> Callable[[Any], Term]:
        def body(it: Any) -> Term:
            o = w.make(it, cls, **over)
            it.emit(Event("mark", "enter", (o,)))
            return ("tuple", (o, w.call(it, o, f"{cls}.__aenter__")))
        return body
    for cls, over in (("Retry", dict(attempts=ATTEMPTS, delay=DELAY)), ("ExponentialRetry", dict(attempts=ATTEMPTS, minimum_delay=DELAY, maximum_delay=MAXIMUM))):
        for p in paths(w, f"{cls}.__aenter__", resolved(cls, **over), raises=overflows):
            where = f"{cls}.__aenter__"
            if p.outcome == "raise":
                r.require(False, back, where + "/overflow", f"computing the delay of a late attempt raises {show(p.value)}", p)
                continue
            o, v = p.value[1]
            fresh(r, own, where, p, o, v)
            r.require(norm(field(p, v, "attempt")) == norm(ATTEMPT), own, where + "/attempt", f"is for attempt {show(field(p, v, 'attempt'))}", p)
            r.require(norm(field(p, v, "attempts")) == norm(ATTEMPTS), own, where + "/attempts", f"allows {show(field(p, v, 'attempts'))} attempts", p)
            d = norm(field(p, v, "delay"))
            if cls == "Retry":
                r.require(same_sum(linear(d), linear(DELAY)), back, where + "/delay", f"waits {show(d)}", p)
            else:
                r.require(backoff(p, d), back, where + "/delay", f"waits {show(d)}", p)
    for meth, arg, want in (("after", SPAN, lambda p, d: same_sum(linear(d), linear(SPAN))), ("in_", SPAN, lambda p, d: same_sum(linear(d), linear(SPAN))), ("at", TIME, until)):
        def body(it: Any, meth: str = meth, arg: Term = arg) -> Term:
            o = w.make(it, "Retry", attempts=ATTEMPTS, delay=DELAY)
            it.heap[("ambient", "object")] = o
            it.emit(Event("mark", "enter", (o,)))
            return w.call(it, o, f"Retry.{meth}", [arg])
        for p in paths(w, f"Retry.{meth}", body):
            o = next(e.args[0] for e in p.trace if e.kind == "mark")
            r.require(p.outcome == "raise" and "ForcedRetry" in repr(p.value), force, f"Retry.{meth}/raises", f"ends with {show(p.value)}", p)
            d = norm(field(p, o, "delay"))
            r.require(want(p, d), force, f"Retry.{meth}/delay", f"sets the delay to {show(d)}", p)
    for cls in ("Retry", "ExponentialRetry"):
        for p in paths(w, f"{cls}.forever", lambda it, cls=cls: w.call(it, None, f"{cls}.forever")):
            r.require(field(p, p.value, "attempts") == NONE, bound, f"{cls}.forever", f"allows {show(field(p, p.value, 'attempts'))} attempts", p)
    for rule, n in ((bound, 10), (again, 10), (told, 4), (back, 3), (own, 4), (force, 4)):
        r.expect(rule, n)


def no(p: Path, v: Any) -> bool:
    return v is None or v in (FALSE, NONE) or norm(v)[0] in ("truth", "cmp", "not") and p.fact(norm(v)) is False


def yes(p: Path, v: Any) -> bool:
    return v == TRUE or v is not None and norm(v)[0] in ("truth", "cmp", "not") and p.fact(norm(v)) is True


def fresh(r: Report, rule: str, where: str, p: Path, o: Term, v: Term) -> None:
    """A dependency resolved for a run is not the one in the task's signature, which stays as it is."""
    r.require(norm(v) != norm(o), rule, where + "/shared", "the dependency in the task's signature is shared between runs", p)
    i = next((n for n, e in enumerate(p.trace) if e.kind == "mark"), 0)
    bad = [e for e in p.trace[i:] if e.kind in ("assign", "setitem") and norm(e.args[0]) == norm(o)]
    r.require(not bad, rule, where + "/changed", f"the dependency in the task's signature is changed: {bad[0].name if bad else ''}", p, bad[0] if bad else None)


def power(t: Term) -> bool:
    """Two to the number of earlier attempts."""
    t = norm(t)
    first = {ATTEMPT: 1, None: -1}
    if t[0] == "op" and t[1] == "**" and linear(t[2]) == {None: 2}:
        return same_sum(linear(unbound(t[3])), first)
    if t[0] == "op" and t[1] == "<<" and linear(t[2]) == {None: 1}:
        return same_sum(linear(unbound(t[3])), first)
    if t[0] == "call" and str(t[1]).split(".")[-1] == "pow" and len(t[2]) >= 2 and linear(t[2][0]) == {None: 2}:
        return same_sum(linear(unbound(t[2][1])), first)
    return False


def unbound(t: Term) -> Term:
    """An exponent without a generous upper bound."""
    if t[0] == "call" and t[1] in ("min", "max") and len(t[2]) == 2:
        rest = [x for x in t[2] if not (x[0] == "const" and (t[1] == "max" and x[1] <= 0 or t[1] == "min" and x[1] >= 30))]
        if len(rest) == 1:
            return rest[0]
    return t


def doubled(t: Term) -> bool:
    t = norm(t)
    if t[0] == "call" and str(t[1]).endswith("timedelta") and len(t[2]) == 1:
        return doubled(t[2][0][1][1]) if t[2][0][0] == "tuple" else False
    return t[0] == "op" and t[1] == "*" and any(power(a) and same_sum(linear(b), linear(DELAY)) for a, b in ((t[2], t[3]), (t[3], t[2])))


def backoff(p: Path, d: Term) -> bool:
    if d[0] == "call" and d[1] == "min" and len(d[2]) == 2:
        a, b = d[2]
        return any(same_sum(linear(x), linear(MAXIMUM)) and (doubled(y) or same_sum(linear(y), linear(DELAY)) and first(p)) for x, y in ((a, b), (b, a)))
    big = None  # whether the doubled delay exceeds the maximum
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "<":
            if same_sum(linear(c[2]), linear(MAXIMUM)) and doubled(c[3]):
                big = v
            if doubled(c[2]) and same_sum(linear(c[3]), linear(MAXIMUM)):
                big = not v
    if any(e.kind == "throw" and e.name == "OverflowError" for e in p.trace):
        big = True
    if same_sum(linear(d), linear(MAXIMUM)):
        return big is True
    if doubled(d):
        return big is False or first(p)
    return same_sum(linear(d), linear(DELAY)) and first(p)


def first(p: Path) -> bool:
    """Whether the path knows this to be the first attempt."""
    v = less(p, lambda t: t == const(1), lambda t: norm(t) == norm(ATTEMPT))
    if v is False:
        return True
    v = less(p, lambda t: norm(t) == norm(ATTEMPT), lambda t: t == const(2))
    return v is True or any(c[0] == "cmp" and c[1] == "==" and v and {c[2], c[3]} == {ATTEMPT, const(1)} for c, v in facts(p))


def until(p: Path, d: Term) -> bool:
    """The time until TIME, and no less than none."""
    ahead = {TIME: 1, "now": -1}
    if d[0] == "call" and d[1] == "max" and len(d[2]) == 2:
        return any(same_sum(linear(x), ahead) and linear(y) == {} for x, y in (d[2], d[2][::-1]))
    past = None
    for c, v in facts(p):
        if c[0] != "cmp" or c[1] != "<":
            continue
        a, b = linear(c[2]), linear(c[3])
        diff = {x: b.get(x, 0) - a.get(x, 0) for x in {*a, *b} if b.get(x, 0) - a.get(x, 0)}  # b - a > 0
        if same_sum(diff, {"now": 1, TIME: -1}):
            past = v
        if same_sum(diff, ahead):
            past = not v
    return past is not None and (linear(d) == {} if past else same_sum(linear(d), ahead))


# ------------------------------------------------------------------- perpetuals
A2: Term = ("sym", "next_args", None)
K2: Term = ("sym", "next_kwargs", None)


def lives(w: World, cls: str, act: str) -> list[Path]:
    """Paths of a perpetual task's run: resolved, told something by the task, completed. The value is (in the signature, resolved, result)."""
    c = w.prog.klass(cls)

    def body(it: Any) -> Term:
        fr, at = w.frame(c.module.name), c.node
        o = w.make(it, cls, **({"tz": ZONE} if cls == "Cron" else {}))
        it.emit(Event("mark", "enter", (o,)))
        v = w.call(it, o, f"{cls}.__aenter__")
        it.emit(Event("mark", "resolved", (v,)))
        if act == "perpetuate":
            it.call_term(it.get_attr(v, "perpetuate", fr, at), [("star", A2)], {"**0": K2}, fr, at)
        elif act in ("after", "at"):
            it.call_term(it.get_attr(v, act, fr, at), [SPAN if act == "after" else TIME], {}, fr, at)
        elif act == "cancel":
            it.call_term(it.get_attr(v, "cancel", fr, at), [], {}, fr, at)
        it.emit(Event("mark", "completing", (v,)))
        done = it.call_term(it.get_attr(v, "on_complete", fr, at), [it.heap[("ambient", "execution")], OUTCOME], {}, fr, at)
        return ("tuple", (o, v, it.await_(done, fr, at)))
    return paths(w, f"{cls}.on_complete after {act}", body)


def a_time(t: Term) -> bool:
    return t[0] == "call" and t[1] == "next" or t == TIME or bool(linear(t).get("now"))


def cut(p: Path, name: str) -> list[Event]:
    i = next((n for n, e in enumerate(p.trace) if e.kind == "mark" and e.name == name), 0)
    return p.trace[i:]


def nexts(p: Path) -> Term | None:
    """The time taken from the cron's iterator on completion."""
    es = [e for e in cut(p, "completing") if e.kind == "call" and e.name in ("next", "CronSim.__next__", "cronsim.CronSim.__next__")]
    return norm(es[-1].result) if len(es) == 1 else None


def c21(w: World, r: Report) -> None:
    r.explain.append("The life of a perpetual dependency (and of Cron) within a run is enumerated: resolved, told something by the task or not, completed with success or failure, down to the Redis commands of the schedule or cancellation.")
    again = r.rule("C21.again", "when a run ends, however it ends, its key is scheduled once more, as a first attempt of the same function; it is reported as handled")
    when = r.rule("C21.when", "the next run is at the time asked for, at the cron's next time, or the interval after the start of this run, but never before now")
    what = r.rule("C21.arguments", "the next run has the arguments given to perpetuate, and this run's otherwise")
    stop = r.rule("C21.stop", "a cancelled perpetual schedules nothing, withdraws what is pending under its key and leaves the outcome to be recorded")
    newer = r.rule("C21.superseded", "a superseded run schedules nothing")
    own = r.rule("C21.own", "a run resolves its own Perpetual and leaves the one in the signature alone")
    cron = r.rule("C21.cron", "a cron counts from the current time, in its time zone, by the expression or what its keyword stands for")
    for cls in ("Perpetual", "Cron"):
        for act in ("nothing", "perpetuate", "after", "at", "cancel"):
            homes = set()
            for p in lives(w, cls, act):
                where = f"{cls}.on_complete/{act}"
                if any(a_time(x) for c, v in facts(p) for x in ([c[1]] if c[0] == "truth" and not v else [y for y in c[2:4] if NONE in c[2:4]] if c[0] == "cmp" and c[1] == "==" and v else [])):
                    continue  # a time is never false
                if p.outcome == "raise":
                    r.require(False, again, where, f"raises {show(p.value)}", p)
                    continue
                o, v, result = p.value[1]
                fresh(r, own, where, p, o, v)
                d = Delta(cut(p, "completing"))
                m, at = home(d)
                puts = [e for e in d.writes if e.name in ("XADD", "ZADD")]
                if act == "cancel":
                    r.require(not puts, stop, where + "/schedules", "schedules another run although it was cancelled", p, puts[0] if puts else None)
                    r.require(d.zset.get(QUEUE, {}).get(KEY) == GONE, stop, where + "/withdrawn", "what is pending under the key stays", p)
                    r.require(no(p, result), stop, where + "/told", "takes over the outcome although nothing follows", p)
                    continue
                if stricken(p):
                    continue
                if m is None:
                    r.require(stale(p) is True, again, where + "/kept", "the chain ends although nothing superseded it", p)
                    r.require(not d.writes, newer, where + "/writes", "a superseded run writes", p, d.writes[0] if d.writes else None)
                    r.require(yes(p, result), newer, where + "/told", "the outcome of a superseded run is not taken over", p)
                    continue
                homes.add(at)
                if cls == "Cron":
                    made = [e for e in sims(p) if e in cut(p, "enter")]
                    r.require(bool(made) and len(arguments(made[-1])) > 1 and zoned(p, arguments(made[-1])[1]) and mentions(arguments(made[-1])[0], ("sym", "expression", "str")), cron, where + "/own",
                              "a run's cron does not count from the current time in the zone of the one in the signature, by its expression", p, made[-1] if made else None)
                r.require(len(puts) == 1, again, where + "/once", f"{len(puts)} runs are scheduled", p)
                r.require(current(p), newer, where + "/checked", "schedules without having found its key not to be superseded", p, puts[0] if puts else None)
                r.require(yes(p, result), again, where + "/told", "reports that nothing follows", p)
                r.require(norm(m.get(const("key"), NONE)) == KEY, again, where + "/key", f"the next run's key is {show(m.get(const('key'), NONE))}", p)
                f = m.get(const("function"), NONE)
                r.require(same_function(p, f), again, where + "/function", f"the next run's function is {show(f)}", p)
                r.require(number(m.get(const("attempt"), NONE)) == {None: 1}, again, where + "/attempt", f"the next run's attempt is {show(m.get(const('attempt'), NONE))}", p)
                for name, given, asked in (("args", ("sym", "args", None), A2), ("kwargs", ("sym", "kwargs", None), K2)):
                    x = m.get(const(name), NONE)
                    want = asked if act == "perpetuate" else given
                    other = given if act == "perpetuate" else asked
                    has = {y[1] for y in walk(norm(x)) if y[0] == "sym"}
                    r.require(want[1] in has and other[1] not in has, what, where + "/" + name, f"the next run's {name} are {show(x)}", p)
                t = stored_time(m)
                if cls == "Cron":
                    n = nexts(p)
                    r.require(n is not None and norm(t) == n, when, where + "/when", f"the next run is at {show(t)}, not at the next matching time", p)
                elif act == "at":
                    r.require(norm(t) == TIME, when, where + "/when", f"the next run is at {show(t)}", p)
                elif act == "after":
                    r.require(same_sum(linear(t), {"now": 1, SPAN: 1}), when, where + "/when", f"the next run is at {show(t)}", p)
                else:
                    r.require(due(p, t), when, where + "/when", f"the next run is at {show(t)}", p)
            if act != "cancel":
                r.require(homes == {"stream", "queue"}, again, f"{cls}.on_complete/{act}/homes", f"only {sorted(homes)} happen")
    words(w, r, cron)
    first_time(w, r, cron)
    for rule, n in ((again, 20), (when, 10), (what, 10), (stop, 6), (newer, 6), (own, 10), (cron, 8)):
        r.expect(rule, n)


NAME: Term = ("or", (("sym", "function_name", "str"), ("attr", ("sym", "function", "Callable[None,typing.Any]"), "__name__")))


def same_function(p: Path, f: Term) -> bool:
    """The name the run was scheduled as; that of its function only where the
    name is found to be no longer the function's."""
    f = norm(f)
    while f[0] == "or" and f[1][0][0] == "or":
        f = norm(f[1][0])
    if f == NAME:
        return True
    if f != ("attr", NAME[1][1][1], "__name__"):
        return False
    return any((c[0] == "cmp" and c[1] in ("==", "is", "in") or c[0] == "truth") and "tasks" in repr(c) and NAME in list(walk(c)) and not v for c, v in facts(p))


EVERY: Term = ("sym", "every", "datetime.timedelta")
SPENT: Term = ("attr", OUTCOME, "duration")


def due(p: Path, t: Term) -> bool:
    """An interval after the start of the run that just ended, and not before now."""
    t = norm(t)

    def on_time(x: Term) -> bool:
        d = linear(x)
        return d.get("now") == 1 and len(d) == 3 and any(v == 1 and y == EVERY for y, v in d.items()) and any(v == -1 and isinstance(y, tuple) and "duration" in repr(y) for y, v in d.items())

    def is_now(x: Term) -> bool:
        return linear(x) == {"now": 1}
    if t[0] == "call" and t[1] == "max" and len(t[2]) == 2:
        return any(is_now(a) and on_time(b) for a, b in (t[2], t[2][::-1]))
    if t[0] == "op" and t[1] == "+":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if is_now(a) and b[0] == "call" and b[1] == "max" and len(b[2]) == 2:
                for x, y in (b[2], b[2][::-1]):
                    if linear(x) == {} and on_time(("op", "+", ("now", 0), y)):
                        return True
    late = None
    for c, v in facts(p):
        if c[0] == "cmp" and c[1] == "<" and len({x for x in walk(c) if x[0] == "now"}) <= 1:
            a, b = linear(c[2]), linear(c[3])
            diff = {x: b.get(x, 0) - a.get(x, 0) for x in {*a, *b} if b.get(x, 0) - a.get(x, 0)}
            if len(diff) == 2 and any(x == EVERY for x in diff) and any(isinstance(x, tuple) and "duration" in repr(x) for x in diff):
                late = v if diff[EVERY] < 0 else not v
    if late is True:
        return is_now(t)
    return late is False and on_time(t)


WORDS = {"@yearly": "0 0 1 1 *", "@annually": "0 0 1 1 *", "@monthly": "0 0 1 * *", "@weekly": "0 0 * * 0", "@daily": "0 0 * * *", "@midnight": "0 0 * * *", "@hourly": "0 * * * *"}


def sims(p: Path) -> list[Event]:
    return [e for e in p.trace if e.kind in ("new", "call") and e.name.split(".")[-1] == "CronSim"]


def words(w: World, r: Report, rule: str) -> None:
    """What a Cron passes to the cron iterator."""
    for text in [*WORDS, None]:
        ex: Term = const(text) if text else ("sym", "expression", "str")

        def body(it: Any, ex: Term = ex, text: Any = text) -> Term:
            if text is None:
                for x in WORDS:
                    it.run.assume(("cmp", "==", ex, const(x)), False)
            k = w.prog.klass("Cron")
            return it.call_term(("class", k.qual), [], {"expression": ex, "automatic": TRUE, "tz": ZONE}, w.frame(k.module.name), k.node)
        for p in paths(w, f"Cron({text})", body):
            s = sims(p)
            where = f"Cron/{text or 'expression'}"
            if not r.require(len(s) >= 1, rule, where, "no cron iterator is made", p):
                continue
            a = arguments(s[-1])
            given = norm(a[0])
            want = const(WORDS[text]) if text else norm(ex)
            r.require(given == want or text is None and looked_up(given, ex), rule, where, f"the cron follows {show(given)}", p, s[-1])
            r.require(len(a) > 1 and zoned(p, a[1]), rule, where + "/start", f"the cron counts from {show(a[1]) if len(a) > 1 else 'nothing'}", p, s[-1])


def looked_up(t: Term, ex: Term) -> bool:
    """The expression itself, or what a table of keywords has for it."""
    if t[0] == "index":
        return norm(t[2]) == norm(ex)
    return t[0] == "call" and t[1] == "get" and len(t[2]) == 3 and norm(t[2][1]) == norm(ex) and norm(t[2][2]) == norm(ex)


ZONE: Term = ("sym", "zone", "datetime.tzinfo")


def zoned(p: Path, t: Term) -> bool:
    """The current time in the cron's time zone."""
    t = norm(t)
    if t[0] == "call" and str(t[1]).split(".")[-1] == "astimezone":
        return norm(t[2][0])[0] == "now" and norm(t[2][-1]) == ZONE
    return any(e.kind == "pure" and e.name == "now" and norm(e.result) == t and [norm(x) for x in arguments(e)] == [ZONE] for e in p.trace)


def first_time(w: World, r: Report, rule: str) -> None:
    """The first time of an automatic cron counts from when it is asked for."""
    c = w.prog.klass("Cron")

    def body(it: Any) -> Term:
        o = w.make(it, "Cron", tz=ZONE)
        it.emit(Event("mark", "asked", (o,)))
        return it.get_attr(o, "initial_when", w.frame(c.module.name), c.node)
    for p in paths(w, "Cron.initial_when", body):
        s = [e for e in sims(p) if e in cut(p, "asked")]
        r.require(bool(s), rule, "Cron.initial_when", "the first time is taken from an iterator made when the signature was", p)
        r.require(not s or len(arguments(s[-1])) > 1 and zoned(p, arguments(s[-1])[1]), rule, "Cron.initial_when/start", "the first time does not count from the current time in the cron's zone", p)
        r.require("next" in repr(p.value), rule, "Cron.initial_when/next", f"the first time is {show(p.value)}", p)


# ------------------------------------------------------------------- timeouts
EXTRA: Term = ("sym", "extra", "datetime.timedelta")
FUNCTION: Term = ("sym", "function", None)
WAITS = ("asyncio.wait_for", "asyncio.wait")


def clock(it: Any, fn: Term, args: list, kwargs: dict, fr: Any, at: Any) -> Term:
    n = it.heap.get(("clock", "readings"), 0) + 1
    it.heap[("clock", "readings")] = n
    t: Term = ("sym", f"clock{n}", "float")
    it.emit(Event("mark", "clock", (t,)))
    return t


def wait_faults(e: Event, trace: list[Event]) -> list[str]:
    threw = [x for x in trace if x.kind == "throw"]
    if len(threw) == 1 and threw[0].name == "TimeoutError" and e.kind == "await" and e.name == "task" and not any(x.name.endswith("Task.cancel") for x in trace):
        return ["TimeoutError"]  # the task's own
    if threw:
        return []
    if e.kind == "call" and e.name == "asyncio.wait_for":
        return ["TimeoutError", "asyncio.CancelledError", "ValueError"]
    if e.kind == "call" and e.name == "asyncio.wait":
        return ["asyncio.CancelledError"]
    if e.kind == "await" and e.name == "task":
        return ["ValueError"]
    return []


def asks_done(e: Event) -> bool:
    return e.kind == "branch" and e.args[0][0] == "truth" and e.args[0][1][0] == "call" and str(e.args[0][1][1]).split(".")[-1] == "done"


def running_state(trace: list[Event]) -> bool | None:
    """What is known about the task being done at the end of a trace; None: it may have changed."""
    now: bool | None = None
    for i, e in enumerate(trace):
        if e.kind == "call" and last(e) == "create_task":
            now = False
        if asks_done(e):
            now = bool(e.result)
        elif e.kind == "await" and e.name == "task":
            now = True
        elif e.kind == "call" and e.name == "asyncio.wait_for":
            t = trace[i + 1] if i + 1 < len(trace) else None
            if now is not True:
                now = None if t is not None and t.kind == "throw" and t.name != "ValueError" else True
        elif e.kind == "call" and (e.name == "asyncio.wait" or last(e) == "sleep"):
            now = now if now is True else None
    return now


def impossible(e: Event, trace: list[Event]) -> bool:
    """A task found done that was just found running, with nothing awaited in between, or running again."""
    if not asks_done(e):
        return False
    i = next((n for n in range(len(trace) - 1, -1, -1) if trace[n] is e), len(trace))
    was = running_state(trace[:i])
    return was is not None and was != bool(e.result)


def c37(w: World, r: Report) -> None:
    r.explain.append("Every path of Timeout.run, round its loop up to three times, is enumerated with the task finishing, failing, raising TimeoutError itself, extending its timeout, or the run being cancelled at each wait.")
    once = r.rule("C37.once", "the function is started once, with the arguments given, and its own result or failure (a TimeoutError of its own included) is the run's")
    late = r.rule("C37.late", "the run is timed out exactly when the deadline has passed and the task is still running")
    stop = r.rule("C37.stopped", "a task still running when the run ends is cancelled and waited for, whatever ends the run")
    line = r.rule("C37.deadline", "the deadline is the base after the start, later by every extension; each wait lasts until then and leaves the task running")
    own = r.rule("C37.own", "a run resolves its own Timeout and leaves the one in the signature alone")

    def extending(it: Any, fn: Term, args: list, kwargs: dict, fr: Any, at: Any) -> None:
        o = it.heap[("ambient", "timeout")]
        if ("clock", "extended") not in it.heap and it.heap[("ambient", "extends")]:
            it.heap[("clock", "extended")] = True
            it.call_term(it.get_attr(o, "extend", fr, at), [EXTRA] if it.heap[("ambient", "extends")] == "by" else [], {}, fr, at)
            it.emit(Event("mark", "extended", (EXTRA if it.heap[("ambient", "extends")] == "by" else SPAN,)))

    for extends in ("", "by", "base"):
        def body(it: Any, extends: str = extends) -> Term:
            o = w.make(it, "Timeout", base=SPAN)
            it.heap[("ambient", "timeout")] = o
            it.heap[("ambient", "extends")] = extends
            return ("tuple", (o, w.call(it, o, "Timeout.run", [it.heap[("ambient", "execution")], FUNCTION, ("sym", "args", None), ("sym", "kwargs", None)])))

        def within(it: Any, body: Any = body) -> Term:
            it.heap[("ambient", "execution")] = w.execution(it)
            it.run.assume(("cmp", "==", EXTRA, NONE), False)
            it.run.assume(("truth", EXTRA), True)
            return body(it)
        hooks = dict(ambient(w))
        hooks["time.monotonic"] = clock
        for n in WAITS:
            hooks[n] = extending
        for p in w.paths(f"Timeout.run {extends}", within, inline=lambda f: f.name not in BOUNDARY, hooks=hooks, raises=wait_faults, whiles=3, prune=impossible):
            where = "Timeout.run"
            if p.outcome == "cut":
                continue
            starts = [e for e in p.trace if e.kind == "call" and e.extra == "opaque" and e.name == "function"]
            if r.require(len(starts) == 1, once, where + "/once", f"the function is called {len(starts)} times", p):
                got = [norm(x) for x in arguments(starts[0])]
                r.require(got == [("star", ("sym", "args", None)), ("sym", "kwargs", None)], once, where + "/arguments", f"the function is given {[show(x) for x in got]}", p, starts[0])
            done = running_state(p.trace)
            stopped = [e for e in p.trace if e.kind == "call" and e.name.endswith("Task.cancel")]
            threw = [e for e in p.trace if e.kind == "throw"]
            gone = bool(stopped) and any(e.kind == "await" and e.name == "task" for e in p.trace[p.trace.index(stopped[0]):])
            r.require(done is True and (gone or not stopped), stop, where, "the task is left running", p, threw[0] if threw else None)
            before_cancel = running_state(p.trace[:p.trace.index(stopped[0])]) if stopped else True
            r.require(not stopped or before_cancel is not True, stop, where + "/finished", "a task that has finished is cancelled", p, stopped[0] if stopped else None)
            over = expired(p)
            mine = p.outcome == "raise" and "TimeoutError" in repr(p.value) and not any(norm(e.args[0]) == norm(p.value) for e in threw)
            if mine:
                r.require(over is True and bool(stopped), late, where + "/early", "timed out without having found the deadline passed with the task running", p)
            if over is True and running_state(upto_expiry(p)) is False and not threw_later(p):
                r.require(mine, late, where + "/missed", f"a task past its deadline ends with {show(p.value)}", p)
            if threw and not mine:
                e = threw[-1]
                if e.name != "TimeoutError" or len(threw) > 1:
                    r.require(p.outcome == "raise" and norm(p.value) == norm(e.args[0]), stop if "Cancelled" in e.name else once, where + "/passed-on", f"{e.name} becomes {show(p.value)}", p, e)
            if p.outcome == "ok" and over is not True:
                v = norm(p.value[1][1])
                r.require("function" in repr(v) and ("task" in repr(v)), once, where + "/result", f"the result is {show(v)}", p)
            for i, e in enumerate(p.trace):
                if is_expiry(e) is not None:
                    a, b = linear(e.args[0][2]), linear(e.args[0][3])
                    d = {x: b.get(x, 0) - a.get(x, 0) for x in {*a, *b} if b.get(x, 0) - a.get(x, 0)}
                    k = 1 if d.get(SPAN, 0) > 0 else -1
                    r.require(same_sum({x: k * v for x, v in d.items()}, left(p, i)), late, where + "/compared", f"the deadline is compared as {show(e.args[0])}", p, e)
                if e.kind == "call" and e.name in WAITS:
                    r.require(running_state(p.trace[:i]) is False, late, where + "/waiting", "waits for a task that may have finished", p, e)
                    t = e.kw("timeout") or (e.args[1] if len(e.args) > 1 else NONE)
                    r.require("shield" in repr(e.args[0]) or e.name == "asyncio.wait", line, where + "/shield", "waiting cancels the task when the wait ends", p, e)
                    r.require(same_sum(linear(t), left(p, i)), line, where + "/remaining", f"waits for {show(t)}", p, e)
    hooks = dict(ambient(w))
    hooks["time.monotonic"] = clock

    def resolve(it: Any) -> Term:
        o = w.make(it, "Timeout", base=SPAN)
        it.emit(Event("mark", "enter", (o,)))
        return ("tuple", (o, w.call(it, o, "Timeout.__aenter__")))
    for p in paths(w, "Timeout.__aenter__", resolve):
        o, v = p.value[1]
        fresh(r, own, "Timeout.__aenter__", p, o, v)
        r.require(norm(field(p, v, "base")) == SPAN, own, "Timeout.__aenter__/base", f"its base is {show(field(p, v, 'base'))}", p)
    for rule, n in ((once, 20), (late, 4), (stop, 20), (line, 8), (own, 2)):
        r.expect(rule, n)


def clocks(es: list[Event]) -> list[Term]:
    return [e.args[0] for e in es if e.kind == "mark" and e.name == "clock"]


def left(p: Path, i: int) -> dict[Any, float]:
    """The time left at an event: the base since the start, and extensions, up to the last reading of the clock."""
    es = p.trace[:i]
    cs = clocks(es)
    d: dict[Any, float] = {SPAN: 1.0}
    for t, k in ((cs[0], 1.0), (cs[-1], -1.0)) if cs else ():
        d[t] = d.get(t, 0) + k
    read = max((n for n, e in enumerate(es) if e.kind == "mark" and e.name == "clock"), default=0)
    for e in es[:read]:
        if e.kind == "mark" and e.name == "extended":
            d[e.args[0]] = d.get(e.args[0], 0) + 1.0
    return {x: v for x, v in d.items() if v}


def expired(p: Path) -> bool | None:
    """The last answer to whether the deadline has passed."""
    got = [e for e in p.trace if is_expiry(e) is not None]
    return is_expiry(got[-1]) if got else None


def upto_expiry(p: Path) -> list[Event]:
    got = [n for n, e in enumerate(p.trace) if is_expiry(e) is not None]
    return p.trace[:got[-1] + 1]


def threw_later(p: Path) -> bool:
    n = len(upto_expiry(p))
    return any(e.kind == "throw" for e in p.trace[n:])


def is_expiry(e: Event) -> bool | None:
    if e.kind != "branch" or e.args[0][0] != "cmp" or e.args[0][1] != "<" or "clock" not in repr(e.args[0]):
        return None
    a, b = linear(e.args[0][2]), linear(e.args[0][3])
    d = {x: b.get(x, 0) - a.get(x, 0) for x in {*a, *b} if b.get(x, 0) - a.get(x, 0)}  # b - a
    span = d.get(SPAN, 0)
    if span > 0:  # now < deadline
        return not e.result
    return bool(e.result) if span < 0 else None


# ------------------------------------------------------------------- automatic perpetuals
LOOKUP = "get_single_dependency_parameter_of_type"
SEED_EDGE = {"add", LOOKUP, "wait_for_strikes_loaded", "next_time", "_log_context"}


def lookup(t: Term) -> bool:
    return t[0] == "call" and str(t[1]).endswith(LOOKUP)


def c40(w: World, r: Report) -> None:
    r.explain.append("Every path of the seeding of automatic perpetual tasks is enumerated for up to two registered functions, with every state of their keys and with the lock taken by another worker; so are the paths of the reseeding loop, with failures, and of the worker's start.")
    seed = r.rule("C40.seed", "each registered function with an automatic Perpetual whose key is neither pending nor running is added under its name, at the Perpetual's first time, without arguments; nothing else is")
    struck = r.rule("C40.strikes", "nothing is seeded before the strikes are known")
    again = r.rule("C40.again", "seeding is repeated until the worker stops, whatever becomes of one attempt; another worker doing it is no failure")
    start = r.rule("C40.start", "a worker that schedules automatic tasks seeds them, and starts reseeding, before it takes its first task; one that does not never seeds")

    def taken(e: Event, trace: list[Event]) -> list[str]:
        return ["redis.exceptions.LockError"] if e.kind == "cm" and e.name.startswith("enter") and "lock" in e.name else []
    added = set()
    for p in w.paths("Worker.seed", lambda it: w.call(it, w.worker(it), "Worker._schedule_all_automatic_perpetual_tasks"), inline=lambda f: f.name not in SEED_EDGE, elements=2, loop=2, raises=taken):
        where = "automatic tasks"
        if p.outcome == "raise":
            r.require(False, again, where + "/raises", f"raises {show(p.value)}", p)
            continue
        adds = [e for e in p.trace if e.kind == "call" and e.name.endswith("Docket.add") and e.kw("function") is not None]
        waited = next((n for n, e in enumerate(p.trace) if e.kind == "call" and e.name.endswith("wait_for_strikes_loaded")), None)
        targets = {norm(x[2][0]) for c, _ in facts(p) for x in walk(c) if lookup(x)}
        n = max([int(e.name) for e in p.trace if e.kind == "loop" and "tasks" in repr(e.args) and str(e.name).isdigit()], default=0)
        r.require(len(targets) >= n, seed, where + "/rest", "the functions after one are not looked at", p)
        for f in targets:
            is_p = auto = None
            for c, v in facts(p):
                if c[0] == "cmp" and c[1] == "==" and NONE in c[2:4] and any(lookup(x) and norm(x[2][0]) == f for x in c[2:4]):
                    is_p = not v
                if c[0] == "truth" and lookup(c[1]) and norm(c[1][2][0]) == f:
                    is_p = v
                if c[0] == "truth" and c[1][0] == "attr" and c[1][2] == "automatic" and lookup(c[1][1]) and norm(c[1][1][2][0]) == f:
                    auto = v
            mine = [e for e in adds if norm(e.kw("function")) == f]
            name: Term = ("attr", f, "__name__")
            live = present(p, runs(name), "known") is True or any(v and c[0] == "cmp" and c[1] == "==" and const("running") in c[2:4] and mentions(c, name) for c, v in facts(p))
            free = present(p, runs(name), "known") is False and any(not v and c[0] == "cmp" and c[1] == "==" and "running" in repr(c) and mentions(c, name) for c, v in facts(p))
            if is_p is False or auto is False:
                r.require(not mine, seed, where + "/other", "a task that is not automatic is seeded", p, mine[0] if mine else None)
                continue
            if live:
                r.require(not mine, seed, where + "/live", "a task that is pending or running is seeded", p, mine[0] if mine else None)
                continue
            if is_p is None or auto is None:
                r.require(not mine, seed, where + "/unchecked", "a task is seeded without being known to be automatic", p, mine[0] if mine else None)
                continue
            if not r.require(len(mine) == 1, seed, where + "/free", "an automatic task whose key is free is not seeded" if free or not mine else "seeded more than once", p):
                continue
            e = mine[0]
            added.add(f)
            r.require(norm(e.kw("key") or NONE) == name, seed, where + "/key", f"seeded under {show(e.kw('key') or NONE)}", p, e)
            t = e.kw("when") or NONE
            r.require("initial_when" in repr(t) and any(lookup(x) and norm(x[2][0]) == f for x in walk(norm(t))), seed, where + "/when", f"seeded for {show(t)}", p, e)
            done = [x for x in p.trace[p.trace.index(e) + 1:] if x.kind == "call" and "Docket.add(" in x.name and show(f) in x.name]
            r.require(len(done) == 1 and not arguments(done[0]), seed, where + "/called", "the scheduling is prepared but not carried out, or given arguments", p, e)
            r.require(waited is not None and waited < p.trace.index(e), struck, where + "/strikes", "seeded before the strikes were loaded", p, e)
    r.require(len(added) >= 2, seed, "automatic tasks/all", "seeding stops after the first function")

    # the loop that repeats it
    def fails(e: Event, trace: list[Event]) -> list[str]:
        return ["Exception"] if e.kind == "call" and e.name.endswith("_schedule_all_automatic_perpetual_tasks") else []
    rounds = set()
    for p in w.paths("Worker.reseed", lambda it: w.call(it, w.worker(it), "Worker._reseed_automatic_perpetual_tasks_loop"),
                     inline=lambda f: f.name not in SEED_EDGE | {"_schedule_all_automatic_perpetual_tasks", "_wait_for_event"}, whiles=3, raises=fails):
        where = "reseeding"
        if any(c[0] == "cmp" and c[1] == "==" and NONE in c[2:4] and "session" in repr(c) and v for c, v in facts(p)):
            continue
        if p.outcome == "raise":
            r.require(False, again, where + "/ends", f"a failed attempt ends the reseeding ({show(p.value)})", p)
            continue
        calls_ = [e for e in p.trace if e.kind == "call" and e.name.endswith("_schedule_all_automatic_perpetual_tasks")]
        rounds.add(len(calls_))
        stops = any(v and c[0] == "truth" and ("_wait_for_event" in repr(c) or "is_set" in repr(c)) for c, v in facts(p)) or p.outcome == "cut"
        r.require(stops, again, where + "/until-stopped", "the reseeding ends although the worker is not stopping", p)
    r.require(max(rounds, default=0) >= 2, again, "reseeding/repeats", "the seeding is not repeated")

    # the worker's start
    from .loop import NO_CLASSES, OPAQUE

    def begun(on: bool) -> list[Path]:
        def body(it: Any) -> Term:
            it.run.assume(("truth", ("attr", ("sym", "worker", "docket.worker.Worker"), "schedule_automatic_tasks")), on)
            return w.call(it, w.worker(it), "Worker._worker_loop", [("sym", "redis", "RedisClient")])

        def polls(e: Event, trace: list[Event]) -> bool:
            return e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM")

        def skip(e: Event, trace: list[Event]) -> bool:
            return e.kind == "call" and e.name.endswith("._wait_for_event")
        return w.paths(f"Worker._worker_loop(automatic {on})", body, inline=lambda f: f.name not in OPAQUE, cut=polls, prune=skip, hooks=NO_CLASSES, budget=60000)
    for on in (True, False):
        n = 0
        for p in begun(on):
            seeds = [i for i, e in enumerate(p.trace) if e.kind in ("call", "spawn") and e.name.endswith("_schedule_all_automatic_perpetual_tasks")]
            loops_ = [i for i, e in enumerate(p.trace) if e.kind == "spawn" and e.name.endswith("_reseed_automatic_perpetual_tasks_loop")]
            polled = [i for i, e in enumerate(p.trace) if e.kind == "redis" and e.name in ("XREADGROUP", "XAUTOCLAIM")]
            if not on:
                r.require(not seeds and not loops_, start, "worker/not-automatic", "automatic tasks are seeded although they are not to be", p)
                continue
            if polled or p.outcome == "cut":
                n += 1
                r.require(bool(seeds), start, "worker/seed", "takes tasks before seeding the automatic ones", p)
                r.require(bool(loops_), start, "worker/reseed", "takes tasks without reseeding running", p)
        if on:
            r.require(n > 0, start, "worker/polls", "no path reaches the first poll")
    for rule, n in ((seed, 10), (struck, 2), (again, 4), (start, 4)):
        r.expect(rule, n)
