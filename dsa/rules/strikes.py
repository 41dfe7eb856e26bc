"""Strikes: gating, evaluation, distribution."""
from __future__ import annotations

from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event, eq, lt, negate, truth
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, walk
from .common import enum_is, facts, last_assign, mentions
from .running import arguments, before, calls, last

FN = "fn"
A: Term = ("sym", "a", None)
B: Term = ("sym", "b", None)
V: Term = ("sym", "v", None)
U: Term = ("sym", "u", None)
WITH = {A, B}
OPS = ("EQUAL", "NOT_EQUAL", "GREATER_THAN", "GREATER_THAN_OR_EQUAL", "LESS_THAN", "LESS_THAN_OR_EQUAL", "BETWEEN")


def relation(op: str, a: Term, v: Term) -> Term:
    lo, hi = ("index", v, const(0)), ("index", v, const(1))
    return {"EQUAL": eq(a, v), "NOT_EQUAL": negate(eq(a, v)), "GREATER_THAN": lt(v, a), "GREATER_THAN_OR_EQUAL": negate(lt(a, v)), "LESS_THAN": lt(a, v),
            "LESS_THAN_OR_EQUAL": negate(lt(v, a)), "BETWEEN": ("and", (negate(lt(a, lo)), negate(lt(hi, a))))}[op]


def holds(p: Path, c: Any) -> bool | None:
    """Whether a formula holds on a path: terms, booleans, ("any", ...)."""
    if isinstance(c, bool):
        return c
    if c[0] == "any":
        vs = [holds(p, x) for x in c[1:]]
        return True if True in vs else None if None in vs else False
    if c[0] == "and":
        vs = [holds(p, x) for x in c[1]]
        return False if False in vs else None if None in vs else True
    return p.fact(c)


def c09(w: World, r: Report) -> None:
    r.explain.append("The strike list is analysed with the effects of a few instructions composed: after them, the verdict on every path (argument and strike values unknown, every comparison also failing) is "
                     "compared with the relation the instructions name.")
    table = r.rule("C09.operators", "an argument matches a strike exactly when it stands in the strike's relation to its value; an argument that cannot be compared does not match")
    scope = r.rule("C09.scope", "a strike applies to its task and parameter only: the whole task, one parameter of it, or one parameter of any task; to arguments passed by position, by name or left to their defaults")
    undo = r.rule("C09.restore", "a restoration withdraws exactly the strike it names, and nothing else")
    cond = r.rule("C09.conditions", "an execution is stricken if any condition says so, and a removed condition is not consulted")
    wire = r.rule("C09.message", "an instruction read back from its message is the same instruction")
    bad = r.rule("C09.incomparable", "values that cannot be compared or used, and calls that cannot be bound, strike nothing and raise nothing")
    cls = w.prog.klass("Operator")

    def ins(it: Any, kind: str, fn: str | None, par: str | None, op: str = "EQUAL", v: Term = V) -> Term:
        return w.make(it, kind, function=const(fn), parameter=const(par), operator=it.enum_member(cls, op), value=v)

    def run(name: str, todo: list[tuple], expect: Any, rule: str, args: dict[str, Term] | None = None, target: str = "execution", bind: str = "ok", before_: Any = None,
            kwargs: dict[str, Term] | None = None, defaults: dict[str, Term] | None = None, unhashable: bool = False) -> None:
        given = {"p": A, "q": B} if args is None else args

        def hook_bind(it: Any, recv: Term, a: list, kw: dict, fr: Any, at: Any) -> Term | None:
            if bind == "fails":
                it.throw("TypeError")
            if target == "execution" and kwargs is None:
                it.emit(Event("mark", "bound", (("tuple", tuple(norm(it.freeze(x)) for x in a)), ("tuple", tuple(("tuple", (const(k), norm(it.freeze(v)))) for k, v in kw.items())))))
            b: Term = ("sym", "bound", "inspect.BoundArguments")
            it.heap[(b, "arguments")] = it.new_dict([(const(k), v) for k, v in given.items()])
            return b

        def hook_defaults(it: Any, recv: Term, a: list, kw: dict, fr: Any, at: Any) -> Term | None:
            d = it.obj(it.heap.get((norm(recv), "arguments"), NONE))
            if d is not None:
                have = {norm(k) for k, _ in d["items"]}
                d["items"] += [(const(k), v) for k, v in (defaults or {}).items() if const(k) not in have]
            return NONE

        def body(it: Any) -> Term:
            sl = w.make(it, "StrikeList", url=NONE)
            for x in todo:
                w.call(it, sl, "StrikeList.update", [ins(it, *x)])
            if before_ is not None:
                before_(it, sl)
            if target == "execution":
                t = w.execution(it, function_name=const(FN), kwargs=it.new_dict([(const(k), v) for k, v in (kwargs if kwargs is not None else given).items()]), args=("sym", "args", None))
            else:
                t = it.new_dict([(const(k), v) for k, v in given.items()])
            v = w.call(it, sl, "StrikeList.is_stricken", [t])
            return const(it.run.decide(it.truth_of(v)))

        def raises(e: Event, trace: list[Event]) -> list[str]:
            if e.kind == "compare":
                return ["TypeError"]
            return []

        ps = w.paths("strikes(" + name + ")", body, inline=lambda f: f.name not in ("get_signature",), summarise=lambda f: False, exact=True, hooks={".bind": hook_bind, ".apply_defaults": hook_defaults},
                     compares=lambda x, y: x in WITH or y in WITH, raises=raises, faults=1, budget=8000,
                     unhashable=frozenset({V}) if unhashable else frozenset())
        for p in ps:
            where = "StrikeList/" + name
            for e in p.trace:
                if e.kind == "mark" and e.name == "bound":
                    kw = {x[1][0][1].strip("*0123456789"): x[1][1] for x in e.args[1][1]}
                    r.require(e.args[0] == ("tuple", (("star", ("sym", "args", None)),)) and (kw == given or len(kw) == 1 and "" in kw and mentions(kw[""], A)), rule, where + "/bound",
                              f"the parameters compared are those of a call with {show(e.args[0])[:60]} and {show(e.args[1])[:60]}", p, e)
            if not r.require(p.outcome == "ok", bad, where, f"deciding whether an execution is stricken raises {show(p.value)}", p):
                continue
            th = [e for e in p.trace if e.kind == "throw"]
            if th:
                # one comparison failed: that strike does not match, others may
                want = holds(p, expect) if isinstance(expect, tuple) and expect[0] == "any" and any(holds(p, x) for x in expect[1:]) else False if not isinstance(expect, bool) else expect
                if expect is True:
                    want = True
                r.require((p.value == TRUE) == bool(want), bad, where, f"an argument that cannot be compared makes the verdict {show(p.value)}", p)
                continue
            want = holds(p, expect)
            r.require(want is not None and (p.value == TRUE) == want, rule, where, f"the verdict is {show(p.value)}, the instructions say {'unknown' if want is None else want}", p)
        r.require(bool(ps), rule, "StrikeList/" + name, "no verdict is ever reached")

    for op in OPS:
        run(f"task parameter {op}", [("Strike", FN, "p", op)], relation(op, A, V), table)
    run("any task's parameter ==", [("Strike", None, "p", "EQUAL")], relation("EQUAL", A, V), scope)
    run("any task's parameter <", [("Strike", None, "p", "LESS_THAN")], relation("LESS_THAN", A, V), scope)
    run("whole task", [("Strike", FN, None)], True, scope)
    run("another task", [("Strike", "other", None)], False, scope)
    run("another task's parameter", [("Strike", "other", "p")], False, scope)
    run("another parameter", [("Strike", FN, "r")], False, scope)
    run("another parameter of any task", [("Strike", None, "r")], False, scope)
    run("two parameters", [("Strike", FN, "p"), ("Strike", FN, "q", "LESS_THAN", U)], ("any", relation("EQUAL", A, V), relation("LESS_THAN", B, U)), scope)
    run("two strikes of a parameter", [("Strike", FN, "p"), ("Strike", FN, "p", "GREATER_THAN", U)], ("any", relation("EQUAL", A, V), relation("GREATER_THAN", A, U)), scope)
    run("task and any task", [("Strike", FN, "p"), ("Strike", None, "p", "GREATER_THAN", U)], ("any", relation("EQUAL", A, V), relation("GREATER_THAN", A, U)), scope)
    run("default value", [("Strike", FN, "p")], relation("EQUAL", A, V), scope, args={"q": B}, defaults={"p": A})
    run("catch-all argument", [("Strike", FN, "p")], relation("EQUAL", A, V), scope, args={"kw": ("sym", "rest", None)}, kwargs={"p": A})
    run("no strikes", [], False, scope)
    run("mapping", [("Strike", None, "p")], relation("EQUAL", A, V), scope, target="mapping")
    run("mapping, another", [("Strike", None, "r"), ("Strike", FN, None)], False, scope, target="mapping")
    run("mapping, later parameter", [("Strike", None, "q")], relation("EQUAL", B, V), scope, target="mapping")
    run("later parameter", [("Strike", FN, "q")], relation("EQUAL", B, V), scope)
    run("later parameter of any task", [("Strike", None, "q"), ("Strike", FN, "r")], relation("EQUAL", B, V), scope)
    run("mapping, two", [("Strike", None, "p"), ("Strike", None, "q", "LESS_THAN", U)], ("any", relation("EQUAL", A, V), relation("LESS_THAN", B, U)), scope, target="mapping")

    run("restored task", [("Strike", FN, None), ("Restore", FN, None)], False, undo)
    run("restored twice struck task", [("Strike", FN, None), ("Strike", FN, None), ("Restore", FN, None)], False, undo)
    run("task restored, parameter not", [("Strike", FN, "p"), ("Strike", FN, None), ("Restore", FN, None)], relation("EQUAL", A, V), undo)
    run("parameter restored, task not", [("Strike", FN, None), ("Strike", FN, "p"), ("Restore", FN, "p")], True, undo)
    run("parameter restored", [("Strike", FN, "p"), ("Restore", FN, "p")], False, undo)
    run("parameter restored after two strikes", [("Strike", FN, "p"), ("Strike", FN, "p"), ("Restore", FN, "p")], False, undo)
    run("one of two restored", [("Strike", FN, "p"), ("Strike", FN, "p", "GREATER_THAN", U), ("Restore", FN, "p")], relation("GREATER_THAN", A, U), undo)
    run("one parameter of two restored", [("Strike", FN, "p"), ("Strike", FN, "q", "GREATER_THAN", U), ("Restore", FN, "p")], relation("GREATER_THAN", B, U), undo)
    run("any task's parameter restored", [("Strike", None, "p"), ("Restore", None, "p")], False, undo)
    run("one of any task's two restored", [("Strike", None, "p"), ("Strike", None, "p", "GREATER_THAN", U), ("Restore", None, "p")], relation("GREATER_THAN", A, U), undo)
    run("task's restored, any task's not", [("Strike", None, "p"), ("Strike", FN, "p"), ("Restore", FN, "p")], relation("EQUAL", A, V), undo)
    run("any task's restored, task's not", [("Strike", None, "p"), ("Strike", FN, "p"), ("Restore", None, "p")], relation("EQUAL", A, V), undo)
    run("other operator restored", [("Strike", FN, "p", "GREATER_THAN"), ("Restore", FN, "p", "GREATER_THAN_OR_EQUAL")], relation("GREATER_THAN", A, V), undo)
    run("other task restored", [("Strike", FN, None), ("Restore", "other", None), ("Restore", "other", "p"), ("Restore", None, "p")], True, undo)
    run("restored before struck", [("Restore", FN, "p"), ("Restore", FN, None), ("Restore", None, "p"), ("Strike", FN, "p")], relation("EQUAL", A, V), undo)
    run("struck again", [("Strike", FN, "p"), ("Restore", FN, "p"), ("Strike", FN, "p")], relation("EQUAL", A, V), undo)
    run("task struck again", [("Strike", FN, None), ("Restore", FN, None), ("Strike", FN, None)], True, undo)

    run("unbindable call", [("Strike", FN, "p"), ("Strike", None, "q")], False, bad, bind="fails")
    run("unbindable call of a struck task", [("Strike", FN, None)], True, bad, bind="fails")
    run("unusable value", [("Strike", FN, "p")], False, bad, unhashable=True)
    run("unusable value of any task", [("Strike", None, "p", "LESS_THAN")], False, bad, unhashable=True)
    run("unusable value among others", [("Strike", FN, "p"), ("Strike", FN, "q", "LESS_THAN", U), ("Restore", FN, "p"), ("Restore", None, "p")], relation("LESS_THAN", B, U), bad, unhashable=True)

    said: Term = ("sym", "condition", None)

    def add(it: Any, sl: Term) -> None:
        w.call(it, sl, "StrikeList.add_condition", [said])

    def gone(it: Any, sl: Term) -> None:
        w.call(it, sl, "StrikeList.add_condition", [said])
        w.call(it, sl, "StrikeList.remove_condition", [said])

    for name, prep, todo in (("added condition", add, [("Strike", FN, None)]), ("added condition alone", add, []), ("removed condition", gone, [("Strike", FN, None)]), ("removed condition alone", gone, [])):
        def body(it: Any, prep: Any = prep, todo: Any = todo) -> Term:
            sl = w.make(it, "StrikeList", url=NONE)
            for x in todo:
                w.call(it, sl, "StrikeList.update", [ins(it, *x)])
            prep(it, sl)
            t = w.execution(it, function_name=const(FN))
            return const(it.run.decide(it.truth_of(w.call(it, sl, "StrikeList.is_stricken", [t]))))
        for p in w.paths("strikes(" + name + ")", body, inline=lambda f: f.name != "get_signature", exact=True, budget=2000):
            where = "StrikeList/" + name
            asked = [v for c, v in facts(p) if c[0] == "truth" and c[1][0] == "call" and c[1][1] == "condition"]
            if "removed" in name:
                r.require(not asked, cond, where, "a removed condition is still consulted", p)
            want = bool(todo) or any(asked)
            r.require(p.outcome == "ok" and (p.value == TRUE) == want, cond, where, f"the verdict is {show(p.value)}", p)

    for kind in ("Strike", "Restore"):
        for fn, par in ((FN, "p"), (FN, None), (None, "p")):
            def body(it: Any, kind: str = kind, fn: Any = fn, par: Any = par) -> Term:
                x = ins(it, kind, fn, par, "LESS_THAN")
                y = w.call(it, None, "StrikeInstruction.from_message", [w.call(it, x, "StrikeInstruction.as_message")])
                at = w.prog.klass("Strike").node
                fr = w.frame("docket.strikelist")
                return ("tuple", (y, *(it.get_attr(y, a, fr, at) for a in ("function", "parameter", "operator", "value", "direction"))))
            for p in w.paths(f"message({kind} {fn} {par})", body, inline=lambda f: True, summarise=lambda f: False, exact=True, budget=2000):
                where = f"StrikeInstruction/{kind}"
                if not r.require(p.outcome == "ok", wire, where, f"reading an instruction back raises {show(p.value)}", p):
                    continue
                y, f2, p2, o2, v2, d2 = p.value[1]
                o2 = o2[3] if o2[0] == "enum" and len(o2) > 3 else o2
                r.require(y[0] == "inst" and y[1].endswith("." + kind), wire, where + "/kind", f"a {kind} is read back as {show(y)}", p)
                r.require((norm(f2), norm(p2)) == (const(fn), const(par)), wire, where + "/target", f"{fn}, {par} is read back as {show(f2)}, {show(p2)}", p)
                r.require(norm(o2) == const("<"), wire, where + "/operator", f"the operator is read back as {show(o2)}", p)
                r.require(norm(v2) == V, wire, where + "/value", f"the value is read back as {show(v2)}", p)
    for rule in (table, scope, undo, cond, wire, bad):
        r.expect(rule, 4)


# --------------------------------------------------------------------- gating
def asked(p: Path) -> list[Event]:
    return [e for e in p.trace if e.kind == "call" and last(e) == "is_stricken"]


def c08(w: World, r: Report) -> None:
    from ..delta import Delta
    from .common import known_key, scheduling_paths, stream_id_key, stricken, runs
    from .running import MARKS, execute_paths, is_body

    r.explain.append("Every path of Docket.add, replace and schedule and of Worker._execute is enumerated; what it does is compared with the strike list's verdict on that path.")
    gate = r.rule("C08.schedule", "every scheduling asks whether its execution is stricken before it writes anything, and writes nothing if it is")
    told = r.rule("C08.told", "a stricken task is reported as struck, an unstricken one never")
    run = r.rule("C08.run", "a delivery is not claimed and its function not called unless it was found not to be stricken")
    end = r.rule("C08.end", "a stricken delivery is ended as cancelled, and its key made schedulable")
    free = r.rule("C08.free", "nothing but the verdict keeps a task from being scheduled or claimed")
    for how in ("add", "replace", "schedule"):
        seen = set()
        for p in scheduling_paths(w, how):
            where = f"Docket.{how}"
            d = Delta(p.trace)
            v = stricken(p)
            seen.add(v)
            disp = last_assign(p, "disposition")
            calls_ = [e for e in p.trace if e.kind == "script" or e.kind == "redis"]
            if v:
                r.require(not d.writes, gate, where + "/writes", "a stricken task is written", p, d.writes[0] if d.writes else None)
                r.require(p.outcome == "ok", gate, where + "/raises", "scheduling a stricken task raises", p)
                r.require(enum_is(disp, "Disposition", "STRUCK"), told, where + "/struck", f"the disposition of a stricken task is {show(disp) if disp else None}", p)
                continue
            r.require(not enum_is(disp, "Disposition", "STRUCK"), told, where, "an unstricken task is reported as struck", p)
            if d.writes:
                ok = v is False and before(p, d.writes[0], lambda x: x in asked(p))
                r.require(ok, gate, where + "/asked", "writes without having asked whether the task is stricken", p, d.writes[0])
                for q in asked(p):
                    r.require(any(a[0] == "inst" and a[1].endswith(".Execution") for a in arguments(q)), gate, where + "/target", f"asks about {show(arguments(q)[-1])}", p, q)
            elif v is False and p.outcome == "ok":
                r.require(bool(calls_), free, where, "an unstricken task is dropped without asking Redis", p)
        r.require({True, False} <= seen, gate, f"Docket.{how}/paths", f"only the verdicts {sorted(map(str, seen))} are met")
    seen = set()
    for p in execute_paths(w, failing=False):
        v = decided_last(p)
        seen.add(v)
        where = "Worker._execute"
        bodies = [e for e in p.trace if is_body(e)]
        claims = calls(p, "claim")
        marks = [last(e) for e in calls(p, *MARKS)]
        for e in claims + bodies:
            r.require(v is False and before(p, e, lambda x: x in asked(p)), run, where, f"{'claimed' if e in claims else 'run'} without having been found not stricken", p, e)
        for q in asked(p):
            r.require(any(a[0] == "inst" and a[1].endswith(".Execution") for a in arguments(q)), run, where + "/target", f"asks about {show(arguments(q)[-1])}", p, q)
        if v:
            r.require(marks == ["mark_as_cancelled"], end, where, f"a stricken delivery is recorded as {marks}", p)
            r.require(p.outcome == "ok", end, where + "/raises", "a stricken delivery raises", p)
            r.require(bool(calls(p, "_delete_known_task")) or bool(p.redis("HDEL")), end, where + "/known", "the key of a stricken delivery stays taken", p)
        else:
            r.require(bool(claims), free, where, "an unstricken delivery is not claimed", p)
    r.require({True, False} <= seen, run, "Worker._execute/paths", f"only the verdicts {sorted(map(str, seen))} are met")

    def body(it: Any) -> Term:
        return w.call(it, w.worker(it), "Worker._delete_known_task", [("sym", "redis", "RedisClient"), w.execution(it)])
    for p in w.paths("Worker._delete_known_task", body, inline=lambda f: f.name not in ("_log_context",)):
        d = Delta(p.trace)
        where = "Worker._delete_known_task"
        hd = [e for e in p.redis("HDEL") if norm(e.args[0]) == norm(runs())]
        gone = {x[1] for e in hd for a in e.args[1:] for x in walk(norm(a)) if x[0] == "const"}
        r.require({"known", "stream_id"} <= gone, end, where + "/markers", f"clears only {sorted(map(str, gone))}", p)
        dels = {norm(a) for e in p.redis("DEL", "UNLINK") for a in e.args}
        for k in (known_key(), stream_id_key()):
            r.require(norm(k) in dels, end, where + "/legacy", f"leaves {show(k)}", p)
        extra = [e for e in d.writes if e.name not in ("HDEL", "DEL", "UNLINK")]
        r.require(not extra, end, where + "/only", "changes more than the pending markers", p, extra[0] if extra else None)
    for rule in (gate, told, run, end, free):
        r.expect(rule, 2)


def decided_last(p: Path) -> bool | None:
    from .common import stricken
    return stricken(p)


# --------------------------------------------------------------- distribution
LOADED: Term = ("sym", "loaded", "asyncio.Event")


def c10(w: World, r: Report) -> None:
    r.explain.append("Several turns of StrikeList._monitor_strikes are enumerated with empty and non-empty replies and lost connections; sending and waiting are enumerated whole.")
    read = r.rule("C10.read", "the monitor reads the strike stream from its beginning, continues after the last message read (also on a new connection), and never ends")
    apply_ = r.rule("C10.apply", "every message read is applied, in order")
    ready = r.rule("C10.loaded", "strikes count as loaded only when a read that does not wait found nothing more, and then always; before that reads do not wait")
    send = r.rule("C10.send", "an instruction is appended to the stream as its message, then applied locally; without a connection it is refused and changes nothing")
    wait = r.rule("C10.wait", "waiting for strikes returns only once they are loaded, or at once without a connection; seeding automatic tasks waits")
    made = r.rule("C10.docket", "a docket's strikes carry the function's name, parameter, operator and value given, and its strike list listens to the docket's own stream")
    key = norm(("cat", (("call", "prefix", (("sym", "name", "str"),)), const(":strikes"))))

    def body(it: Any) -> Term:
        it.run.assume(("truth", ("sym", "url", "str")), True)
        sl = w.make(it, "StrikeList", url=("sym", "url", "str"))
        it.heap[(norm(sl), "_strikes_loaded")] = LOADED
        return w.call(it, sl, "StrikeList._monitor_strikes", [])

    def raises(e: Event, trace: list[Event]) -> list[str]:
        return ["redis.exceptions.ConnectionError", "ValueError"] if e.kind == "redis" else []

    ps = w.paths("StrikeList._monitor_strikes", body, inline=lambda f: f.name not in ("update", "from_message", "labels", "call_repr", "_maybe_suppress_instrumentation"), whiles=3, loop=2, raises=raises, faults=1, budget=20000,
                 prune=lambda e, t: e.kind == "loop" and len(e.args) == 1 and e.name == "2" and "elem" not in repr(e.args[0])[:60],
                 cut=lambda e, t: e.kind == "redis" and sum(x.kind == "redis" for x in t) >= 3)
    saw = {"set": 0, "applied": 0, "again": 0, "blocking": 0}
    for p in ps:
        where = "StrikeList._monitor_strikes"
        r.require(p.outcome == "cut", read, where + "/ends", f"the monitor ends with {show(p.value)}", p)
        at: Term = const("0-0")
        loaded = False
        reads = [i for i, e in enumerate(p.trace) if e.kind == "redis" and e.name == "XREAD"]
        r.require(len(reads) == len(p.redis()), read, where + "/other", "the monitor does more than read the stream", p)
        for n, i in enumerate(reads):
            e = p.trace[i]
            pairs = stream_pairs(e)
            block = e.kw("block", NONE)
            r.require([k for k, _ in pairs] == [key], read, where + "/stream", f"reads {[show(k) for k, _ in pairs]}", p, e)
            if pairs:
                got = pairs[0][1]
                r.require(got == at or got == const("0") and n == 0 and at == const("0-0"), read, where + "/from", f"reads after {show(got)} instead of {show(at)}", p, e)
            r.require(loaded or block == NONE, ready, where + "/waits", f"a read waits ({show(block)}) although strikes are not loaded", p, e)
            if block != NONE:
                saw["blocking"] += 1
            end = reads[n + 1] if n + 1 < len(reads) else len(p.trace)
            if n + 1 == len(reads) and p.outcome == "cut":
                break
            seg = p.trace[i:end]
            failed = any(x.kind == "throw" for x in seg)
            msgs = ids_read(seg)
            ups = [x for x in seg if x.kind == "call" and last(x) == "update"]
            r.require(len(ups) == len(msgs), apply_, where + "/every", f"{len(msgs)} messages read, {len(ups)} applied", p, e)
            for m, u in zip(msgs, ups):
                r.require(any(y == m for y in walk(norm(arguments(u)[-1]))), apply_, where + "/order", f"{show(arguments(u)[-1])} is applied", p, u)
                saw["applied"] += 1
            if msgs:
                at = ("index", msgs[-1], const(0))
            sets = [x for x in seg if x.kind == "call" and last(x) == "set" and x.args and norm(x.args[0]) == LOADED]
            empty = any(x.kind == "branch" and x.args[0][0] == "truth" and x.args[0][1][0] == "reply" and not x.result for x in seg)
            if sets:
                saw["set"] += 1
                r.require(empty and not msgs and not failed and block == NONE, ready, where + "/early", "strikes count as loaded although the stream may hold more", p, sets[0])
                loaded = True
            elif not loaded and empty and not failed and block == NONE:
                r.require(False, ready, where + "/never", "the stream is exhausted, yet strikes do not count as loaded", p, e)
            if failed:
                saw["again"] += 1
    for k, n in saw.items():
        r.require(n > 0, read if k == "again" else apply_ if k == "applied" else ready, f"StrikeList._monitor_strikes/{k}", f"no path shows {k}")

    # sending
    for kind in ("strike", "restore"):
        cls = kind.capitalize()
        ends = set()
        for p in w.paths(f"StrikeList.{kind}", lambda it, kind=kind: w.call(it, w.make(it, "StrikeList", url=("sym", "url", "str")), "StrikeList." + kind), inline=lambda f: f.name not in ("update", "is_connected"), summarise=lambda f: False):
            where = f"StrikeList.{kind}"
            ends.add(p.outcome)
            adds, ups = p.redis("XADD"), [e for e in p.trace if e.kind == "call" and last(e) == "update"]
            if p.outcome == "raise":
                r.require(not adds and not ups, send, where + "/refused", "a refused instruction takes effect", p)
                continue
            on = next((v for c, v in facts(p) if c[0] == "truth" and "is_connected" in repr(c[1])), None)
            r.require(on is True, send, where + "/connected", "sent without having found a connection", p)
            if not r.require(len(adds) == 1 and len(ups) == 1, send, where, f"{len(adds)} messages sent, applied {len(ups)} times", p):
                continue
            r.require(norm(adds[0].args[0]) == key, send, where + "/stream", f"sent to {show(adds[0].args[0])}", p, adds[0])
            r.require(before(p, ups[0], lambda x: x is adds[0]), send, where + "/order", "applied before it is sent", p, ups[0])
            x = arguments(ups[0])[-1]
            r.require(x[0] == "inst" and x[1].endswith("." + cls), send, where + "/kind", f"applies {show(x)}", p, ups[0])
            fields = {str(k[1]): norm(v) for k, v in zip(adds[0].args[2::2], adds[0].args[3::2]) if k[0] == "const"}
            r.require(fields.get("direction") == const(kind), send, where + "/direction", f"sends {show(fields.get('direction', NONE))}", p, adds[0])
            for f in ("function", "parameter"):
                given: Term = ("sym", f, "str | None")
                named = next((v for c, v in facts(p) if c[0] == "truth" and c[1][:2] == given[:2]), None)
                r.require((f in fields) == bool(named) and (not named or fields[f][:2] == given[:2]), send, where + "/" + f, f"sends {show(fields.get(f, NONE))} as {f}", p, adds[0])
            r.require("operator" in repr(fields.get("operator")), send, where + "/operator", f"sends {show(fields.get('operator', NONE))}", p, adds[0])
            v = fields.get("value", NONE)
            r.require(v[0] == "call" and v[1] == "cloudpickle.dumps" and v[2][0][:2] == ("sym", "value"), send, where + "/value", f"sends {show(v)}", p, adds[0])
        r.require(ends == {"ok", "raise"}, send, f"StrikeList.{kind}/ends", f"it only ends with {ends}")
        for p in w.paths(f"Docket.{kind}", lambda it, kind=kind: w.call(it, DOCKET, "Docket." + kind), inline=lambda f: f.name != "send_instruction"):
            where = f"Docket.{kind}"
            sent = calls(p, "send_instruction")
            if not r.require(p.outcome == "ok" and len(sent) == 1, made, where, f"{len(sent)} instructions are sent", p):
                continue
            x = arguments(sent[0])[-1]
            new = next((e for e in p.trace if e.kind == "new" and norm(e.result) == norm(x)), None)
            if not r.require(new is not None and x[1].endswith("." + cls), made, where + "/kind", f"sends {show(x)}", p, sent[0]):
                continue
            got = [*new.args, *[NONE] * 4]
            kw = dict(new.kwargs)
            fn, par, op, val = (kw.get(k, got[i]) for i, k in enumerate(("function", "parameter", "operator", "value")))
            f: Term = ("sym", "function", None)
            named = any(v and c[0] == "truth" and "callable" in repr(c) for c, v in facts(p))
            r.require(("__name__" in repr(fn)) == named and "function" in repr(fn), made, where + "/function", f"the task is {show(fn)}", p, new)
            r.require(norm(par)[:2] == ("sym", "parameter") and "operator" in repr(op) and norm(val)[:2] == ("sym", "value"), made, where + "/fields", f"sends {show(par)} {show(op)} {show(val)}", p, new)
            _ = f
    lists = 0
    for p in w.paths("Docket.__aenter__", lambda it: w.call(it, DOCKET, "Docket.__aenter__"), inline=lambda f: f.name == "__aenter__" and f.cls is not None and f.cls.name == "Docket", budget=4000):
        for e in p.trace:
            if e.kind in ("new", "call") and e.name.endswith("strikelist.StrikeList"):
                lists += 1
                kw = dict(e.kwargs)
                url, name = (kw.get(k, e.args[i] if i < len(e.args) else NONE) for i, k in enumerate(("url", "name")))
                r.require(norm(url) == ("attr", DOCKET, "url") and norm(name) == ("attr", DOCKET, "name"), made, "Docket.__aenter__", f"the strike list listens to {show(name)} at {show(url)}", p, e)
    r.require(lists > 0, made, "Docket.__aenter__/list", "a docket has no strike list")

    # waiting
    for p in w.paths("StrikeList.wait_for_strikes_loaded", wait_body(w), inline=lambda f: True):
        where = "StrikeList.wait_for_strikes_loaded"
        waits = [e for e in p.trace if e.kind == "call" and last(e) == "wait"]
        local = p.fact(("cmp", "==", LOADED, NONE))
        r.require(p.outcome == "ok" and (bool(waits) or bool(local)), wait, where, "returns before strikes are loaded", p)
    for p in w.paths("Worker._schedule_all_automatic_perpetual_tasks", lambda it: w.call(it, w.worker(it), "Worker._schedule_all_automatic_perpetual_tasks"),
                     inline=lambda f: f.name in ("_schedule_all_automatic_perpetual_tasks",), loop=1, budget=4000):
        first = next((e for e in p.trace if e.kind == "redis" or e.kind == "call" and last(e) in ("add", "replace", "schedule", "_automatic_perpetual_is_live")), None)
        r.require(first is None or before(p, first, lambda x: x.kind == "call" and last(x) == "wait_for_strikes_loaded"), wait, "Worker._schedule_all_automatic_perpetual_tasks",
                  "automatic tasks are scheduled before strikes are loaded", p, first)
    for p in w.paths("Docket.wait_for_strikes_loaded", lambda it: w.call(it, DOCKET, "Docket.wait_for_strikes_loaded"), inline=lambda f: f.name == "wait_for_strikes_loaded" and f.cls is not None and f.cls.name == "Docket"):
        r.require(any(e.kind == "call" and last(e) == "wait_for_strikes_loaded" and "StrikeList" in e.name for e in p.trace), wait, "Docket.wait_for_strikes_loaded", "does not wait", p)
    for rule in (read, apply_, ready, send, wait, made):
        r.expect(rule, 2)


def wait_body(w: World) -> Any:
    def body(it: Any) -> Term:
        it.run.assume(("truth", ("sym", "url", "str")), True)
        sl = w.make(it, "StrikeList", url=("sym", "url", "str"))
        it.heap[(norm(sl), "_strikes_loaded")] = LOADED
        it.heap[(norm(sl), "_monitor_task")] = ("sym", "monitor", None)
        return w.call(it, sl, "StrikeList.wait_for_strikes_loaded", [])
    return body


def stream_pairs(e: Event) -> list[tuple[Term, Term]]:
    t = e.kw("streams") or (e.args[0] if e.args else NONE)
    t = norm(t)
    if t[0] == "call" and t[1] == "dict":
        return [(x[1][0], x[1][1]) for x in t[2] if x[0] == "tuple" and len(x[1]) == 2]
    return []


def ids_read(seg: list[Event]) -> list[Term]:
    """The messages a stretch of the trace iterates over."""
    out: list[Term] = []
    for e in seg:
        if e.kind == "loop" and e.args and "elem" in repr(e.args[0])[:40]:
            out += [("elem", norm(e.args[0]), i) for i in range(int(e.name))]
    return out
