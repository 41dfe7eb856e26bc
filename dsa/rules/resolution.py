"""Dependencies of a run: what is entered, what becomes of it, and the context they see."""
from __future__ import annotations

from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import NONE, Term, const, norm, show, walk
from .common import facts, mentions
from .gates import OUTSIDE, WORKER, ambient
from .running import dict_parts

CANCELLED = "asyncio.CancelledError"
RESOLVE = "docket.dependencies._resolution.resolved_dependencies"
PARAMS: Term = ("sym", "parameter dependencies", "dict")
ANNS: Term = ("sym", "annotation dependencies", "dict")
DEPS: Term = ("attr", WORKER, "dependencies")
KINDS = {"worker": DEPS, "parameter": PARAMS, "annotation": ANNS}


def faults(e: Event, trace: list[Event]) -> list[str]:
    if e.kind == "cm" and e.name.startswith("enter") and "ExitStack" not in e.name and sum(1 for x in trace if x.kind == "throw") < 2 and source(e.args[0]):
        return ["Exception"] + ([CANCELLED] if not any(x.kind == "throw" for x in trace) else [])
    return []


def source(t: Term) -> str | None:
    """Which of the run's dependencies a term is about."""
    return next((k for k in ("annotation", "parameter", "worker") if mentions(t, KINDS[k])), None)


def resolved(w: World, end: str | None = None, two: str | None = None) -> list[Path]:
    """Paths of resolving a run's dependencies around a body that ends as given:
    up to one of each kind, or up to two of one kind only."""
    def body(it: Any) -> Term:
        it.heap[("ambient", "execution")] = e = w.execution(it)
        if two is not None and two != "worker":
            it.heap[(norm(WORKER), "dependencies")] = it.new_dict([])
        f = w.prog.funcs[RESOLVE]
        fr, at = w.frame(f.module.name), f.node
        cm = it.call_term(("func", RESOLVE), [w.worker(it), e], {}, fr, at)

        def inner(v: Term) -> Term:
            it.emit(Event("mark", "body", (it.freeze(v), e)))
            if end is not None:
                it.throw(end)
            return NONE
        it.enter(cm, inner, fr, at)
        it.emit(Event("mark", "left", ()))
        return NONE
    def given(kind: str, t: Term) -> Any:
        return lambda it, *a: t if two in (None, kind) else it.new_dict([])
    known = {
        "uncalled_for.introspection.get_dependency_parameters": given("parameter", PARAMS), "uncalled_for.get_dependency_parameters": given("parameter", PARAMS),
        "uncalled_for.get_annotation_dependencies": given("annotation", ANNS), "uncalled_for.annotations.get_annotation_dependencies": given("annotation", ANNS),
    }
    return w.paths(f"resolved_dependencies ({end}, {two})", body, inline=lambda f: f.name not in OUTSIDE - {"get_argument"} | {"validate_task_dependencies", "detect_single_conflicts", "get_single_dependency_of_type"},
                   hooks={**ambient(w), **known}, raises=faults, loop=2 if two else 1)


def strip(t: Term) -> Term:
    """A collection, without copies of it."""
    while t[0] == "call" and str(t[1]) in ("list", "tuple", "copy", "dict") and len(t[2]) == 1 and t[2][0][0] != "tuple":
        t = t[2][0]
    return t


def role(t: Term, kind: str) -> tuple | None:
    """("name", i) or ("dep", i) for the i-th dependency of a kind, ("member", i, j) for one of an annotated parameter's."""
    c = KINDS[kind]
    if t[0] == "index":
        b = t[1]
        if b[0] == "elem" and t[2] in (const(0), const(1)):
            k = strip(b[1])
            if k[0] == "call" and k[1] == "items" and strip(k[2][0]) == c:
                return ("name" if t[2] == const(0) else "dep", b[2])
        n = role(t[2], kind)
        if strip(b) == c and n is not None and n[0] == "name":
            return ("dep", n[1])
    if t[0] == "call" and t[1] == "get" and len(t[2]) >= 2 and strip(t[2][0]) == c:
        n = role(t[2][1], kind)
        return ("dep", n[1]) if n is not None and n[0] == "name" else None
    if t[0] == "elem":
        k = strip(t[1])
        if k == c or k[0] == "call" and k[1] == "keys" and strip(k[2][0]) == c:
            return ("name", t[2])
        if k[0] == "call" and k[1] == "values" and strip(k[2][0]) == c:
            return ("dep", t[2])
        d = role(k, kind)
        if d is not None and d[0] == "dep":
            return ("member", d[1], t[2])
    return None


def names(t: Term) -> set[str]:
    """The values and attributes a term is made from."""
    return {x[-1] if x[0] == "attr" else x[1] for x in walk(norm(t)) if isinstance(x, tuple) and len(x) > 1 and x[0] in ("sym", "attr") and isinstance(x[1] if x[0] == "sym" else x[-1], str)}


def roles(t: Term, kind: str) -> set[tuple]:
    return {x for x in (role(s, kind) for s in walk(norm(t)) if isinstance(s, tuple) and s and isinstance(s[0], str)) if x is not None}


def found(p: Path, kind: str) -> tuple[int, dict[int, int]]:
    """How many dependencies of a kind there are on a path, and how many each annotated parameter has."""
    n, m = 0, {}
    for e in p.trace:
        if e.kind == "loop" and str(e.name).isdigit() and e.args:
            t = norm(e.args[0])
            d = role(strip(t), kind)
            if d is not None and d[0] == "dep":
                m[d[1]] = max(m.get(d[1], 0), int(e.name))
            elif d is None and source(t) == kind and not any(x[0] == "elem" for x in walk(t) if isinstance(x, tuple) and x):
                n = max(n, int(e.name))
    return n, m


def c22(w: World, r: Report) -> None:
    ent = r.rule("C22.entered", "each dependency of the worker and of the task whose value the caller has not given is entered once, in the run's own scope")
    given = r.rule("C22.given", "a value the caller gives is used as it is, and its dependency is not entered")
    value = r.rule("C22.value", "each parameter gets what its own dependency yields, and an annotated dependency is bound to its parameter's name and value")
    failed = r.rule("C22.failed", "a dependency that fails is reported under its parameter and keeps no other from being entered")
    left = r.rule("C22.left", "every dependency entered is left again, in reverse order, whatever ends the run, and how it ended is passed on")
    fresh = r.rule("C22.cache", "values are resolved for this run, not taken from another")
    clash = r.rule("C22.conflicts", "conflicts between the worker's and the task's dependencies are reported as failures")
    inner = r.rule("C22.nested", "the parameters of a function a dependency is made with are resolved likewise, in the run's scope; a TaskArgument that names no parameter takes the name of its own")
    nested(w, r, inner)
    for end, two in ((None, None), ("Exception", None), (CANCELLED, None), (None, "worker"), (None, "parameter"), (None, "annotation")):
        for p in resolved(w, end, two):
            at = f"resolved_dependencies/{end or 'success'}"
            body = next((n for n, e in enumerate(p.trace) if e.kind == "mark" and e.name == "body"), None)
            enters = [e for e in p.trace if e.kind == "cm" and e.name.startswith("enter") and source(e.args[0])]
            cancelled = any(CANCELLED in x.name for x in (raised_by(p, e) for e in enters) if x is not None)
            for n, e in enumerate(p.trace):
                if e.kind == "cm" and e.name.startswith("enter") and source(norm(e.args[0])):
                    c = at_event(p, n, "cache")
                    r.require(c is not None and c.extra == "set" and (norm(c.args[0]) == norm(("call", "dict", (), None)) or show(c.args[0]) in ("dict()", "<dict>")), fresh, at + "/cache",
                              "a value resolved for another run may be used", p, e)
            # -- the end
            ended = [e for e in p.trace if e.kind == "push"]
            outs = [norm(e.args[0]) for e in p.trace if e.kind == "cm" and e.name.startswith("exit") and source(e.args[0])]
            r.require(outs == [norm(e.args[0]) for e in reversed(ended)] and len(ended) == len([e for e in enters if raised_by(p, e) is None]), left, at + "/all",
                      f"{len(ended)} were entered and {len(outs)} left", p, p.trace[-1] if p.trace else None)
            if cancelled:
                r.require(p.outcome == "raise" and CANCELLED in show(p.value) and body is None, left, at + "/cancelled", "a cancellation while entering is not passed on", p)
                continue
            if end is not None and body is not None:
                r.require(p.outcome == "raise" and end.split(".")[-1] in show(p.value), left, at + "/passed", "the end of the run is not passed on", p)
            if not r.require(body is not None, failed, at + "/stops", f"the run never starts: {show(p.value)}", p):
                continue
            r.require(all(p.trace.index(e) < body for e in enters), ent, at + "/first", "a dependency is entered after the run has started", p)
            r.require(end is not None or p.outcome == "ok", left, at + "/ok", f"a run that succeeded ends with {show(p.value)}", p)
            result = dict_parts(p.trace[body].args[0])
            for kind in KINDS:
                check(p, r, kind, at, enters, result, (ent, given, value, failed))
            told = any(isinstance(x, tuple) and x and x[0] == "call" and "validate_task_dependencies" in str(x[1]) or "detect_single_conflicts" in str(x)[:200] and isinstance(x, tuple) and x[0] == "call"
                       for x in walk(p.trace[body].args[0]))
            r.require(told, clash, at + "/conflicts", "conflicting dependencies are not reported", p)
            vals = [e for e in p.trace[:body] if e.kind == "call" and e.name.endswith(("validate_task_dependencies", "detect_single_conflicts"))]
            r.require(len(vals) == 1 and all(p.trace.index(e) < p.trace.index(vals[0]) for e in enters), clash, at + "/late", "conflicts are looked for before everything is resolved", p)


def argument(p: Path, v: Term, name: tuple) -> bool:
    """The value of an annotated parameter: as given by name or position, or as its own dependency yields it."""
    def given(by: str) -> bool | None:
        return next((x for c, x in facts(p) if c[0] == "cmp" and c[1] == "in" and role(norm(c[2]), "annotation") == name and by in names(c[3])), None)

    n = names(v)
    if v == NONE and given("kwargs") is False and given("args") is False:
        return True
    if name not in roles(v, "annotation"):
        return False
    if "kwargs" not in n:
        k = given("kwargs")
        if k is not False:
            return False
    elif given("kwargs") is True:
        return True
    if "args" not in n:
        if given("args") is not False:
            return False
    elif given("args") is True:
        return True
    yields = any(e.kind == "push" and of_kind(e, "parameter") for e in p.trace[:next((i for i, e in enumerate(p.trace) if e.kind == "call" and "bind_to_parameter" in e.name), 0)])
    return not yields or any(x[0] == "call" and x[1] == "entered" and source(norm(x)) == "parameter" for x in walk(norm(v)) if isinstance(x, tuple) and len(x) > 1)


def of_kind(e: Event, kind: str) -> bool:
    return source(norm(e.args[0])) == kind


def raised_by(p: Path, e: Event) -> Event | None:
    """What entering a dependency raised."""
    n = p.trace.index(e)
    for x in p.trace[n + 1:]:
        if x.kind == "throw":
            return x
        if x.kind != "note":
            return None
    return None


def value_of(result: list[tuple[Any, Term]], name: Any) -> Term | None:
    return next((v for k, v in reversed(result) if k is not None and name(k)), None)


def failure(p: Path, v: Term | None) -> list[Term] | None:
    """What a FailedDependency was made of."""
    if v is None or v[0] not in ("inst", "call") or not str(v[1]).endswith("FailedDependency"):
        return None
    if v[0] == "call":
        return list(v[2])
    return next(([*e.args, *[x for _, x in e.kwargs]] for e in p.trace if e.kind == "new" and e.result is not None and norm(e.result) == norm(v)), None)


def check(p: Path, r: Report, kind: str, at: str, enters: list[Event], result: list[tuple[Any, Term]], rules: tuple) -> None:
    ent, given, value, failed = rules
    n, members = found(p, kind)
    mine = [e for e in enters if of_kind(e, kind)]
    where = f"{at}/{kind}"
    wanted: list[tuple] = [("dep", i) for i in range(n)] if kind != "annotation" else [("member", i, j) for i in range(n) for j in range(members.get(i, 0))]
    r.require(kind != "annotation" or all(i in members for i in range(n)), ent, where + "/unread", "the dependencies of an annotated parameter are not looked at", p)
    for x in wanted:
        i = x[1]
        es = [e for e in mine if x in roles(e.args[0], kind)]
        is_given = next((v for c, v in facts(p) if c[0] == "cmp" and c[1] == "in" and role(norm(c[2]), kind) == ("name", i) and "kwargs" in show(c[3])), None) if kind == "parameter" else False
        bare = kind == "parameter" and any(v and "_TaskArgument" in repr(c) and ("dep", i) in roles(c, kind) for c, v in facts(p)) and \
            any(not v and c[0] == "truth" and c[1][0] == "attr" and c[1][2] == "parameter" for c, v in facts(p))
        named = [v for k, v in result if k is not None and ("name", i) in roles(k, kind)]
        if kind == "parameter" and is_given is None:
            r.require(False, given, where + "/ask", "whether the caller gave the value is not considered", p)
            continue
        if is_given:
            r.require(not es, given, where + "/entered", "the dependency is entered although the caller gave the value", p, es[0] if es else None)
            r.require(all(v[0] in ("index", "call") and mentions(v, ("sym", "kwargs", None)) or "kwargs" in show(v) for v in named), given, where + "/value", "the caller's value is not used", p)
            continue
        if bare and not es:
            r.require(len(named) >= 1 and failure(p, named[-1]) is not None, value, where + "/bare", "a TaskArgument that names no parameter is not reported", p)
            continue
        if not r.require(len(es) == 1, ent, where + "/once", f"the dependency is entered {len(es)} times", p, es[0] if es else None):
            continue
        e = es[0]
        exc = raised_by(p, e)
        if exc is not None:
            alike = [norm(y.args[0]) for y in (raised_by(p, z) for z in mine if any(x[:2] == q[:2] for q in roles(z.args[0], kind))) if y is not None]
            f = failure(p, named[-1]) if named else None
            r.require(f is not None and any(norm(a) in alike for a in f) and any(("name", i) in roles(a, kind) for a in f), failed, where + "/told",
                      f"the failure is recorded as {show(named[-1]) if named else 'nothing'}", p, e)
            continue
        if kind == "annotation":
            b = norm(e.args[0])
            ok = b[0] == "call" and str(b[1]).endswith("bind_to_parameter")
            if r.require(ok, value, where + "/bound", "an annotated dependency is entered without being bound to its parameter", p, e):
                a = b[2]
                r.require(role(a[1], kind) == ("name", i), value, where + "/name", f"it is bound to {show(a[1])}", p, e)
                v = a[2]
                r.require(argument(p, v, ("name", i)), value, where + "/argument", f"it is bound to {show(v)}, not the argument's value however it was given", p, e)
        else:
            want = [v for v in named if v[0] == "call" and v[1] == "entered" and x in roles(v, kind)]
            ok = r.require(bool(named) and bool(want) and want[-1] == named[-1], value, where + "/own", f"the value is {show(named[-1]) if named else 'missing'}", p, e)
            if ok and kind == "worker":
                k = next((k for k, v in result if k is not None and ("name", i) in roles(k, kind)), NONE)
                t = show(k)
                r.require(t.strip("`\"'").startswith("__worker_dep__"), value, where + "/slot", f"the slot is {t}", p, e)


VARS = ("current_docket", "current_worker", "current_execution", "cache", "stack")


def at_event(p: Path, n: int, var: str) -> Event | None:
    """The last change of a context variable before an event."""
    return next((e for e in reversed(p.trace[:n]) if e.kind == "ctx" and e.name == var), None)


def c23(w: World, r: Report) -> None:
    seen = r.rule("C23.seen", "a run's dependencies and its function see its own docket, worker and execution")
    mine = r.rule("C23.scope", "what a run's dependencies cache and what they enter is kept for that run only")
    back = r.rule("C23.restored", "when the run ends, however it ends, every context variable is what it was before")
    gives = r.rule("C23.gives", "a contextual dependency gives its run's own docket, worker, execution, key, argument or logger")
    amb = r.rule("C23.worker", "a worker is the current worker, and its docket the current docket, from when it is entered until it is left")
    for end in (None, "Exception", CANCELLED):
        for p in resolved(w, end):
            at = f"resolved_dependencies/{end or 'success'}"
            body = next((e for e in p.trace if e.kind == "mark" and e.name == "body"), None)
            run = next((norm(e.args[0]) for e in p.trace if e.kind == "ctx" and e.name == "current_execution" and e.extra == "set"), None)
            stacks = [norm(e.args[0]) for e in p.trace if e.kind == "cm" and e.name.startswith("enter") and "ExitStack" in e.name]
            for n, e in enumerate(p.trace):
                inside = e is body or e.kind == "cm" and source(norm(e.args[0]))
                if not inside:
                    continue
                leaving = e.kind == "cm" and e.name.startswith("exit")
                what = f"{at}/{'function' if e is body else 'leaving' if leaving else 'entering'}"
                for var, want in (("current_docket", DOCKET), ("current_worker", WORKER), ("current_execution", None)):
                    c = at_event(p, n, var)
                    ok = c is not None and c.extra == "set" and (norm(c.args[0]) == want if want is not None else norm(c.args[0])[0] == "inst" and "Execution" in repr(c.args[0]))
                    if ok and body is not None and want is None:
                        ok = norm(c.args[0]) == norm(body.args[1])  # type: ignore[union-attr]
                    r.require(ok, seen, f"{what}/{var}", f"{var} is {show(c.args[0]) if c is not None and c.extra == 'set' else 'not the run’s'}", p, e)
                if leaving:
                    continue
                c = at_event(p, n, "cache")
                r.require(c is not None and c.extra == "set" and norm(c.args[0]) == norm(("call", "dict", (), None)) or c is not None and c.extra == "set" and show(c.args[0]) in ("dict()", "<dict>"), mine, f"{what}/cache",
                          f"the cache is {show(c.args[0]) if c is not None else 'that of whatever is outside'}", p, e)
                c = at_event(p, n, "stack")
                r.require(c is not None and c.extra == "set" and norm(c.args[0]) in stacks, mine, f"{what}/stack", "what is entered on the run's behalf is not left with the run", p, e)
            left: dict[str, list[Event]] = {}
            for e in p.trace:
                if e.kind == "ctx":
                    left.setdefault(e.name, []).append(e)
            for var, es in left.items():
                sets = [e for e in es if e.extra == "set"]
                resets = [e for e in es if e.extra == "reset"]
                ok = len(sets) == len(resets) and es[-1].extra == "reset" and norm(es[-1].args[0])[0] == "token" and norm(es[-1].args[0])[1] == var and "outer" in show(norm(es[-1].args[0])[2]) or \
                    not sets and not resets
                r.require(ok, back, f"{at}/{var}", f"{var} is set {len(sets)} times and restored {len(resets)} times", p, es[-1])
    contextual(w, r, gives)
    worker_scope(w, r, amb)
    r.expect(seen, 50)
    r.expect(back, 50)


def contextual(w: World, r: Report, rule: str) -> None:
    own: Any = None

    def give(cls: str, **over: Term) -> list[Path]:
        def body(it: Any) -> Term:
            it.heap[("ambient", "execution")] = e = w.execution(it)
            o = w.make(it, cls, **over)
            v = w.call(it, o, f"{cls}.__aenter__")
            return ("tuple", (e, v))
        return w.paths(cls, body, inline=lambda f: f.name not in OUTSIDE | {"specific_labels", "general_labels"}, hooks=ambient(w),
                       raises=lambda e, t: ["KeyError"] if e.kind == "call" and e.name.endswith("get_argument") and not any(x.kind == "throw" for x in t) else [])
    for cls, want in (("_CurrentDocket", DOCKET), ("_CurrentWorker", WORKER), ("_CurrentExecution", "self"), ("_TaskKey", ("sym", "key", None))):
        for p in give(cls):
            ok = p.outcome == "ok"
            if ok:
                e, v = p.value[1]
                own = norm(e) if want == "self" else want
                ok = norm(v) == own or want not in ("self", DOCKET, WORKER) and norm(v)[0] == "sym" and norm(v)[1] == "key"
            r.require(ok, rule, cls, f"gives {show(p.value)}", p)
    PARAMETER: Term = ("sym", "parameter", "str")
    for p in give("_TaskArgument", parameter=PARAMETER):
        if p.fact(("cmp", "==", PARAMETER, NONE)) is True or p.outcome == "raise" and "AssertionError" in show(p.value):
            continue
        asked = [e for e in p.trace if e.kind == "call" and e.name.endswith("get_argument")]
        missing = any(e.kind == "throw" for e in p.trace)
        optional = next((v for c, v in facts(p) if "optional" in show(c)), None)
        if not r.require(len(asked) == 1 and any(norm(a) == PARAMETER for a in [*asked[0].args, *[x for _, x in asked[0].kwargs]]), rule, "_TaskArgument/asks", "the task's argument of that name is not looked up", p):
            continue
        if not missing:
            r.require(p.outcome == "ok" and norm(p.value[1][1])[0] == "call" and "get_argument" in show(p.value[1][1]), rule, "_TaskArgument/value", f"gives {show(p.value)}", p)
        elif optional is None:
            r.require(False, rule, "_TaskArgument/ask", "whether the argument is optional is not considered", p)
        elif optional:
            r.require(p.outcome == "ok" and p.value[1][1] == NONE, rule, "_TaskArgument/optional", f"an optional argument that is missing gives {show(p.value)}", p)
        else:
            r.require(p.outcome == "raise" and "KeyError" in show(p.value), rule, "_TaskArgument/missing", f"an argument that is missing gives {show(p.value)}", p)
    for p in give("_TaskLogger"):
        news = [e for e in p.trace if e.kind in ("new", "call") and "LoggerAdapter" in e.name]
        if r.require(p.outcome == "ok" and len(news) == 1, rule, "_TaskLogger", "no logger is given", p):
            extra = repr([norm(a) for a in [*news[0].args, *[v for _, v in news[0].kwargs]]])
            r.require("specific_labels" in extra and "docket.task." in extra, rule, "_TaskLogger/labels", "the logger does not name its run", p, news[0])


def worker_scope(w: World, r: Report, rule: str) -> None:
    """Entering and leaving a worker."""
    f = w.prog.func("Worker.__aenter__")

    def body(it: Any) -> Term:
        wk = w.worker(it)
        v = w.call(it, wk, "Worker.__aenter__")
        it.emit(Event("mark", "entered", ()))
        w.call(it, wk, "Worker.__aexit__", [NONE, NONE, NONE])
        return v
    hooks = ambient(w)
    for p in w.paths("Worker", body, inline=lambda g: g.module is f.module, hooks=hooks):
        m = next((n for n, e in enumerate(p.trace) if e.kind == "mark"), None)
        if m is None:
            continue
        for var, want in (("current_docket", DOCKET), ("current_worker", WORKER)):
            c = at_event(p, m, var)
            r.require(c is not None and c.extra == "set" and norm(c.args[0]) == want, rule, f"Worker/{var}", f"{var} is not set for the worker's lifetime", p)
            if p.outcome == "ok":
                e = at_event(p, len(p.trace), var)
                r.require(e is not None and e.extra == "reset", rule, f"Worker/{var}/restored", f"{var} is not restored when the worker is left", p)


def nested(w: World, r: Report, rule: str) -> None:
    """The parameters of a function that a dependency is made with."""
    def body(it: Any) -> Term:
        it.heap[("ambient", "execution")] = w.execution(it)
        fr, at = w.frame("docket.dependencies._functional"), w.prog.func("_Depends._resolve_parameters").node
        it.heap[("ambient", "stack")] = stack = it.call_ext("contextlib.AsyncExitStack", [], {}, fr, at)
        out = [NONE]

        def inner(_: Term) -> Term:
            out[0] = it.freeze(w.call(it, ("sym", "dependency", "docket.dependencies._functional._Depends"), "_Depends._resolve_parameters"))
            it.emit(Event("mark", "resolved", ()))
            return NONE
        it.enter(stack, inner, fr, at)
        return out[0]
    known = {"uncalled_for.introspection.get_dependency_parameters": lambda *a: PARAMS, "uncalled_for.get_dependency_parameters": lambda *a: PARAMS}
    for p in w.paths("_Depends._resolve_parameters", body, inline=lambda f: True, hooks={**ambient(w), **known}, elements=2, raises=faults):
        n, _ = found(p, "parameter")
        mark = next((i for i, e in enumerate(p.trace) if e.kind == "mark"), len(p.trace))
        enters = [e for e in p.trace if e.kind == "cm" and e.name.startswith("enter") and of_kind(e, "parameter")]
        raised = [x for x in (raised_by(p, e) for e in enters) if x is not None]
        left = [norm(e.args[0]) for e in p.trace[mark:] if e.kind == "cm" and e.name.startswith("exit") and source(norm(e.args[0]))]
        if raised:
            r.require(p.outcome == "raise", rule, "_Depends/failure", "the failure of a nested dependency is lost", p)
            continue
        if not r.require(p.outcome == "ok", rule, "_Depends/raises", f"raises {show(p.value)}", p):
            continue
        r.require(left == [norm(e.args[0]) for e in reversed(enters)], rule, "_Depends/scope", "a nested dependency is not left with the run, but earlier or never", p)
        result = dict_parts(p.value)
        for i in range(n):
            es = [e for e in enters if ("dep", i) in roles(e.args[0], "parameter")]
            v = [v for k, v in result if k is not None and ("name", i) in roles(k, "parameter")]
            if not r.require(len(es) == 1 and bool(v) and v[-1][0] == "call" and v[-1][1] == "entered" and ("dep", i) in roles(v[-1], "parameter"), rule, "_Depends/value",
                             "a nested parameter does not get what its dependency yields", p):
                continue
            bare = any(v and "_TaskArgument" in repr(c) and ("dep", i) in roles(c, "parameter") for c, v in facts(p)) and \
                any(not v and c[0] == "truth" and c[1][0] == "attr" and c[1][2] == "parameter" and ("dep", i) in roles(c, "parameter") for c, v in facts(p))
            told = [e for e in p.trace[:p.trace.index(es[0])] if e.kind == "assign" and e.name == "parameter" and ("dep", i) in roles(e.args[0], "parameter")]
            if bare:
                r.require(bool(told) and role(norm(told[-1].args[1]), "parameter") == ("name", i), rule, "_Depends/inferred", "a TaskArgument that names no parameter does not take the name of its own", p, es[0])
            else:
                settled = any("_TaskArgument" in repr(c) and not v and ("dep", i) in roles(c, "parameter") or v and c[0] == "truth" and c[1][0] == "attr" and c[1][2] == "parameter" and ("dep", i) in roles(c, "parameter") or
                              "'parameter'" in repr(c) and c[0] == "cmp" and ("dep", i) in roles(c, "parameter") for c, v in facts(p))
                r.require(settled or bool(told), rule, "_Depends/inferred", "a TaskArgument that names no parameter is not given the name of its own", p, es[0])
                told = [e for e in told if not (norm(e.args[1])[0] in ("attr", "or") and "parameter" in names(e.args[1]) and ("dep", i) in roles(e.args[1], "parameter"))]
                r.require(not told, rule, "_Depends/renamed", "the name a TaskArgument was given is changed", p, told[0] if told else None)
    r.expect(rule, 10)
