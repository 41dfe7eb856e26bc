"""Running one claimed execution: body, handlers, outcome, result, metrics."""
from __future__ import annotations

from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import FALSE, NONE, TRUE, Term, const, norm, show, walk
from .common import KEY, facts, linear, mentions

BOUNDARY = {"claim", "mark_as_completed", "mark_as_failed", "mark_as_cancelled", "schedule", "sync", "call_repr", "resolved_dependencies",
            "get_single_dependency_of_type", "handle_failure", "on_complete", "run", "is_stricken", "specific_labels", "general_labels",
            "incoming_span_links", "labels", "_log_context", "_delete_known_task", "format_duration"}
MARKS = ("mark_as_completed", "mark_as_failed", "mark_as_cancelled")
BLOCKED = "docket.dependencies._base.AdmissionBlocked"
CANCELLED = "asyncio.CancelledError"


def last(e: Event) -> str:
    return e.name.split(".")[-1]


def faults(e: Event, trace: list[Event]) -> list[str]:
    """Where a run may fail: in the body, in storing its result, in a handler
    of a successful run, in serialising, and by being cancelled."""
    n = last(e)
    failing = any(x.kind in ("throw", "catch") for x in trace)
    if e.kind == "call" and e.extra == "opaque" and not failing:
        if is_body(e):
            return ["Exception", CANCELLED]
        if n in ("put", "on_complete"):
            return ["Exception"]
    if e.kind == "pure" and n == "dumps" and not any(x.kind == "throw" and x.extra == "cloudpickle.dumps" for x in trace):
        return ["Exception"]
    if e.kind == "cm" and e.name.startswith("enter") and "resolved_dependencies" in e.name:
        return [CANCELLED]
    return []


def is_body(e: Event) -> bool:
    """A call of the task's function, directly or through a Runtime."""
    if e.kind != "call" or e.extra != "opaque":
        return False
    return e.name == "function" or last(e) == "function" or (last(e) == "run" and any(mentions(a, ("sym", "function", None)) or fn(a) for a in arguments(e)[1:]))


def fn(t: Term) -> bool:
    return any(x[0] in ("sym", "attr") and x[-1 if x[0] == "attr" else 1] == "function" for x in walk(t))


def arguments(e: Event) -> list[Term]:
    return [*e.args, *[v for _, v in e.kwargs]]


def execute_paths(w: World, failing: bool = True) -> list[Path]:
    def body(it: Any) -> Term:
        return w.call(it, w.worker(it), "Worker._execute", [w.execution(it)])
    return w.paths("Worker._execute", body, inline=lambda f: f.name not in BOUNDARY, raises=faults if failing else None, budget=60000) if failing else \
        w.paths("Worker._execute(undisturbed)", body, inline=lambda f: f.name not in BOUNDARY, budget=60000)


def calls(p: Path, *names: str) -> list[Event]:
    return [e for e in p.trace if e.kind == "call" and last(e) in names]


def decided(p: Path, name: str) -> bool | None:
    """What the path found the result of a call of this name to be."""
    for c, v in facts(p):
        if c[0] == "truth" and c[1][0] == "call" and str(c[1][1]).split(".")[-1] == name:
            return v
    return None


def handler_there(p: Path, cls: str) -> bool | None:
    for c, v in facts(p):
        if c[0] == "truth" and c[1][0] == "call" and str(c[1][1]).endswith("get_single_dependency_of_type") and any(x[0] == "class" and x[1].endswith("." + cls) for x in walk(c[1])):
            return v
        if c[0] == "cmp" and c[1] == "==" and c[3] == NONE and any(x[0] == "class" and x[1].endswith("." + cls) for x in walk(c[2])) and c[2][0] == "call":
            return not v
    return None


def failed_deps(p: Path) -> bool | None:
    """Whether the path found that a dependency failed to resolve."""
    out = None
    for c, v in facts(p):
        if any(isinstance(x, tuple) and x and "FailedDependency" in repr(x[-1]) and x[0] in ("class", "ext", "sym", "mod", "attr", "const") or
               x[0] == "call" and x[1] == "isinstance" and "FailedDependency" in repr(x) for x in walk(c)):
            n = length(c, v)
            if n is not None:
                if n == "some":
                    return True
                out = False if n == "none" else out
                continue
            if v:
                return True
            out = False
    for e in p.trace:
        if e.kind == "loop" and "resolved_dependencies" in repr(e.args):
            if "FailedDependency" not in repr(e.args):
                out = False if out is None else out
            elif str(e.name) != "0":
                return True
            else:
                out = False
    return out


def length(c: Term, v: bool) -> str | None:
    """What a comparison of a length with a constant says: none, some or unsure."""
    if c[0] != "cmp" or not any(y[0] == "call" and y[1] == "len" for y in c[2:4]):
        return None
    a, b = c[2], c[3]
    if c[1] == "==":
        k = a if a[0] == "const" else b
        return "unsure" if k != ("const", 0) else "none" if v else "some"
    if c[1] == "<" and a[0] == "const":  # k < len
        return "some" if v and a[1] >= 0 else "none" if not v and a[1] <= 0 else "unsure"
    if c[1] == "<" and b[0] == "const":  # len < k
        return "none" if v and b[1] <= 1 else "some" if not v and b[1] >= 1 else "unsure"
    return "unsure"


def thrown(p: Path) -> list[Event]:
    return [e for e in p.trace if e.kind == "throw" and e.extra != "cloudpickle.dumps" or e.kind == "throw" and not before(p, e, lambda x: x.kind in ("throw", "catch"))]


def before(p: Path, e: Event, cond: Any) -> bool:
    for x in p.trace:
        if x is e:
            return False
        if cond(x):
            return True
    return False


def blocked(p: Path) -> bool:
    return any(v and c[0] in ("isexc", "isinst") and c[2] == BLOCKED or v and c[0] == "truth" and c[1][0] == "call" and c[1][1] == "isinstance" and BLOCKED in repr(c) for c, v in facts(p))


def c07(w: World, r: Report) -> None:
    r.explain.append("Every path of Worker._execute is enumerated with its package boundary (claiming, marking, resolving, handlers) kept symbolic and an exception injected at each point where "
                     "a run may fail (body, Runtime, result storage, completion handler, serialisation, dependency resolution); each path's end is matched with what it recorded.")
    once = r.rule("C07.body", "the task's function runs at most once, only after a successful claim and only when every dependency resolved")
    args = r.rule("C07.arguments", "it is called with the execution's own positional and keyword arguments and its resolved dependencies, without the worker's own")
    done = r.rule("C07.completed", "a run that returns is marked completed exactly once, after its completion handler was consulted with the result")
    fail = r.rule("C07.failed", "a run that raises (or whose dependencies fail) consults the failure handler; unless that takes over, the completion handler is consulted and the run is marked failed once, with the exception")
    canc = r.rule("C07.cancelled", "a cancelled run is marked cancelled exactly once")
    block = r.rule("C07.blocked", "a run blocked by an admission gate records nothing and reports the block to the worker's loop")
    none = r.rule("C07.unclaimed", "without a successful claim nothing runs and nothing is recorded as its outcome")
    esc = r.rule("C07.escape", "no other failure of a run leaves Worker._execute")
    ends: set[str] = set()
    where = "Worker._execute"
    for p in execute_paths(w):
        bodies = [e for e in p.trace if is_body(e)]
        marks = calls(p, *MARKS)
        claimed = decided(p, "claim")
        r.require(len(bodies) <= 1, once, where, "the function can run more than once", p, bodies[-1] if bodies else None)
        for e in bodies:
            r.require(claimed is True and before(p, e, lambda x: x.kind == "call" and last(x) == "claim"), once, where + "/claimed", "the function runs without a successful claim", p, e)
            r.require(failed_deps(p) is False, once, where + "/dependencies", "the function runs although a dependency may have failed", p, e)
            body_arguments(r, args, p, e)
        if claimed is not True:
            if decided(p, "is_stricken"):
                continue
            ends.add("unclaimed")
            r.require(not marks and not bodies, none, where, "an outcome is recorded without a claim", p, marks[0] if marks else None)
            r.require(p.outcome == "ok", none, where + "/quiet", "an unclaimed execution raises", p)
            continue
        exc = thrown(p)
        if p.outcome == "raise":
            ends.add("blocked")
            if r.require(blocked(p) or p.value[0] == "ref" and p.value[1].endswith("AdmissionBlocked"), esc, where, f"{show(p.value)} escapes, so no outcome is recorded", p):
                r.require(not marks, block, where, "a blocked run records an outcome", p, marks[0] if marks else None)
            continue
        if exc and exc[-1].name == CANCELLED:
            ends.add("cancelled")
            r.require([last(e) for e in marks] == ["mark_as_cancelled"], canc, where, f"a cancelled run records {[last(e) for e in marks]}", p, marks[0] if marks else None)
            mine(r, canc, p, marks)
            continue
        failing = bool(exc) or failed_deps(p) is True
        if not failing:
            ends.add("completed")
            r.require([last(e) for e in marks] == ["mark_as_completed"], done, where, f"a run that returned records {[last(e) for e in marks]}", p, marks[0] if marks else None)
            mine(r, done, p, marks)
            r.require(bool(bodies), done, where + "/ran", "an execution that never ran is recorded as completed", p, marks[0] if marks else None)
            hs = calls(p, "on_complete")
            if handler_there(p, "CompletionHandler"):
                if r.require(len(hs) == 1, done, where + "/handler", "the completion handler is not consulted exactly once", p):
                    r.require(not marks or before(p, marks[0], lambda x: x is hs[0]), done, where + "/handler-order", "the outcome is recorded before the completion handler ran", p, marks[0] if marks else None)
                    outcome_told(r, done, p, hs[0], bodies, None)
            else:
                r.require(not hs and handler_there(p, "CompletionHandler") is False, done, where + "/handler", "no completion handler is looked for", p)
            r.require(not calls(p, "handle_failure"), done, where + "/failure-handler", "the failure handler is consulted for a run that returned", p)
            continue
        ends.add("failed")
        hf = calls(p, "handle_failure")
        took = None
        if handler_there(p, "FailureHandler"):
            if r.require(len(hf) == 1, fail, where + "/failure-handler", "the failure handler is not consulted exactly once", p):
                took = decided(p, "handle_failure")
                outcome_told(r, fail, p, hf[0], bodies, exc[-1] if exc else True)
        else:
            r.require(not hf and handler_there(p, "FailureHandler") is False, fail, where + "/failure-handler", "no failure handler is looked for", p)
        hs = [e for e in calls(p, "on_complete") if not exc or before(p, e, lambda x: x in exc)]
        if took:
            ends.add("retried")
            r.require(not marks, fail, where + "/retried", f"the failure handler took over, yet the run is recorded as {[last(e) for e in marks]}", p, marks[0] if marks else None)
            r.require(not hs, fail, where + "/retried-completion", "the completion handler runs although the failure handler took over", p, hs[0] if hs else None)
            continue
        if handler_there(p, "CompletionHandler") and not any(e.extra and str(e.extra).endswith("on_complete") for e in exc):
            if r.require(len(hs) == 1, fail, where + "/completion-handler", "the completion handler of a failed run is not consulted exactly once", p):
                r.require(not marks or before(p, marks[0], lambda x: x is hs[0]), fail, where + "/handler-order", "the outcome is recorded before the completion handler ran", p, marks[0] if marks else None)
                outcome_told(r, fail, p, hs[0], bodies, exc[-1] if exc else True)
        r.require([last(e) for e in marks] == ["mark_as_failed"], fail, where, f"a run that raised records {[last(e) for e in marks]}", p, marks[0] if marks else None)
        mine(r, fail, p, marks)
        for m in marks:
            if last(m) != "mark_as_failed":
                continue
            err = m.arg(1, "error", NONE)
            caught = caught_exception(p)
            r.require(err[0] == "cat" or err[0] == "str" or err != NONE, fail, where + "/error", "the failure is recorded without its error", p, m)
            r.require(caught is not None and mentions(err, caught) and "__name__" in repr(err), fail, where + "/message", f"the recorded error is {show(err)}", p, m)
    for want in ("completed", "failed", "cancelled", "blocked", "retried", "unclaimed"):
        r.require(want in ends, esc, where + "/" + want, f"no path ends {want}")
    for rule in (once, args, done, fail, canc, block, none):
        r.expect(rule)


def caught_exception(p: Path) -> Term | None:
    for e in p.trace:
        if e.kind == "catch" and "FailedDependency" not in repr(e.name):
            if e.name.split(".")[-1] in ("Exception", "BaseException", "ExceptionGroup", "Error") or True:
                return norm(e.args[0]) if e.args else None
    return None


def mine(r: Report, rule: str, p: Path, marks: list[Event]) -> None:
    for m in marks:
        recv = m.args[0] if m.args else NONE
        r.require(recv[0] == "inst" and recv[1].endswith(".Execution"), rule, "Worker._execute/receiver", f"the outcome is recorded on {show(recv)}", p, m)


def outcome_told(r: Report, rule: str, p: Path, h: Event, bodies: list[Event], exc: Event | bool | None) -> None:
    """The handler is given the execution and an outcome that says how it ended."""
    news = [e for e in p.trace if e.kind == "new" and e.name.endswith(".TaskOutcome") and any(norm(e.result) == norm(a) for a in arguments(h))]
    if not r.require(bool(news), rule, "Worker._execute/outcome", "the handler is not given the outcome", p, h):
        return
    n = news[-1]
    ex, res = n.arg(2, "exception", NONE), n.arg(1, "result", NONE)
    took(r, rule, p, n, bodies)
    if exc is None:
        r.require(ex == NONE, rule, "Worker._execute/outcome-exception", "a successful outcome carries an exception", p, n)
        r.require(bool(bodies) and norm(res) == norm(bodies[-1].result), rule, "Worker._execute/outcome-result", f"the outcome's result is {show(res)}", p, n)
    else:
        caught = caught_exception(p)
        r.require(caught is not None and norm(ex) == caught, rule, "Worker._execute/outcome-exception", f"the outcome's exception is {show(ex)}", p, n)


def took(r: Report, rule: str, p: Path, n: Event, bodies: list[Event]) -> None:
    """The outcome's duration is the time between two readings of the clock, the
    first of them before the body started: reschedules subtract it."""
    def clocks(t: Any) -> Any:
        if not isinstance(t, tuple):
            return t
        return ("sym", "clock", t[1]) if t[:1] == ("now",) and len(t) == 2 else tuple(clocks(x) for x in t)
    d = clocks(norm(n.arg(0, "duration", NONE)))
    lin = linear(d)
    read = {t[2]: v for t, v in lin.items() if t is not None and t[:2] == ("sym", "clock")}
    where = "Worker._execute/outcome-duration"
    if set(lin) <= {None}:
        r.require(False, rule, where, f"the outcome's duration is {show(d)[:80]}, whatever the task took", p, n)
    elif read:
        ok = len(read) == 2 and read[max(read)] == 1 and read[min(read)] == -1 and set(lin) == {("sym", "clock", x) for x in read}
        r.require(ok, rule, where, f"the outcome's duration {show(d)[:80]} is not the time from a start to an end", p, n)


def body_arguments(r: Report, rule: str, p: Path, e: Event) -> None:
    where = "Worker._execute/" + last(e)
    if last(e) == "run":
        rest = [a for a in arguments(e)[1:]]
        by = dict(e.kwargs)
        pos = by.get("args") or (rest[2] if len(rest) > 2 else NONE)
        kw = by.get("kwargs") or (rest[3] if len(rest) > 3 else NONE)
        r.require(norm(pos) == ("sym", "args", pos[-1] if pos[0] == "sym" else None), rule, where + "/args", f"the runtime is given positional arguments {show(pos)}", p, e)
        parts = dict_parts(kw)
    else:
        r.require(len(e.args) == 1 and e.args[0][0] == "star" and e.args[0][1][0] == "sym" and e.args[0][1][1] == "args", rule, where + "/args", f"called with positional arguments {[show(a) for a in e.args]}", p, e)
        parts = []
        for k, v in e.kwargs:
            parts += dict_parts(v) if k.startswith("**") else [(k, v)]
    own = [v for k, v in parts if k is None and v[0] == "sym" and v[1] == "kwargs"]
    deps = [v for k, v in parts if k is None and "resolved_dependencies" in repr(v)]
    r.require(bool(own), rule, where + "/kwargs", "the execution's own keyword arguments are not passed", p, e)
    r.require(bool(deps), rule, where + "/dependencies", "the resolved dependencies are not passed", p, e)
    for d in deps:
        filt = [x for x in walk(d) if x[0] == "call" and x[1] in ("startswith",) or x[0] == "call" and x[1] == "method" and "startswith" in repr(x)]
        r.require("__worker_dep__" in repr(d), rule, where + "/worker-dependencies", "the worker's own dependencies are passed to the task", p, e)
        _ = filt
    r.require(len(parts) == len(own) + len(deps), rule, where + "/extra", "other keyword arguments are passed", p, e)


def dict_parts(t: Term) -> list[tuple[Any, Term]]:
    """The entries of a dictionary: (key, value), with key None for a merged one."""
    t = norm(t)
    if t[0] == "call" and t[1] == "dict":
        out: list[tuple[Any, Term]] = []
        for kv in t[2]:
            k, v = kv[1]
            if k[0] == "star":
                out += dict_parts(k[1])
            else:
                out.append((k, v))
        return out
    if t[0] == "binop" and t[1] == "|":
        return dict_parts(t[2]) + dict_parts(t[3])
    return [(None, t)]
