"""Adding: what is asked for is what is scheduled."""
from __future__ import annotations

from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import NONE, Term, const, norm, show, walk
from .common import KEY, WHEN, facts, public_inline
from .running import arguments, last
from .wire import attrs, marks

FUNCTION: Term = ("sym", "function", None)
NAME: Term = ("sym", "name", "str")
TASKS: Term = ("attr", DOCKET, "tasks")
ARGS: Term = ("sym", "args", None)
KWARGS: Term = ("sym", "kwargs", None)


def asked(w: World, how: str, f: Term) -> list[Path]:
    """Paths of docket.add(...)(...) and docket.replace(...)(...)."""
    def body(it: Any) -> Term:
        fr, n = w.frame("docket.docket"), w.prog.func("Docket." + how).node
        s = w.call(it, DOCKET, "Docket." + how, [f], {"when": WHEN, "key": KEY})
        c = it.call_term(s, [("star", ARGS)], {"**0": KWARGS}, fr, n)
        e = it.await_(c, fr, n)
        it.emit(Event("mark", "execution", (it.freeze(e),)))
        attrs(w, it, e, ("function", "function_name", "args", "kwargs", "key", "when", "attempt"))
        return e
    return w.paths(f"Docket.{how}({show(f)})", body, inline=public_inline, summarise=lambda f: False)


def own(t: Term, name: str) -> bool:
    """The caller's positional or keyword arguments, whole."""
    t = norm(t)
    if t[0] in ("tuple", "list", "dict", "call") and len(t) > 1 and t[1] and isinstance(t[1], tuple) and len(t[1]) == 1 and t[1][0][0] == "star":
        t = norm(t[1][0][1])
    return t[:2] == ("sym", name)


def is_name(t: Term, f: Term) -> bool:
    """A function's own name, possibly after an alias that is not given."""
    t = norm(t)
    return t == ("attr", f, "__name__") or t[0] == "call" and t[1] == "getattr" and t[2][:2] == (f, const("__name__"))


def looked_up(t: Term, n: Term) -> bool:
    t = norm(t)
    return t[0] == "index" and norm(t[1]) == TASKS and norm(t[2]) == n or t[0] == "call" and t[1] == "get" and norm(t[2][0]) == TASKS and norm(t[2][1]) == n


def fresh(t: Term) -> bool:
    return any(x[0] == "call" and any(s in str(x[1]) for s in ("uuid", "token_hex", "token_urlsafe")) for x in walk(norm(t)))


def none(p: Path, t: Term) -> bool | None:
    for c, v in facts(p):
        if c == ("cmp", "==", t, NONE):
            return bool(v)
        if c == ("truth", t):
            return not v
    return None


def c30(w: World, r: Report) -> None:
    r.explain.append("Docket.add and Docket.replace are evaluated symbolically, for a function and for a name, through the callable they return; every attribute of the execution that is handed back and scheduled is compared "
                     "with what was asked for. Docket.register and Docket.register_collection are evaluated for up to two names and functions.")
    what = r.rule("C30.function", "a function is scheduled as itself under its own name; a name is scheduled as the function registered under it, under that very name")
    known = r.rule("C30.registered", "a function is registered under its own name before it is scheduled")
    given = r.rule("C30.values", "arguments, time and key are those given; without a time it is now, without a key a fresh one; it is a first attempt")
    back = r.rule("C30.returned", "the execution handed back is the one that was scheduled")
    reg = r.rule("C30.register", "registering puts the function, once its dependencies are found valid, under each name given, or else under its own, and touches nothing else")
    coll = r.rule("C30.collection", "registering a collection registers each of its functions")
    for how in ("add", "replace"):
        for f in (FUNCTION, NAME):
            when_given = set()
            for p in asked(w, how, f):
                where = f"Docket.{how}"
                if p.outcome != "ok":
                    r.fail(given, where + "/raises", f"raises {show(p.value)[:60] if p.value else ''}", p)
                    continue
                m = marks(p)
                if f == FUNCTION:
                    r.require(m["function"] == FUNCTION, what, where + "/function", f"schedules {show(m['function'])[:80]}", p)
                    alts = named(m["function_name"])
                    r.require(any(is_name(x, FUNCTION) for x in alts) and all(is_name(x, FUNCTION) or x == NONE for x in alts), what, where + "/function-name", f"schedules under {show(m['function_name'])[:80]}", p)
                    regs = [i for i, e in enumerate(p.trace) if e.kind == "setitem" and norm(e.args[0]) == TASKS and is_name(e.args[1], FUNCTION) and norm(e.args[2]) == FUNCTION]
                    regs += [i for i, e in bulk(p)]
                    first = next((i for i, e in enumerate(p.trace) if e.kind in ("script", "redis")), len(p.trace))
                    r.require(bool(regs) and regs[0] < first, known, where, "a function is scheduled without being registered", p)
                else:
                    r.require(looked_up(m["function"], NAME), what, where + "/named", f"schedules {show(m['function'])[:80]} for a name", p)
                    alts = named(m["function_name"])
                    r.require(bool(alts) and alts[0] == NAME, what, where + "/alias", f"schedules a name under {show(m['function_name'])[:80]}", p)
                r.require(own(m["args"], "args"), given, where + "/args", f"schedules positional arguments {show(m['args'])[:80]}", p)
                r.require(own(m["kwargs"], "kwargs"), given, where + "/kwargs", f"schedules keyword arguments {show(m['kwargs'])[:80]}", p)
                r.require(m["attempt"] == const(1), given, where + "/attempt", f"starts at attempt {show(m['attempt'])[:40]}", p)
                for t, a in ((WHEN, "when"), (KEY, "key")):
                    absent = none(p, t) if how == "add" else False
                    when_given.add((a, absent))
                    if absent:
                        ok = m[a][0] == "now" if a == "when" else fresh(m[a])
                        r.require(ok, given, f"{where}/no-{a}", f"without a {a}, uses {show(m[a])[:80]}", p)
                    else:
                        r.require(m[a] == t or how == "add" and m[a][0] in ("or", "ite") and t in list(walk(m[a])), given, f"{where}/{a}", f"schedules with {a} {show(m[a])[:80]}", p)
                x = norm(m["execution"])
                done = [e for e in p.trace if e.kind == "assign" and e.name == "disposition" and norm(e.args[0]) == x and p.trace.index(e) > 0]
                r.require(len(done) >= 2, back, where, "the execution handed back never learns what became of it", p)
                names = {norm(e.args[0]) for e in p.trace if e.kind == "call" and e.name.endswith("Execution.schedule") and e.args}
                r.require(names <= {x}, back, where + "/other", "another execution is scheduled", p)
            if how == "add":
                r.require(len(when_given) == 4 or any(v is None for _, v in when_given), given, "Docket.add/optional", "a time or a key is taken to be always given", None)
    registering(w, r, reg, coll)
    for rule in (what, known, given, back, reg, coll):
        r.expect(rule, 2)


def bulk(p: Path) -> list[tuple[int, Event]]:
    """Registrations of the function under several names in one go."""
    return [(i, e) for i, e in enumerate(p.trace) if e.kind == "call" and last(e) in ("update", "__ior__") and e.args and norm(e.args[0]) == TASKS and mentions_any([*e.args[1:], *[v for _, v in e.kwargs]], FUNCTION)]


def named(t: Term) -> list[Term]:
    """The terms a name may come from, in order of preference."""
    t = norm(t)
    if t[0] in ("or",):
        return [y for x in (t[1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]) for y in named(x)]
    return [t]


def registering(w: World, r: Report, reg: str, coll: str) -> None:
    names: Term = ("sym", "names", None)
    where = "Docket.register"
    most = 0
    for p in w.paths("Docket.register", lambda it: w.call(it, DOCKET, "Docket.register", [FUNCTION], {"names": names}), inline=lambda f: f.module.name == "docket.docket", summarise=lambda f: False, loop=2):
        if p.outcome != "ok":
            continue
        sets = [(i, e) for i, e in enumerate(p.trace) if e.kind == "setitem" and norm(e.args[0]) == TASKS]
        val = next((i for i, e in enumerate(p.trace) if e.kind == "call" and last(e) == "validate_dependencies" and FUNCTION in [norm(a) for a in arguments(e)]), None)
        r.require(val is not None and all(val < i for i, _ in [*sets, *bulk(p)]), reg, where + "/valid", "a function is registered before its dependencies are found valid", p)
        if bulk(p):
            most = 2
            continue
        for _, e in sets:
            r.require(norm(e.args[2]) == FUNCTION, reg, where + "/function", f"registers {show(e.args[2])[:60]}", p, e)
        used = [norm(e.args[1]) for _, e in sets]
        rounds = [e for e in p.trace if e.kind == "loop"]
        if none(p, names) is not True:
            want = {k for k in used if k[0] == "elem" and mentions_any([k[1]], names)}
            bare = [k for k in used if is_name(k, FUNCTION)]
            n = max((int(e.name) for e in rounds if str(e.name).isdigit() and e.args and mentions_any(e.args, names)), default=None)
            if n is not None and (none(p, names) is False or mentions_any([a for e in rounds for a in e.args], ("attr", FUNCTION, "__name__"))):
                most = max(most, n)
                r.require(len(want) == n and not bare, reg, where + "/names", f"registers {len(want)} of {n} names", p)
            continue
        r.require(len(used) == 1 and is_name(used[0], FUNCTION), reg, where + "/own-name", f"registers under {[show(k)[:40] for k in used]}", p)
    r.require(most >= 2, reg, where + "/several", "no path registers several names")

    def collection(it: Any) -> Term:
        return w.call(it, DOCKET, "Docket.register_collection", [("sym", "path", "str")])
    most = 0
    for p in w.paths("Docket.register_collection", collection, inline=lambda f: f.name != "register" and f.module.name == "docket.docket", summarise=lambda f: False, loop=2):
        if p.outcome != "ok":
            continue
        where = "Docket.register_collection"
        rounds = [e for e in p.trace if e.kind == "loop" and str(e.name).isdigit()]
        regs = [e for e in p.trace if e.kind == "call" and last(e) == "register"]
        if not rounds:
            continue
        n = int(rounds[-1].name)
        of = norm(rounds[-1].args[0]) if rounds[-1].args else NONE
        most = max(most, n)
        got = {norm(a) for e in regs for a in arguments(e) if norm(a)[0] == "elem"}
        r.require({norm(("elem", of, i)) for i in range(n)} <= got, coll, where, f"registers {len(got)} of {n} functions", p)
        r.require(all(not e.kwargs or dict(e.kwargs).get("names", NONE) == NONE or "function" in dict(e.kwargs) and len(e.kwargs) == 1 for e in regs), coll, where + "/names", "registers under other names", p)
    r.require(most >= 2, coll, "Docket.register_collection/several", "no path registers several functions")


def mentions_any(args: Any, t: Term) -> bool:
    return any(t in list(walk(norm(a))) for a in args)
