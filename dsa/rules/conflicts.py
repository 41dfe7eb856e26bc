"""At most one single dependency of a kind governs a run."""
from __future__ import annotations

import ast
import itertools
from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..program import Class
from ..report import Report
from ..terms import NONE, Term, const, norm, show
from .resolution import ANNS, failure, resolved, strip

WHERE = {"argument argument": (("a", None), ("b", None)), "argument annotation": (("a", None), (None, "b")), "annotation annotation": ((None, "a"), (None, "b")), "same parameter": ((None, "a"), (None, "a"))}


def is_single(w: World, c: Class) -> bool:
    for k in w.prog.mro(c):
        if "single" in k.values:
            v = k.values["single"]
            return isinstance(v, ast.Constant) and v.value is True
    return False


def shared(w: World, a: Class, b: Class) -> list[Class]:
    """The single kinds two dependencies both are."""
    return [k for k in w.prog.mro(a) if k in w.prog.mro(b) and is_single(w, k)]


def items_of(it: Any, v: Term) -> list[tuple[Term, Term]] | None:
    o = it.obj(v)
    return None if o is None or o["kind"] != "dict" or any(k[0] == "star" for k, _ in o["items"]) else o["items"]


def derived(w: World, c: Class, name: str) -> Class:
    """A user's kind of dependency."""
    node = ast.parse(f"class {name}({c.name}): pass").body[0]
    assert isinstance(node, ast.ClassDef)
    k = Class("user." + name, c.module, node, [("class", c.qual)])
    w.prog.classes[k.qual] = k
    return k


def c32(w: World, r: Report) -> None:
    before = dict(w.prog.classes)
    try:
        for name in ("Runtime", "FailureHandler", "CompletionHandler", "Timeout", "ConcurrencyLimit", "Debounce"):
            mine = derived(w, w.prog.klass(name), "My" + name)
            if name == "Runtime":
                derived(w, mine, "Special" + name)
        search(w, r)
    finally:
        w.prog.classes.clear()
        w.prog.classes.update(before)


def search(w: World, r: Report) -> None:
    kinds = sorted((c for c in w.prog.classes.values() if any(b.split(".")[-1].split("[")[0] == "Dependency" for b in w.prog.ext_bases(c)) and not c.name.startswith("_")), key=lambda c: c.qual)
    r.explain.append(f"The worker's check for conflicts is evaluated on every pair of {len(kinds)} kinds of dependency (the package's, and kinds derived from them), placed as arguments and as annotations in each way: it reports one exactly where both are of one kind "
                     "that may be there only once, and names both places. Its answer is followed into the arguments of the run, and the worker's own dependencies through the constructor.")
    conflict = r.rule("C32.conflict", "two dependencies of one single kind in scope are a conflict, and nothing else is")
    named = r.rule("C32.named", "the conflict is a failed dependency whose error names both places")
    governs = r.rule("C32.governs", "the dependency of a single kind that is in scope is the one found, wherever it was declared, and no other")
    scope = r.rule("C32.scope", "each run looks for conflicts among its own arguments and annotations, and is given what was found")
    given = r.rule("C32.given", "a worker takes the dependencies it is given, each under its name, and refuses what is none")
    registered = r.rule("C32.registered", "a task whose own dependencies conflict is refused when it is registered")
    single = [c for c in kinds if is_single(w, c)]
    for name in ("Runtime", "FailureHandler", "CompletionHandler", "ConcurrencyLimit", "Debounce"):
        r.require(w.prog.klass(name) in single, conflict, name, "may be in scope more than once")
    plain = [c for c in kinds if not is_single(w, c)]
    worker = w.prog.klass("Worker")
    validate = w.prog.method(worker, "validate_task_dependencies")
    pairs = [(a, b) for a, b in itertools.product(single, repeat=2)] + [(a, b) for a in plain for b in (a, single[0])]
    cases = [(f"{a.name} and {b.name} as {how}", [(a, places[0]), (b, places[1])]) for a, b in pairs for how, places in WHERE.items()]
    cases += [(f"{a.name} and {b.name} around {c.name}", [(a, ("a", None)), (c, ("c", None)), (b, at)])
              for a, b in pairs if shared(w, a, b) for c in (plain[0], next(x for x in single if not shared(w, x, a))) for at in (("b", None), (None, "b"))]
    for name, items in cases:
        def body(it: Any, items: Any = items) -> Term:
            me = w.worker(it)
            arguments: list[tuple[Term, Term]] = [(const("other"), const("value"))]
            annotations: dict[str, list[Term]] = {}
            for n, (c, (arg, ann)) in enumerate(items):
                one: Term = ("inst", c.qual, -100 - n)
                if arg is not None:
                    arguments.append((const(arg), one))
                else:
                    annotations.setdefault(ann, []).append(one)
            it.heap[(norm(me), "dependencies")] = it.new_dict([(const("x"), ("sym", "dependency", None))])
            v = w.call(it, me, validate.qual, [("sym", "function", "Callable"), it.new_dict(arguments), it.new_dict([(const(k), it.new_list(v)) for k, v in annotations.items()])])
            got = items_of(it, v)
            for (n, attr), said in list(it.heap.items()):
                if n[0] == "exc" and attr == "args":
                    it.emit(Event("mark", "says", (n, it.freeze(said))))
            return ("tuple", tuple(("tuple", (norm(k), norm(it.freeze(x)))) for k, x in got)) if got is not None else ("sym", "unknown", None)
        for p in w.paths("conflict of " + name, body, inline=lambda f: True, summarise=lambda f: False, exact=True, budget=200, elements=16):
            judge(w, r, p, name, items, conflict, named)
    governing(w, r, governs, single, plain)
    run_scope(w, r, scope)
    constructor(w, r, given)
    registration(w, r, registered)
    for rule, least in ((conflict, 60), (named, 20), (governs, 10), (scope, 1), (given, 4), (registered, 1)):
        r.expect(rule, least)


def judge(w: World, r: Report, p: Path, name: str, items: list[tuple[Class, tuple[str | None, str | None]]], conflict: str, named: str) -> None:
    v = p.value
    if not r.require(p.outcome == "ok" and v is not None and v[0] == "tuple", conflict, name, "cannot be evaluated" if p.outcome == "ok" else "raises", p):
        return
    found = v[1]
    places = [at[0] or at[1] for _, at in items]
    clashes = [(places[i], places[j]) for i, j in itertools.combinations(range(len(items)), 2) if shared(w, items[i][0], items[j][0])]
    r.require(bool(found) == bool(clashes), conflict, name, f"{'are not' if clashes else 'are'} reported as a conflict", p)
    for one in found:
        key, what = one[1]
        made = failure(p, what)
        said = repr([e.args[1] for e in p.trace if e.kind == "mark" and made is not None and e.args[0] in made])
        r.require(made is not None, named, name + "/failed", "the conflict is not a failed dependency", p)
        r.require(any(all(repr(x) in said or repr(repr(x))[1:-1] in said for x in pair) for pair in clashes), named, name + "/places", "the error does not name both places", p)
        r.require(key not in [const(x) for x in [*places, "other"]], named, name + "/slot", f"{show(key)} replaces an argument", p)


def governing(w: World, r: Report, rule: str, single: list[Class], plain: list[Class]) -> None:
    f = w.prog.func("get_single_dependency_of_type")
    for kind, c in itertools.product(single, repeat=2):
        for slot in ("parameter", "__worker_dep__x"):
            one: Term = ("inst", c.qual, -100)
            other: Term = ("inst", plain[0].qual, -101)

            def body(it: Any, one: Term = one, kind: Class = kind, slot: str = slot) -> Term:
                return norm(w.call(it, None, f.qual, [it.new_dict([(const("a"), const("value")), (const("b"), other), (const(slot), one), (const("c"), const(7))]), ("class", kind.qual)]))
            want = one if kind in w.prog.mro(c) else NONE
            for p in w.paths(f"the {kind.name} of {c.name} in {slot}", body, inline=lambda g: True, summarise=lambda g: False, exact=True, budget=200, elements=16):
                r.require(p.outcome == "ok" and p.value == want, rule, f"{kind.name} where {slot} is a {c.name}", f"finds {show(p.value)[:60]}", p)


def run_scope(w: World, r: Report, rule: str) -> None:
    worker = w.prog.klass("Worker")
    validate = w.prog.method(worker, "validate_task_dependencies")
    kind = next(c for c in w.prog.classes.values() if is_single(w, c))
    for first, second in ((0, 1), (1, 0)):
        def body(it: Any, first: int = first, second: int = second) -> Term:
            me = w.worker(it)
            it.heap[(norm(me), "dependencies")] = it.new_dict([(const("x"), ("sym", "dependency", None))])
            for n in ast.walk(w.prog.method(worker, "__init__").node):   # what the worker remembers starts empty
                target = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
                if isinstance(target, ast.Attribute) and isinstance(n.value, ast.Dict):
                    it.heap[(norm(me), target.attr)] = it.new_dict([])
            out = []
            for clash in (first, second):
                arguments = it.new_dict([(const("slot"), ("inst", kind.qual, -100)), (const("a"), ("inst", kind.qual, -101) if clash else NONE)])
                v = w.call(it, me, validate.qual, [("sym", "function", "Callable"), arguments, it.new_dict([])])
                got = items_of(it, v)
                out.append(const(None if got is None else bool(got)))
            return ("tuple", tuple(out))
        for p in w.paths(f"conflicts of two runs {first}{second}", body, inline=lambda f: True, summarise=lambda f: False, exact=True, budget=200, elements=16):
            r.require(p.outcome == "ok" and p.value == ("tuple", (const(bool(first)), const(bool(second)))), rule, "two runs of one task",
                      f"of {'a run with a conflict and one without' if first else 'a run without a conflict and one with'}, the conflicts found are {show(p.value)[:60]}", p)
    for p in resolved(w):
        at = next((n for n, e in enumerate(p.trace) if e.kind == "mark" and e.name == "body"), None)
        if at is None:
            continue
        e = next((e for e in p.trace[:at] if e.kind == "call" and e.name.endswith("validate_task_dependencies")), None)
        if e is None:
            continue
        ex = norm(p.trace[at].args[1])
        args = {**{n: a for n, a in zip(("self", "function", "arguments", "annotations"), e.args)}, **dict(e.kwargs)}
        r.require(norm(args.get("function", NONE)) == ("attr", ex, "function") or norm(args.get("function", NONE))[:2] == ("sym", "function"), rule, "resolved_dependencies/function", "conflicts are looked for in another function", p, e)
        r.require(strip(norm(args.get("annotations", NONE))) == ANNS, rule, "resolved_dependencies/annotations", "conflicts are not looked for among the annotations of the run", p, e)


def constructor(w: World, r: Report, rule: str) -> None:
    worker = w.prog.klass("Worker")
    init = w.prog.method(worker, "__init__")
    kind = next(c for c in w.prog.classes.values() if is_single(w, c))
    one: Term = ("inst", kind.qual, -100)
    two: Term = ("inst", kind.qual, -101)
    cases = {
        "nothing": (lambda it: NONE, []), "an empty list": (lambda it: it.new_list([]), []),
        "a list": (lambda it: it.new_list([one, two]), [(None, one), (None, two)]),
        "names": (lambda it: it.new_dict([(const("x"), one), (const("y"), two)]), [("x", one), ("y", two)]),
        "a reserved name": (lambda it: it.new_dict([(const("__x"), one)]), "ValueError"),
        "no dependency": (lambda it: it.new_list([const("text")]), "TypeError"),
        "no dependency after one": (lambda it: it.new_list([one, const("text")]), "TypeError"),
        "no dependency by name": (lambda it: it.new_dict([(const("x"), const("text"))]), "TypeError"),
    }
    for name, (value, want) in cases.items():
        def body(it: Any, value: Any = value) -> Term:
            me: Term = ("inst", worker.qual, -1)
            w.call(it, me, init.qual, [("sym", "docket", "docket.docket.Docket")], {"dependencies": value(it)})
            got = items_of(it, it.heap.get((norm(me), "dependencies"), NONE))
            return NONE if got is None else ("tuple", tuple(("tuple", (norm(k), norm(v))) for k, v in got))
        for p in w.paths("Worker given " + name, body, inline=lambda f: True, summarise=lambda f: False, exact=True, budget=200, elements=16):
            if isinstance(want, str):
                r.require(p.outcome == "raise" and want in show(p.value), rule, "Worker(" + name + ")", "is not refused" if p.outcome == "ok" else f"raises {show(p.value)[:60]}", p)
                continue
            if not r.require(p.outcome == "ok" and p.value != NONE, rule, "Worker(" + name + ")", "is refused", p):
                continue
            got = [x[1] for x in p.value[1]]
            r.require([v for _, v in got] == [v for _, v in want] and all(n is None or k == const(n) for (k, _), (n, _) in zip(got, want)) and len({k for k, _ in got}) == len(got),
                      rule, "Worker(" + name + ")/kept", f"its dependencies are {show(p.value)[:80]}", p)


def registration(w: World, r: Report, rule: str) -> None:
    f = w.prog.method(w.prog.klass("Docket"), "register")

    def body(it: Any) -> Term:
        it.heap[(DOCKET, "tasks")] = it.new_dict([])
        try:
            w.call(it, DOCKET, f.qual, [("sym", "function", "Callable")])
        finally:
            it.emit(Event("mark", "tasks", (it.freeze(it.heap[(DOCKET, "tasks")]),)))
        return NONE

    def checks(e: Event) -> bool:
        return e.kind == "call" and e.name.split(".")[-1] == "validate_dependencies"
    for p in w.paths("register a task", body, inline=lambda g: g.cls is f.cls, summarise=lambda g: False, raises=lambda e, t: ("ValueError",) if checks(e) else ()):
        call = next((e for e in p.trace if checks(e)), None)
        r.require(call is not None and call.args and norm(call.args[0]) == ("sym", "function", "Callable"), rule, "Docket.register", "a task's dependencies are not checked", p)
        if any(e.kind == "throw" for e in p.trace):
            tasks = next((e.args[0] for e in p.trace if e.kind == "mark" and e.name == "tasks"), NONE)
            r.require(p.outcome == "raise", rule, "Docket.register/refused", "a task whose dependencies conflict is registered", p)
            r.require("function" not in repr(tasks), rule, "Docket.register/kept", "a task that was refused is registered all the same", p)
