"""What is asked for on the command line is what is done."""
from __future__ import annotations

import ast
from typing import Any

from ..model import Path, World
from ..paths import Event
from ..program import Func, all_args
from ..report import Report
from ..terms import NONE, Term, const, norm, show, walk

CLI = "docket.cli"
STORED = ("docket", "concurrency", "redelivery_timeout", "reconnection_delay", "minimum_check_interval", "scheduling_resolution",
          "schedule_automatic_tasks", "enable_internal_instrumentation")


def done(it: Any, fn: Term, args: list, kw: dict, fr: Any, at: Any) -> Term:
    return it.await_(args[0], fr, at)


def asked(name: str) -> Any:
    def hook(it: Any, fn: Term, args: list, kw: dict, fr: Any, at: Any) -> Term:
        if fn[0] == "bound":
            args = [fn[1], *args]
        it.emit(Event("mark", name, tuple(norm(a) for a in args), tuple((k, norm(v)) for k, v in kw.items())))
        return ("call", "answer of " + name, ())
    return hook


def options(f: Func) -> dict[str, str]:
    """The parameters of a command by the name they have on the command line:
    options by their flag, arguments by their place."""
    out: dict[str, str] = {}
    n = 0
    for a in all_args(f.node.args):
        how = next((x for x in ast.walk(a.annotation) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("Option", "Argument")), None) if a.annotation else None
        if how is not None and how.func.attr == "Argument":
            out[f"argument {n}"] = a.arg
            n += 1
            continue
        flags = [x.value.split("/")[0] for x in how.args if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith("--")] if how is not None else []
        out[flags[0] if flags else "--" + a.arg.strip("_").replace("_", "-")] = a.arg
    return out


def bound(f: Func, e: Event, skip: int = 0) -> dict[str, Term]:
    """The arguments of a call, by the names of the function's parameters."""
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args][skip:]
    return {**dict(zip(names, (norm(a) for a in e.args))), **{k: norm(v) for k, v in e.kwargs}}


def sym(t: Term | None, name: str) -> bool:
    return t is not None and t[:2] == ("sym", name)


def c38(w: World, r: Report) -> None:
    r.explain.append("Worker.run and the commands of the command line are followed from their parameters, each unknown, to the constructors and methods of the package they reach: every option has to arrive, itself and not another, at what it is "
                     "documented to set; a signal handler, once installed, is followed too.")
    rules = {
        "passes": r.rule("C38.passes", "the worker command hands each of its options to Worker.run as the setting of that name"),
        "worker": r.rule("C38.worker", "Worker.run makes its docket and worker of exactly the settings it was given"),
        "keeps": r.rule("C38.keeps", "a worker works with the settings it was made with"),
        "tasks": r.rule("C38.tasks", "every task collection named is registered, on that docket, before the worker starts"),
        "mode": r.rule("C38.mode", "the worker runs until finished when asked to, and for ever otherwise, and is waited for"),
        "signal": r.rule("C38.signal", "a termination signal stops the run, which ends quietly; any other failure is passed on"),
        "docket": r.rule("C38.docket", "each command acts on the docket named, at the URL given"),
        "acts": r.rule("C38.acts", "each command does what it is for, once, with the arguments given"),
        "parsers": r.rule("C38.parsers", "durations, strike targets and URLs are read by the parsers of the package"),
    }
    passes(w, r, rules["passes"])
    running(w, r, rules)
    keeps(w, r, rules["keeps"])
    commands(w, r, rules)
    parsers(w, r, rules["parsers"])
    for name, least in (("passes", 15), ("worker", 15), ("keeps", 8), ("tasks", 2), ("mode", 2), ("signal", 3), ("docket", 8), ("acts", 8), ("parsers", 10)):
        r.expect(rules[name], least)


def command(w: World, name: str) -> Func:
    """The command of the command line of that name."""
    got = [f for f in w.prog.funcs.values() if f.module.name == CLI and f.cls is None and any(said(d) == name for d in f.node.decorator_list) or f.qual == f"{CLI}.{name}"]
    return got[0] if got else w.prog.func(f"{CLI}.{name}")


def said(d: ast.expr) -> str | None:
    if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "command":
        given = [*d.args, *(k.value for k in d.keywords if k.arg == "name")]
        return next((x.value for x in given[:1] if isinstance(x, ast.Constant)), None)
    return None


COLLECTIONS: list[Term] = [("sym", "one collection", "str"), ("sym", "another", "str")]


def followed(w: World, f: Func) -> list[Path]:
    tasks = options(f).get("--tasks") if f.name != "worker" else None
    d = w.prog.klass("Docket")
    hooks: dict[str, Any] = {"asyncio.run": done, w.prog.method(w.prog.klass("Worker"), "run").qual: asked("Worker.run")}
    for n in ("strike", "restore", "clear", "snapshot", "workers", "task_workers", "add", "register_collection", "get_execution", "replace", "schedule", "cancel"):
        m = w.prog.method(d, n)
        if m is not None:
            hooks[m.qual] = asked(n)
    def enough(e: Event, trace: list[Event]) -> bool:
        """What is shown afterwards is no concern of this rule."""
        return e.kind == "ret" and e.name.startswith(f.qual + ".") and any(x.kind == "mark" for x in trace)

    return w.paths("command " + f.qual, lambda it: w.call(it, None, f.qual, kwargs={tasks: it.new_list(list(COLLECTIONS))} if tasks else {}), cut=enough if f.name in ("snapshot", "watch") else None, inline=lambda g: g.module.name == CLI or g.module.name.startswith(CLI + "."),
                   summarise=lambda g: False, hooks=hooks, elements=2, budget=400)


def passes(w: World, r: Report, rule: str) -> None:
    f = command(w, "worker")
    run = w.prog.method(w.prog.klass("Worker"), "run")
    opts = options(f)
    for p in followed(w, f):
        got = [e for e in p.trace if e.kind == "mark" and e.name == "Worker.run"]
        if not r.require(p.outcome == "ok" and len(got) == 1, rule, "worker", f"starts {len(got)} workers", p):
            continue
        given = bound(run, got[0], skip=0 if got[0].args and got[0].args[0][0] == "class" else 1)
        for a in all_args(run.node.args):
            if a.arg == "cls":
                continue
            flag = "--docket" if a.arg == "docket_name" else "--" + a.arg.replace("_", "-")
            if not r.require(flag in opts, rule, "worker " + flag, f"there is no option for {a.arg}", p):
                continue
            r.require(sym(given.get(a.arg), opts[flag]), rule, "worker " + flag, f"{a.arg} is {show(given[a.arg])[:60] if a.arg in given else 'left to its default'}", p, got[0])


def running(w: World, r: Report, rules: dict[str, str]) -> None:
    worker, docket = w.prog.klass("Worker"), w.prog.klass("Docket")
    run = w.prog.method(worker, "run")
    winit, dinit = w.prog.method(worker, "__init__"), w.prog.method(docket, "__init__")
    modes = {w.prog.method(worker, n).qual: n for n in ("run_until_finished", "run_forever")}

    def body(it: Any) -> Term:
        v = w.call(it, None, run.qual, kwargs={"tasks": it.new_list(list(COLLECTIONS))})
        fr = w.frame(run.module.name)
        for e in [e for e in it.run.trace if e.kind == "spawn" and e.name.startswith(run.qual + ".")]:
            it.await_(e.result[2][0], fr, run.node)      # what the task it starts does
        for e in [e for e in it.run.trace if e.kind == "mark" and e.name == "handler"]:
            it.emit(Event("mark", "signalled", (e.args[0],)))
            it.call_term(e.extra["handler"], list(e.args[2:]), {}, fr, run.node)
        return v

    def handler(it: Any, recv: Term, args: list, kw: dict, fr: Any, at: Any) -> Term:
        it.emit(Event("mark", "handler", (norm(args[0]), norm(args[1]), *(norm(a) for a in args[2:])), extra={"handler": args[1]}))
        return NONE

    def raises(e: Event, trace: list[Event]) -> tuple[str, ...]:
        return ("asyncio.CancelledError", "RuntimeError") if e.kind == "await" and e.name == "task" else ()

    def mode(name: str) -> Any:
        def hook(it: Any, fn: Term, args: list, kw: dict, fr: Any, at: Any) -> Term:
            it.emit(Event("call", name, ()))
            return NONE
        return hook

    hooks: dict[str, Any] = {**{q: mode(q) for q in modes}, ".add_signal_handler": handler, w.prog.method(docket, "register_collection").qual: asked("register")}
    ps = w.paths("Worker.run", body, inline=lambda f: f.qual.startswith(run.qual) or (f.cls is worker and f.name not in ("__init__", "__aenter__", "__aexit__") and f.qual not in modes) or (f.cls is None and f.module is run.module),
                 summarise=lambda f: False, hooks=hooks, raises=raises, elements=4, budget=800)
    outcomes: set[str] = set()
    for p in ps:
        made = {e.name: e for e in p.trace if e.kind == "new"}
        d, k = made.get(docket.qual), made.get(worker.qual)
        if not r.require(d is not None and k is not None, rules["worker"], "Worker.run", "makes no docket or no worker", p):
            continue
        gd, gk = bound(dinit, d, 1), bound(winit, k, 1)
        r.require(sym(gd.get("name"), "docket_name"), rules["worker"], "Docket(name)", "is not the docket named", p, d)
        for n in ("url", "enable_internal_instrumentation"):
            r.require(sym(gd.get(n), n), rules["worker"], f"Docket({n})", "is not what was given", p, d)
        for a in all_args(winit.node.args):
            n = a.arg
            if n in ("self", "docket", "dependencies") or n == "fallback_task":
                continue
            r.require(sym(gk.get(n), n), rules["worker"], f"Worker({n})", f"is {show(gk[n])[:60] if n in gk else 'left to its default'}", p, k)
        dk = gk.get("docket")
        r.require(dk is not None and "Docket" in show(dk), rules["worker"], "Worker(docket)", "is not the docket made", p, k)
        named = [e for e in p.trace if e.kind == "call" and e.name.endswith("import_module")]
        taken = "fallback_task" in show(gk.get("fallback_task", NONE))
        r.require(taken == bool(named), rules["worker"], "Worker(fallback_task)", "is not the member named" if named else "is not what was given", p, k)
        for name in ("healthcheck", "metrics"):
            cm = next((e for e in p.trace if e.kind == "cm" and e.name.startswith("enter:") and name in e.name), None)
            started = [e for e in p.trace if e.kind in ("call", "coro", "cm") and name in e.name]
            r.require(cm is not None and bool(started), rules["worker"], f"{name}_port", "no server is started", p)
        begun = [(n, modes[e.name]) for n, e in enumerate(p.trace) if e.kind in ("spawn", "call") and e.name in modes]
        begun = [x for n, x in enumerate(begun) if not n or p.trace[x[0]].kind == "spawn" or not any(p.trace[y].kind == "spawn" for y, _ in begun)]
        own = [n for n, e in enumerate(p.trace) if e.kind == "spawn" and e.name.startswith(run.qual + ".")]
        starts = min([x for x, _ in begun] + own, default=len(p.trace))
        regs = [e for e in p.trace[:starts] if e.kind == "mark" and e.name == "register"]
        r.require([norm(e.args[-1]) for e in regs] == COLLECTIONS, rules["tasks"], "Worker.run(tasks)", f"{len(regs)} of {len(COLLECTIONS)} collections are registered", p)
        said = [x for _, x in begun]
        finished = next((e.result for e in p.trace if e.kind == "branch" and any(sym(x, "until_finished") for x in walk(norm(e.args[0])))), None)
        r.require(own and p.outcome != "ok" or own and any(e.kind == "throw" for e in p.trace) or len(said) == 1 and finished is not None and said[0] == ("run_until_finished" if finished else "run_forever"), rules["mode"], "Worker.run(until_finished)",
                  f"{'' if finished else 'not '}asked to run until finished, does {', '.join(said) or 'nothing'}", p)
        spawned = [e for e in p.trace if e.kind == "spawn" and (e.name in modes or e.name.startswith(run.qual + "."))]
        waits = [e for e in p.trace if e.kind == "await" and e.name == "task"]
        r.require(bool(waits) or not spawned, rules["mode"], "Worker.run/waits", "the run is not waited for", p)
        thrown = next((e for e in p.trace if e.kind == "throw" and e.name.split(".")[-1] in ("CancelledError", "RuntimeError")), None)
        kind = thrown.name.split(".")[-1] if thrown is not None else "ok"
        outcomes.add(kind)
        if kind == "RuntimeError":
            r.require(p.outcome == "raise", rules["signal"], "Worker.run/failure", "a failure of the run is lost", p)
            continue
        r.require(p.outcome == "ok", rules["signal"], "Worker.run/" + ("cancelled" if thrown is not None else "ends"), f"raises {show(p.value)[:60]}", p)
        handlers = {show(e.args[0]).split(".")[-1] for e in p.trace if e.kind == "mark" and e.name == "handler"}
        r.require({"SIGTERM", "SIGINT"} <= handlers, rules["signal"], "Worker.run/handlers", f"only {', '.join(sorted(handlers)) or 'nothing'} is handled", p)
        for n, e in enumerate(p.trace):
            if e.kind == "mark" and e.name == "signalled":
                end = next((m for m in range(n + 1, len(p.trace)) if p.trace[m].kind == "mark" and p.trace[m].name == "signalled"), len(p.trace))
                seg = p.trace[n:end]
                over = any(x.kind == "branch" and "done" in show(x.args[0]) and x.result == (not show(x.args[0]).startswith("not")) for x in seg)
                r.require(over or any(x.name.split(".")[-1] == "cancel" for x in seg), rules["signal"], "Worker.run/" + show(e.args[0]).split(".")[-1], "does not stop the run", p)
    for kind in ("ok", "CancelledError"):
        r.require(kind in outcomes, rules["signal"], "Worker.run/" + kind, "no such end was found")


def keeps(w: World, r: Report, rule: str) -> None:
    worker = w.prog.klass("Worker")
    init = w.prog.method(worker, "__init__")

    def body(it: Any) -> Term:
        me: Term = ("inst", worker.qual, -1)
        w.call(it, me, init.qual, [], {"dependencies": NONE})
        return ("tuple", tuple(norm(it.heap.get((norm(me), n), NONE)) for n in (*STORED, "name")))
    for p in w.paths("Worker made", body, inline=lambda f: True, summarise=lambda f: False, budget=200, elements=2):
        if not r.require(p.outcome == "ok" and p.value[0] == "tuple", rule, "Worker", "cannot be made", p):
            continue
        for n, v in zip(STORED, p.value[1]):
            r.require(sym(v, n), rule, "Worker." + n, f"is {show(v)[:60]}", p)
        name = p.value[1][-1]
        r.require(any(sym(x, "name") for x in walk(name)) or any(e.kind == "branch" and any(sym(x, "name") for x in walk(norm(e.args[0]))) for e in p.trace), rule, "Worker.name", f"is {show(name)[:60]} whatever was given", p)


# the command, the method of the docket it calls, and what that is given: an option, an argument, or a test
ACTS: dict[str, tuple[str, tuple[Any, ...]]] = {
    "strike": ("strike", ("argument 0", "argument 1", "argument 2", "value")),
    "restore": ("restore", ("argument 0", "argument 1", "argument 2", "value")),
    "clear": ("clear", ()),
    "trace": ("add", ("docket.tasks.trace", "now + --delay")),
    "fail": ("add", ("docket.tasks.fail", "now + --delay")),
    "sleep": ("add", ("docket.tasks.sleep", "now + --delay")),
    "snapshot": ("snapshot", ()),
    "ls": ("workers", ()),
    "for-task": ("task_workers", ("argument 0",)),
    "watch": ("get_execution", ("argument 0",)),
}


def commands(w: World, r: Report, rules: dict[str, str]) -> None:
    docket = w.prog.klass("Docket")
    dinit = w.prog.method(docket, "__init__")
    for name, (method, wants) in ACTS.items():
        f = command(w, name)
        opts = options(f)
        acted = 0
        for p in followed(w, f):
            made = [e for e in p.trace if e.kind == "new" and e.name == docket.qual]
            calls = [(n, e) for n, e in enumerate(p.trace) if e.kind == "mark" and e.name not in ("register_collection",)]
            if p.outcome == "raise" and not made:
                continue                      # what was asked for is refused
            for e in made:
                g = bound(dinit, e, 1)
                r.require(sym(g.get("name"), opts.get("--docket", "?")) , rules["docket"], f"{name} --docket", f"acts on {show(g.get('name', NONE))[:60]}", p, e)
                r.require(sym(g.get("url"), opts.get("--url", "?")), rules["docket"], f"{name} --url", f"acts at {show(g.get('url', NONE))[:60]}", p, e)
            if not r.require(bool(made) and [e.name for _, e in calls] == [method], rules["acts"], name, f"calls {', '.join(e.name for _, e in calls) or 'nothing'}", p):
                continue
            acted += 1
            at, e = calls[0]
            inside = sum(1 if x.name == "enter:" + docket.qual else -1 for x in p.trace[:at] if x.kind == "cm" and x.name.split(":", 1)[1] == docket.qual)
            r.require(inside > 0, rules["acts"], name + "/open", "the docket is not open", p, e)
            m = w.prog.method(docket, method)
            skip = 0 if e.args and "Docket" in show(e.args[0]) and e.args[0][0] in ("inst", "new") else 1
            names = [a.arg for a in all_args(m.node.args)][1:]
            given = bound(m, e, skip)
            for want, n in zip(wants, names):
                got = given.get(n, NONE)
                if want == "value":
                    ok = value_of(w, p, f, got, opts.get("argument 3", "?"))
                elif want.startswith("argument"):
                    ok = sym(got, opts.get(want, "?"))
                elif want.startswith("now"):
                    found = list(walk(got))
                    ok = any(show(x).startswith("now(") for x in found) and any(sym(x, opts.get("--delay", "?")) for x in found) and "+" in show(got) and " - " not in show(got)
                else:
                    ok = show(got).endswith(want)
                r.require(ok, rules["acts"], f"{name}/{n}", f"is {show(got)[:60]}", p, e)
            if method == "add":
                sent = [x for x in p.trace[at:] if x.kind == "call" and x.name == "answer of add" or x.kind == "call" and "answer of add" in x.name]
                r.require(len(sent) == 1 and len(sent[0].args) == 1 and sym(norm(sent[0].args[0]), opts.get("argument 0", "?")), rules["acts"], name + "/call", "the task is not given what was said", p, e)
            if method == "snapshot":
                regs = [x for x in p.trace[:at] if x.kind == "mark" and x.name == "register_collection"]
                r.require([norm(x.args[-1]) for x in regs] == COLLECTIONS, rules["acts"], name + "/tasks", "a collection is not registered", p, e)
        r.require(acted > 0, rules["acts"], name + "/acts", "never acts")


def value_of(w: World, p: Path, f: Func, got: Term, param: str) -> bool:
    """What is compared against is what interpret_python_value makes of the value."""
    rets = [e for e in p.trace if e.kind == "ret" and e.name.endswith("interpret_python_value")]
    if rets:
        call = next(e for e in p.trace if e.kind == "call" and e.name.endswith("interpret_python_value"))
        given = [norm(a) for a in call.args] + [norm(v) for _, v in call.kwargs]
        return len(rets) == 1 and norm(rets[0].args[0]) == got and any(sym(a, param) for a in given)
    return got == NONE or any(sym(x, param) for x in walk(got))


def parsers(w: World, r: Report, rule: str) -> None:
    for name in ("worker", *ACTS):
        f = command(w, name)
        for a in all_args(f.node.args):
            if a.annotation is None:
                continue
            how = next((x for x in ast.walk(a.annotation) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("Option", "Argument")), None)
            if how is None:
                continue
            kw = {k.arg: ast.unparse(k.value).split(".")[-1] for k in how.keywords if k.arg}
            kind = ast.unparse(a.annotation.slice.elts[0]) if isinstance(a.annotation, ast.Subscript) and isinstance(a.annotation.slice, ast.Tuple) else ""
            if kind == "timedelta":
                r.require(kw.get("parser") == "duration", rule, f"{name} {a.arg}", "a duration is not read as one", at=f.site)
            if name in ("strike", "restore") and how.func.attr == "Argument" and a.arg in list(options(f).values())[:2]:
                r.require(kw.get("callback") == "handle_strike_wildcard", rule, f"{name} {a.arg}", "the wildcard is taken for a name", at=f.site)
