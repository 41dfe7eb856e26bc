"""The world an entry point is analysed in, and the paths through it."""
from __future__ import annotations

from dataclasses import dataclass, replace, field
from typing import Any, Callable, Iterable

from .paths import AnalysisError, Event, Run
from .program import Program
from .pyexec import Config, Frame, Interp, explore
from .terms import NONE, Term, cat, const, norm, show, walk

DOCKET: Term = ("sym", "docket", "docket.docket.Docket")
PREFIX: Term = ("call", "prefix", (("attr", DOCKET, "name"),))


def hook_prefix(it: Interp, fn: Term, args: list, kwargs: dict, fr: Frame, at: Any) -> Term:
    name = args[0] if args else kwargs.get("name", NONE)
    return ("call", "prefix", (norm(name),))


def hook_client(it: Interp, fn: Term, args: list, kwargs: dict, fr: Frame, at: Any) -> Term:
    return ("call", "redis.client", (), "RedisClient")


def hook_pubsub(it: Interp, fn: Term, args: list, kwargs: dict, fr: Frame, at: Any) -> Term:
    return ("call", "redis.pubsub", (), "PubSubClient")


def hook_publish(it: Interp, fn: Term, args: list, kwargs: dict, fr: Frame, at: Any) -> Term:
    return it.redis_call(("redis", "client", 0, NONE), "publish", args, kwargs, fr, at)


BOUNDARY: dict[str, Callable] = {
    "docket._redis.RedisConnection.prefix": hook_prefix,
    "docket._redis.RedisConnection.client": hook_client,
    "docket._redis.RedisConnection.pubsub": hook_pubsub,
    "docket._redis.RedisConnection.publish": hook_publish,
}


@dataclass
class Path:
    run: Run
    outcome: str            # ok | raise
    value: Term
    entry: str

    @property
    def trace(self) -> list[Event]:
        return self.run.trace

    def redis(self, *cmds: str) -> list[Event]:
        return [e for e in self.trace if e.kind == "redis" and (not cmds or e.name in cmds)]

    def events(self, kind: str, name: str | None = None) -> list[Event]:
        return [e for e in self.trace if e.kind == kind and (name is None or e.name == name or e.name.endswith("." + name))]

    def fact(self, cond: Term) -> bool | None:
        return self.run.known(cond)

    def conditions(self) -> list[str]:
        return [f"{e.site}: {'' if e.result else 'not '}{show(e.args[0])}" for e in self.trace if e.kind == "branch"]


class World:
    def __init__(self, repo: str = "/repo") -> None:
        self.prog = Program(repo)
        self.stats: dict[str, int] = {}
        self.functions: set[str] = set()
        self.cache: dict[Any, list[Path]] = {}

    # -- values -------------------------------------------------------------
    def frame(self, module: str) -> Frame:
        return Frame(None, self.prog.modules[module], None, None)

    def make(self, it: Interp, cls: str, **over: Term) -> Term:
        """An instance of a class of the package whose every constructor
        argument is unknown, except for those given."""
        from .program import all_args

        c = self.prog.klass(cls)
        init = self.prog.method(c, "__init__")
        fr = self.frame(c.module.name)
        n = len(it.run.trace)
        if init is None:
            given = {k: ("sym", k, self.prog.type_name(c.module, v, c)) for k, v in c.attrs.items()}
            given.update(over)
            e = it.construct(c, [], given, fr, c.node)
        else:
            given = {}
            var = init.node.args.vararg, init.node.args.kwarg
            for a in all_args(init.node.args):
                if a.arg == "self" or a in var:
                    continue
                t = self.prog.type_name(init.module, a.annotation, c)
                given[a.arg] = DOCKET if t == DOCKET[2] else ("sym", a.arg, t)
            given.update(over)
            e = it.construct(c, [], given, fr, init.node)
        del it.run.trace[n:]
        return e

    def execution(self, it: Interp, **over: Term) -> Term:
        return self.make(it, "Execution", **over)

    def worker(self, it: Interp) -> Term:
        w: Term = ("sym", "worker", "docket.worker.Worker")
        it.heap[(norm(w), "docket")] = DOCKET
        return w

    def call(self, it: Interp, recv: Term | None, qual: str, args: list[Term] | None = None, kwargs: dict[str, Term] | None = None,
             defaults: bool = False) -> Term:
        """Call (and await) a function of the package with unknown arguments,
        except for those given."""
        f = self.prog.func(qual)
        fr = self.frame(f.module.name)
        kw = dict(kwargs or {})
        pos = list(args or [])
        if not defaults:
            names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
            skip = (1 if f.cls and not f.has("staticmethod") else 0) + len(pos)
            for a in f.node.args.args[skip:] + f.node.args.kwonlyargs:
                if a.arg not in kw:
                    kw[a.arg] = ("sym", a.arg, self.prog.type_name(f.module, a.annotation, f.cls))
        if recv is not None:
            r = it.call_term(("bound", recv, f.qual), pos, kw, fr, f.node)
        elif f.cls and f.has("classmethod"):
            r = it.call_term(("bound", ("class", f.cls.qual), f.qual), pos, kw, fr, f.node)
        else:
            r = it.call_term(("func", f.qual), pos, kw, fr, f.node)
        return it.await_(r, fr, f.node)

    # -- exploration ----------------------------------------------------------
    def paths(self, name: str, body: Callable[[Interp], Term], **cfg: Any) -> list[Path]:
        key = (name, tuple(sorted((k, repr(v)) for k, v in cfg.items() if not callable(v) and k != "hooks")))
        if key in self.cache:
            return self.cache[key]
        hooks = dict(BOUNDARY)
        hooks.update(cfg.pop("hooks", {}))
        c = Config(hooks=hooks, **cfg)
        got = explore(self.prog, c, body)
        out = [Path(r, o, v, name) for r, (o, v) in got]
        for p in out:
            unsent(p)
        self.stats[name] = len(out)
        for p in out:
            for e in p.trace:
                if e.func:
                    self.functions.add(e.func)
        self.cache[key] = out
        return out


def unsent(p: Path) -> None:
    """Commands collected in a pipeline that is never executed are never sent."""
    if p.outcome == "cut":
        return
    sent = {e.unit for e in p.trace if e.kind == "redis" and e.name == "EXEC"}
    for i, e in enumerate(p.trace):
        if e.kind == "redis" and isinstance(e.unit, tuple) and e.unit[:2] == ("redis", "pipeline") and e.unit not in sent:
            p.trace[i] = replace(e, kind="queued")


def brief(e: Event) -> str:
    site = e.site.split("(lua")[-1].strip(")") if "(lua" in e.site else e.site
    a = ", ".join([show(x) for x in e.args] + [f"{k}={show(v)}" for k, v in e.kwargs])
    r = f" -> {e.result}" if e.kind == "branch" else ""
    return f"{e.kind}:{e.name}({a}){r} @{site}"
