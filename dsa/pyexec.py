"""Effects of docket's Python code, path by path.

A traversal of the syntax tree from an entry point that propagates constants
and symbolic values, inlines calls it can resolve inside the package (through
the class and annotation model in program.py), and follows every branch both
ways unless earlier branches on the same condition decide it.  Calls that leave
the package are opaque effects.  Redis commands -- issued from Python or from
inside a Lua script -- end up in one trace, with keys in normal form.
"""
from __future__ import annotations

import ast
import builtins
import string
from typing import Any, Callable

from . import lua
from .luaexec import LuaError, LuaInterp
from .paths import AnalysisError, Cut, Event, Infeasible, Run, enumerate_paths, eq, lt, negate, truth
from .program import Class, Func, Module, Program, all_args
from .terms import FALSE, NONE, TRUE, Term, cat, const, contains, norm, show, text, walk


class PyRaise(Exception):
    def __init__(self, exc: Term) -> None:
        self.exc = exc


class Return(Exception):
    def __init__(self, value: Term) -> None:
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


CONTROL = (Return, Break, Continue)

REDIS_TYPES = {"RedisClient", "Redis", "Pipeline", "RedisCluster", "PubSubClient", "PipelineClient", "Lock"}

LISTS = {"ZRANGE", "ZRANGEBYSCORE", "XRANGE", "XREVRANGE", "XPENDING", "SMEMBERS", "HGETALL", "HKEYS", "HVALS", "KEYS", "LRANGE", "HMGET"}
PURE_METHODS = {
    "total_seconds", "encode", "decode", "isoformat", "timestamp", "strip", "split", "rsplit", "rpartition",
    "partition", "startswith", "endswith", "lower", "upper", "replace", "format", "join", "fromisoformat",
    "fromtimestamp", "lstrip", "rstrip", "hexdigest", "hex", "removeprefix", "removesuffix", "count", "index",
    "span_context", "__contains__", "title", "group", "groups",
}
PURE_FUNCS = {
    "str", "int", "float", "len", "isinstance", "issubclass", "max", "min", "bool", "abs", "round", "repr", "hash",
    "sorted", "any", "all", "callable", "getattr", "hasattr", "id", "type", "sum", "range", "enumerate", "zip",
    "reversed", "iter", "frozenset", "bytes", "ord", "chr", "divmod", "vars",
    "json.dumps", "json.loads", "datetime.timedelta", "datetime.datetime.fromisoformat",
    "datetime.datetime.fromtimestamp", "cloudpickle.dumps", "cloudpickle.loads", "base64.b64encode",
    "base64.b64decode", "urllib.parse.urlparse", "math.ceil", "math.floor",
}

EXC_PARENTS = {
    "redis.exceptions.RedisError": "Exception",
    "redis.exceptions.ConnectionError": "redis.exceptions.RedisError",
    "redis.exceptions.TimeoutError": "redis.exceptions.RedisError",
    "redis.exceptions.ResponseError": "redis.exceptions.RedisError",
    "redis.exceptions.LockError": "redis.exceptions.RedisError",
    "redis.exceptions.LockNotOwnedError": "redis.exceptions.LockError",
    "redis.exceptions.NoScriptError": "redis.exceptions.ResponseError",
    "redis.ConnectionError": "redis.exceptions.ConnectionError",
    "asyncio.CancelledError": "BaseException",
    "asyncio.TimeoutError": "TimeoutError",
    "asyncio.exceptions.CancelledError": "BaseException",
    "typer.Exit": "RuntimeError",
    "typer.BadParameter": "Exception",
    "key_value.aio.errors.KeyValueError": "Exception",
}
ALIASES = {"asyncio.TimeoutError": "TimeoutError", "asyncio.exceptions.CancelledError": "asyncio.CancelledError",
           "redis.exceptions.ConnectionError": "redis.exceptions.ConnectionError"}


class Frame:
    __slots__ = ("func", "module", "cls", "vars", "parent", "self_term", "yield_cb", "globals_", "nonlocals", "site_prefix", "handling")

    def __init__(self, func: Func | None, module: Module, cls: Class | None, parent: "Frame | None") -> None:
        self.func, self.module, self.cls, self.parent = func, module, cls, parent
        self.vars: dict[str, Term] = {}
        self.self_term: Term | None = None
        self.yield_cb: Callable[[Term], Term] | None = None
        self.nonlocals: set[str] = set()
        self.handling: Term | None = None


class Config:
    """What an analysis inlines, which opaque calls may raise, loop bounds."""

    def __init__(
        self,
        inline: Callable[[Func], bool] | None = None,
        raises: Callable[[Event], list[str]] | None = None,
        loop: int = 1,
        depth: int = 14,
        budget: int = 20000,
        hooks: dict[str, Callable] | None = None,
        compares: Callable[[Term, Term], bool] | None = None,
        exact: bool = False,
        unhashable: frozenset = frozenset(),
        message_fields: tuple[str, ...] | None = None,
        elements: int = 1,
        relevant: Callable[[ast.AST, "Interp"], bool] | None = None,
        run_spawned: Callable[[Func], bool] | None = None,
        keep: Callable[[Event], bool] | None = None,
        limit: int = 400,
        lua: bool = True,
        types: dict[str, str] | None = None,
        summarise: Callable[[Func], bool] | None = None,
        faults: int | None = None,
        whiles: int | None = None,
        prune: Callable[[Event, list], bool] | None = None,
        cut: Callable[[Event, list], bool] | None = None,
        watch: tuple[str, ...] = (),           # attributes whose reading is recorded
    ) -> None:
        self.whiles = max(1, loop if whiles is None else whiles)
        self.watch = watch
        self.cut = cut
        self.prune = prune  # paths outside the question asked
        self.faults = faults
        self.inline = inline or (lambda f: True)
        # A two-argument function also sees what happened before on the path
        r: Any = raises or (lambda e: [])
        self.raises = r if r.__code__.co_argcount >= 2 else (lambda e, trace: r(e))
        self.loop, self.depth, self.budget = loop, depth, budget
        self.hooks = hooks or {}
        self.compares = compares
        self.exact = exact
        self.unhashable = unhashable  # values that cannot be hashed
        self.message_fields = message_fields
        self.elements = elements
        self.relevant = relevant
        self.run_spawned = run_spawned or (lambda f: False)
        self.keep = keep
        self.limit = limit
        self.lua = lua
        self.types = types or {}
        self.summarise = summarise or (lambda f: True)


KINDS = {"dict": {"dict", "Mapping", "MutableMapping", "Collection", "Iterable", "Sized", "Container"}, "list": {"list", "Sequence", "MutableSequence", "Collection", "Iterable", "Sized", "Container"},
         "set": {"set", "Set", "MutableSet", "Collection", "Iterable", "Sized", "Container"}}
ALL_KINDS = {n for k in KINDS.values() for n in k} | {"str", "bytes", "int", "float", "bool", "tuple", "Hashable", "Execution"}


ABCS = {"object", "Hashable", "Sized", "Iterable", "Iterator", "Collection", "Container", "Sequence", "Mapping", "Callable", "Real", "Number", "Integral", "Any", "Buffer", "ByteString", "Reversible"}

def ground(t: Term) -> bool:
    """A term that equals another of its kind only if it is the same."""
    return t[0] in ("const", "enum", "class") or t[0] == "tuple" and all(ground(x) for x in t[1])


def unbounded(t: Term) -> bool:
    """A power whose exponent nothing in the term bounds."""
    t = norm(t)
    if t[0] == "op" and t[1] in ("**", "<<") and len(t) == 4:
        return t[3][0] != "const" and not bounded(t[3])
    if t[0] == "call" and str(t[1]).split(".")[-1] in ("pow", "exp2", "ldexp") and len(t[2]) == 2:
        return t[2][1][0] != "const" and not bounded(t[2][1])
    if t[0] == "op":
        return any(unbounded(x) for x in t[2:] if isinstance(x, tuple))
    if t[0] == "call" and t[1] == "min":
        return all(unbounded(x) for x in t[2])
    return t[0] == "call" and t[1] in ("int", "float", "max") and any(unbounded(x) for x in t[2])


def bounded(t: Term) -> bool:
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        return all(x[0] == "const" or bounded(x) for x in t[2:4])
    return t[0] == "call" and t[1] == "min" and any(x[0] == "const" or bounded(x) for x in t[2]) or t[0] == "call" and t[1] in ("max", "int") and all(x[0] == "const" or bounded(x) for x in t[2])


NEVER_NONE = {"b64decode", "b64encode", "dumps", "isoformat", "timestamp", "encode", "decode", "hexdigest", "total_seconds", "int", "float", "str", "bytes", "len", "repr", "bool",
              "list", "tuple", "dict", "set", "sorted", "timedelta", "fromisoformat", "fromtimestamp", "bool"}


class Interp:
    def __init__(self, prog: Program, cfg: Config, run: Run) -> None:
        self.prog, self.cfg, self.run = prog, cfg, run
        self.heap: dict[tuple[Term, str], Term] = {}
        self.tables: dict[Term, dict] = {}
        self.batches: dict[Term, list] = {}
        self.sent: dict[Term, int] = {}     # how often a pipeline was executed
        self.objs: dict[int, Any] = {}
        self.closures: dict[int, tuple[Func, Frame]] = {}
        self.stack: list[str] = []
        self.unit: Any = None
        self.symtypes: dict[Term, str] = {}

    # ------------------------------------------------------------------ util
    def site(self, fr: Frame, node: ast.AST) -> str:
        return f"{fr.module.rel}:{getattr(node, 'lineno', 0)}"

    def fname(self, fr: Frame) -> str:
        return fr.func.qual if fr.func else fr.module.name

    def emit(self, ev: Event) -> None:
        self.run.emit(ev)

    def new_list(self, items: list[Term] | None = None, kind: str = "list") -> Term:
        i = self.run.fresh()
        self.objs[i] = {"kind": kind, "items": list(items or [])}
        return ("obj", kind, i)

    def new_dict(self, items: list[tuple[Term, Term]] | None = None) -> Term:
        i = self.run.fresh()
        self.objs[i] = {"kind": "dict", "items": list(items or [])}
        return ("obj", "dict", i)

    def obj(self, t: Term) -> Any:
        return self.objs.get(t[2]) if t[0] == "obj" else None

    def freeze(self, t: Term, depth: int = 0) -> Term:
        """A container's current contents as an immutable term, for events."""
        if t[0] == "obj" and depth < 4:
            o = self.objs[t[2]]
            if o["kind"] == "dict":
                return ("call", "dict", tuple(("tuple", (self.freeze(k, depth + 1), self.freeze(v, depth + 1))) for k, v in o["items"]))
            if o["kind"] in ("list", "set", "tuple"):
                return ("call", o["kind"], tuple(self.freeze(x, depth + 1) for x in o["items"]))
        if t[0] == "tuple":
            return ("tuple", tuple(self.freeze(x, depth + 1) for x in t[1]))
        return t

    # --------------------------------------------------------------- typing
    def type_of(self, t: Term) -> str | None:
        k = t[0]
        if k == "sym":
            return t[2] or self.symtypes.get(t)
        if k == "inst":
            return t[1]
        if k == "redis":
            return "RedisClient"
        if k == "or":
            ts = {self.type_of(x) for x in t[1]}
            return next(iter(ts)) if len(ts) == 1 else None
        if k == "attr" and t[2] in ("__name__", "__qualname__", "__module__"):
            return "str"
        if k == "attr":
            bt = self.type_of(t[1])
            c = self.prog.cls(bt)
            if c:
                return self.prog.attr_type(c, t[2])
            return None
        if k == "call" and len(t) > 3:
            return t[3] if isinstance(t[3], str) else None
        if k == "phi":
            ts = {self.type_of(x) for x in t[1]} - {None}
            return ts.pop() if len(ts) == 1 else None
        if k in ("or",):
            for x in t[1]:
                r = self.type_of(x)
                if r:
                    return r
        if k in ("elem", "index", "iter"):
            bt = self.type_of(t[1])
            return elem_type(bt)
        if k == "enum":
            return t[1]
        return None

    def is_redis(self, t: Term) -> bool:
        if t[0] == "redis":
            return True
        ty = self.type_of(t)
        return bool(ty) and ty.split(".")[-1].split("[")[0] in REDIS_TYPES and not ty.startswith("docket._redis.RedisConnection")

    # --------------------------------------------------------------- entries
    def param_terms(self, f: Func, given: dict[str, Term] | None = None) -> dict[str, Term]:
        given = given or {}
        out: dict[str, Term] = {}
        for a in all_args(f.node.args):
            if a.arg in given:
                out[a.arg] = given[a.arg]
            elif a.arg in ("self",) and f.cls:
                out[a.arg] = ("sym", "self", f.cls.qual)
            elif a.arg == "cls" and f.cls:
                out[a.arg] = ("class", f.cls.qual)
            else:
                out[a.arg] = ("sym", a.arg, self.prog.type_name(f.module, a.annotation, f.cls))
        return out

    def call_entry(self, f: Func, given: dict[str, Term] | None = None) -> Term:
        params = self.param_terms(f, given)
        return self.run_func(f, params, None)

    # ------------------------------------------------------------- functions
    def run_func(self, f: Func, params: dict[str, Term], parent: Frame | None, yield_cb: Callable | None = None) -> Term:
        fr = Frame(f, f.module, f.cls or (parent.cls if parent else None), parent)
        fr.vars.update(params)
        fr.yield_cb = yield_cb
        first = f.node.args.posonlyargs + f.node.args.args
        if f.cls and first and not f.has("staticmethod"):
            fr.self_term = params.get(first[0].arg)
        elif parent:
            fr.self_term = parent.self_term
        if len(self.stack) > self.cfg.depth * 3:
            raise AnalysisError(f"call depth exceeded at {f.qual}: {self.stack[-5:]}")
        self.stack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except Return as r:
                return r.value
            return NONE
        finally:
            self.stack.pop()

    def bind(self, f: Func, args: list[Term], kwargs: dict[str, Term], fr: Frame | None) -> dict[str, Term]:
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out: dict[str, Term] = {}
        rest: list[Term] = []
        star = [x for x in args if x[0] == "star"]
        plain = [x for x in args if x[0] != "star"]
        for i, v in enumerate(plain):
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        if star:
            rest.extend(star)
        extra: list[tuple[Term, Term]] = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                out[k] = v
            elif k.startswith("**"):
                extra.append((("star", v), NONE))
            else:
                extra.append((const(k), v))
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        df = Frame(None, f.module, f.cls, None)
        for n in [*pos, *(x.arg for x in a.kwonlyargs)]:
            if n not in out:
                if star and not n == "self":
                    out[n] = ("index", star[0][1], const(n))
                elif extra and any(k[0] == "star" for k, _ in extra):
                    out[n] = ("index", [k for k, _ in extra if k[0] == "star"][0][1], const(n))
                elif n in defaults:
                    out[n] = self.ev(defaults[n], df)
                else:
                    out[n] = ("sym", "no argument " + n, None)
        if a.vararg:
            if len(rest) == 1 and rest[0][0] == "star":
                out[a.vararg.arg] = rest[0][1]
            else:
                out[a.vararg.arg] = ("tuple", tuple(rest))
        if a.kwarg:
            if len(extra) == 1 and extra[0][0][0] == "star":
                out[a.kwarg.arg] = extra[0][0][1]
            else:
                out[a.kwarg.arg] = self.new_dict(extra)
        for x in all_args(a):
            if x.arg in out and out[x.arg][0] == "sym" and out[x.arg][2] is None:
                t = self.prog.type_name(f.module, x.annotation, f.cls)
                if t:
                    self.symtypes.setdefault(out[x.arg], t)
        return {x.arg: out[x.arg] for x in all_args(a) if x.arg in out}

    # ------------------------------------------------------------ statements
    def block(self, stmts: list[ast.stmt], fr: Frame) -> None:
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s: ast.stmt, fr: Frame) -> None:
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"{self.site(fr, s)}: unsupported statement {type(s).__name__}")
        m(s, fr)

    def s_Expr(self, s: ast.Expr, fr: Frame) -> None:
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s: ast.Pass, fr: Frame) -> None:
        pass

    def s_Global(self, s: ast.Global, fr: Frame) -> None:
        pass

    def s_Nonlocal(self, s: ast.Nonlocal, fr: Frame) -> None:
        fr.nonlocals.update(s.names)

    def s_Import(self, s: ast.Import, fr: Frame) -> None:
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            fr.vars[n] = ("module", a.name if a.asname else n)

    def s_ImportFrom(self, s: ast.ImportFrom, fr: Frame) -> None:
        base = s.module or ""
        m = fr.module
        if s.level:
            pkg = m.name.split(".")
            if m.path.name != "__init__.py":
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - (s.level - 1)]
            base = ".".join(pkg + ([s.module] if s.module else []))
        for a in s.names:
            r = self.prog.lookup(base, a.name) if base in self.prog.modules else None
            if r is None:
                r = ("module", f"{base}.{a.name}") if f"{base}.{a.name}" in self.prog.modules else ("ext", f"{base}.{a.name}")
            fr.vars[a.asname or a.name] = self.resolved(r)

    def s_FunctionDef(self, s: ast.FunctionDef, fr: Frame) -> None:
        f = Func(f"{self.fname(fr)}.<locals>.{s.name}", fr.module, s, None,
                 tuple(ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in s.decorator_list))
        i = self.run.fresh()
        self.closures[i] = (f, fr)
        fr.vars[s.name] = ("closure", f.qual, i)

    s_AsyncFunctionDef = s_FunctionDef  # type: ignore[assignment]

    def s_ClassDef(self, s: ast.ClassDef, fr: Frame) -> None:
        fr.vars[s.name] = ("ext", f"{self.fname(fr)}.{s.name}")

    def s_Return(self, s: ast.Return, fr: Frame) -> None:
        raise Return(self.ev(s.value, fr) if s.value is not None else NONE)

    def s_Break(self, s: ast.Break, fr: Frame) -> None:
        raise Break()

    def s_Continue(self, s: ast.Continue, fr: Frame) -> None:
        raise Continue()

    def s_Assign(self, s: ast.Assign, fr: Frame) -> None:
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s: ast.AnnAssign, fr: Frame) -> None:
        if s.value is None:
            return
        v = self.ev(s.value, fr)
        if self.type_of(v) is None and v[0] in ("sym", "call", "reply", "elem", "index", "attr"):
            t = self.prog.type_name(fr.module, s.annotation, fr.cls)
            if t and v[0] == "call" and len(v) == 3:
                v = (*v, t)
            elif t and v[0] == "sym":
                v = ("sym", v[1], t)
        self.assign(s.target, v, fr)

    def s_AugAssign(self, s: ast.AugAssign, fr: Frame) -> None:
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s.target)
        ast.fix_missing_locations(load)
        cur = self.ev(load, fr)
        v = self.ev(s.value, fr)
        o = self.obj(cur)
        if isinstance(s.op, ast.Add) and o and o["kind"] == "list":
            vo = self.obj(v)
            o["items"].extend(vo["items"] if vo else list(v[1]) if v[0] == "tuple" else [("star", v)])
            return
        self.assign(s.target, self.binop(s.op, cur, v), fr)

    def s_Delete(self, s: ast.Delete, fr: Frame) -> None:
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, fr)
                self.heap.pop((norm(base), t.attr), None)
                self.emit(Event("delattr", t.attr, (base,), site=self.site(fr, s), func=self.fname(fr)))
            elif isinstance(t, ast.Subscript):
                base, key = self.ev(t.value, fr), self.ev(t.slice, fr)
                self.emit(Event("delitem", "", (base, key), site=self.site(fr, s), func=self.fname(fr)))
                o = self.obj(base)
                if o and o["kind"] == "dict":
                    if self.cfg.exact and ground(norm(key)) and all(ground(norm(k)) and norm(k) != norm(key) for k, _ in o["items"]):
                        raise PyRaise(("exc", "KeyError", self.run.fresh(), ""))
                    o["items"] = [(k, v) for k, v in o["items"] if norm(k) != norm(key)]

    def s_Assert(self, s: ast.Assert, fr: Frame) -> None:
        c = self.cond_term(s.test, fr)
        v = self.run.known(c)
        if v is None:
            self.run.assume(c, True)
            if c[0] == "and":
                for x in c[1]:
                    self.run.assume(x, True)
        elif v is False:
            raise PyRaise(self.exc("AssertionError", fr, s))

    def s_If(self, s: ast.If, fr: Frame) -> None:
        if self.cfg.relevant is not None and not self.cfg.relevant(s, self):
            # Neither arm contains anything this analysis observes.
            known = None
            try:
                c = self.cond_term(s.test, fr)
                known = self.run.known(c)
            except AnalysisError:
                pass
            if known is None:
                self.havoc(s.body + s.orelse, fr, s)
                return
            self.block(s.body if known else s.orelse, fr)
            return
        if self.branch(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def havoc(self, stmts: list[ast.stmt], fr: Frame, at: ast.AST) -> None:
        for x in stmts:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    old = self.lookup(n.id, fr)
                    self.setvar(n.id, ("call", f"*{n.id}*", (const(getattr(at, "lineno", 0)),), self.type_of(old) if old else None), fr)

    def s_While(self, s: ast.While, fr: Frame) -> None:
        n = 0
        try:
            while self.branch(s.test, fr):
                n += 1
                if n > self.cfg.whiles + isinstance(s.test, ast.Constant):
                    raise Infeasible()
                try:
                    self.block(s.body, fr)
                except Continue:
                    pass
            else:
                self.block(s.orelse, fr)
        except Break:
            pass

    def iterate(self, it: Term, fr: Frame, node: ast.AST) -> list[Term]:
        """The elements a loop over ``it`` visits on this path."""
        o = self.obj(it)
        if o is not None:
            items = [k for k, _ in o["items"]] if o["kind"] == "dict" else list(o["items"])
            out: list[Term] = []
            for x in items:
                if x[0] == "star":
                    out += self.iterate(x[1], fr, node)
                else:
                    out.append(x)
            return out
        if it[0] == "tuple":
            return list(it[1])
        if it[0] == "const" and isinstance(it[1], (str, bytes, tuple)):
            return [const(c) for c in it[1]][:40]
        if it[0] == "call" and it[1] == "items" and self.obj(it[2][0]) is not None:
            return [("tuple", (k, v)) for k, v in self.obj(it[2][0])["items"] if k[0] != "star"]
        if it[0] == "call" and it[1] == "values" and self.obj(it[2][0]) is not None:
            return [v for k, v in self.obj(it[2][0])["items"] if k[0] != "star"]
        if it[0] == "call" and it[1] == "enumerate" and it[2]:
            inner = self.iterate(it[2][0], fr, node)
            start = it[2][1][1] if len(it[2]) > 1 and it[2][1][0] == "const" else 0
            return [("tuple", (const(i + start), x)) for i, x in enumerate(inner)]
        if it[0] == "call" and it[1] in ("list", "sorted", "set", "reversed", "tuple", "iter") and it[2]:
            inner = self.iterate(it[2][0], fr, node)
            return inner[::-1] if it[1] == "reversed" else inner
        if norm(it) in self.batches:
            return list(self.batches[norm(it)])
        if it[0] == "class" and it[1] in self.prog.classes and self.is_enum(self.prog.classes[it[1]]):
            c = self.prog.classes[it[1]]
            return [self.enum_member(c, n) for n in c.values]
        every = each_of(it)
        if every is not None:
            src, expr = every
            return [replaced(expr, ("elem", src, 0), x) for x in self.iterate(src, fr, node)]
        key = ("iter", norm(it))
        n = self.run.locals.get(key)
        if n is None:
            base = norm(it)
            while base[0] == "call" and base[1] in ("values", "items", "keys") and base[2]:
                base = base[2][0]
            fixed = base if base[0] == "call" and str(base[1]).startswith("comp:") else None
            some = self.run.known(("truth", fixed)) if fixed else None
            n = 0 if some is False else self.run.choose(self.cfg.loop) + 1 if some else self.run.choose(self.cfg.loop + 1)
            if fixed and some is None:
                self.run.assume(("truth", fixed), n > 0)
            self.emit(Event("loop", str(n), (it,), site=self.site(fr, node), func=self.fname(fr)))
            if it[0] == "reply" and it[1] in LISTS:     # a list that no one changes
                self.run.locals[key] = n
        return [("elem", it, i) for i in range(n)]

    def concrete(self, t: Term) -> bool:
        """Whether the elements of a collection are known."""
        o = self.obj(t)
        if o is not None:
            return not any(x[0] == "star" for x in ([k for k, _ in o["items"]] if o["kind"] == "dict" else o["items"]))
        if t[0] == "tuple" or norm(t) in self.batches:
            return True
        return False

    def s_For(self, s: ast.For | ast.AsyncFor, fr: Frame) -> None:
        it = self.ev(s.iter, fr, want_iter=True)
        if isinstance(s, ast.AsyncFor) and it[0] == "coro":
            f, params, parent = self.coro_target(it)
            if f is not None and f.is_generator:
                self.drive_generator(f, params, parent, s, fr)
                return
        try:
            for x in self.iterate(it, fr, s):
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except Continue:
                    pass
            else:
                if it[:2] == ("reply", "LISTEN"):   # a subscription never ends by itself
                    self.emit(Event("unending", "LISTEN", (it,), site=self.site(fr, s), func=self.fname(fr)))
                self.block(s.orelse, fr)
        except Break:
            pass

    s_AsyncFor = s_For  # type: ignore[assignment]

    def drive_generator(self, f: Func, params: dict, parent: Frame | None, s: ast.For | ast.AsyncFor, fr: Frame) -> None:
        class Stop(Exception):
            def __init__(self, inner: Exception | None) -> None:
                self.inner = inner

        def on_yield(v: Term) -> Term:
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except Continue:
                pass
            except (Break, Return) as c:
                raise Stop(c)
            return NONE

        try:
            self.run_func(f, params, parent, on_yield)
        except Stop as st:
            if isinstance(st.inner, Return):
                raise st.inner
            return
        self.block(s.orelse, fr)

    def s_Raise(self, s: ast.Raise, fr: Frame) -> None:
        if s.exc is None:
            h = fr
            while h is not None and h.handling is None:
                h = h.parent  # type: ignore[assignment]
            e = h.handling if h is not None else ("exc", "Exception", 0)
        else:
            v = self.ev(s.exc, fr)
            if s.cause is not None:
                self.ev(s.cause, fr)
            if v[0] in ("class", "ext"):
                e = self.exc(v[1], fr, s)
            else:
                e = v
        self.emit(Event("raise", self.exc_class(e) or "?", (e,), site=self.site(fr, s), func=self.fname(fr)))
        raise PyRaise(e)

    def s_Try(self, s: ast.Try, fr: Frame) -> None:
        pending: Exception | None = None
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as p:
                h = self.match_handler(s, p.exc, fr)
                if h is None:
                    raise
                old = fr.handling
                fr.handling = p.exc
                if h.name:
                    fr.vars[h.name] = p.exc
                self.emit(Event("catch", self.exc_class(p.exc) or "?", (p.exc,), site=self.site(fr, h), func=self.fname(fr),
                                extra=ast.unparse(h.type) if h.type else ""))
                try:
                    self.block(h.body, fr)
                finally:
                    fr.handling = old
            else:
                self.block(s.orelse, fr)
        except (PyRaise, *CONTROL) as e:
            pending = e
        except BaseException as e:  # GeneratorStop and friends still unwind
            if type(e).__name__ == "Stop":
                pending = e  # type: ignore[assignment]
            else:
                raise
        self.block(s.finalbody, fr)
        if pending is not None:
            raise pending

    s_TryStar = s_Try

    def s_Match(self, s: ast.Match, fr: Frame) -> None:
        subj = self.ev(s.subject, fr)
        for case in s.cases:
            if self.match(case.pattern, subj, fr, s):
                if case.guard is None or self.branch(case.guard, fr):
                    self.block(case.body, fr)
                    return

    def match(self, p: ast.pattern, subj: Term, fr: Frame, at: ast.AST) -> bool:
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, subj, fr, at):
                return False
            if p.name:
                fr.vars[p.name] = subj
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, subj, fr, at) for x in p.patterns)
        if isinstance(p, ast.MatchValue):
            return self.run.decide(self.equal(subj, self.ev(p.value, fr)), self.site(fr, at), self.fname(fr))
        if isinstance(p, ast.MatchSingleton):
            return self.run.decide(self.equal(subj, const(p.value)), self.site(fr, at), self.fname(fr))
        if isinstance(p, ast.MatchClass):
            return self.run.decide(self.isinstance_(subj, self.ev(p.cls, fr)), self.site(fr, at), self.fname(fr))
        return self.run.decide(("truth", ("call", "match:" + ast.unparse(p), (norm(subj),))), self.site(fr, at), self.fname(fr))

    # --------------------------------------------------------- with / cms
    def s_With(self, s: ast.With | ast.AsyncWith, fr: Frame) -> None:
        self.with_items(list(s.items), s, fr)

    s_AsyncWith = s_With  # type: ignore[assignment]

    def with_items(self, items: list[ast.withitem], s: Any, fr: Frame) -> None:
        if not items:
            self.block(s.body, fr)
            return
        item, rest = items[0], items[1:]
        cm = self.ev(item.context_expr, fr)

        def body(value: Term) -> Term:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, value, fr)
            self.with_items(rest, s, fr)
            return NONE

        self.enter(cm, body, fr, s)

    def enter(self, cm: Term, body: Callable[[Term], Term], fr: Frame, at: ast.AST) -> None:
        site, fn = self.site(fr, at), self.fname(fr)
        if cm[0] == "coro":
            f, params, parent = self.coro_target(cm)
            if f is not None and f.is_generator and self.cfg.inline(f):
                pend: list[Exception] = []
                entered: list[bool] = []

                def on_yield(v: Term) -> Term:
                    entered.append(True)
                    if v == NONE or v is None:
                        v = NONE
                    try:
                        body(v)
                    except CONTROL as c:
                        pend.append(c)
                    except BaseException as c:
                        if type(c).__name__ == "Stop":
                            pend.append(c)  # type: ignore[arg-type]
                        else:
                            raise
                    return NONE

                self.run_func(f, params, parent, on_yield)
                if pend:
                    raise pend[0]
                return
        ty = self.type_of(cm)
        c = self.prog.cls(ty)
        if c is not None and cm[0] in ("inst", "sym", "attr", "call") and (self.prog.method(c, "__aenter__") or self.prog.method(c, "__enter__")):
            asyn = self.prog.method(c, "__aenter__") is not None
            en = self.prog.method(c, "__aenter__" if asyn else "__enter__")
            ex = self.prog.method(c, "__aexit__" if asyn else "__exit__")
            if en and ex and self.cfg.inline(en) and self.cfg.inline(ex) and not en.is_stub:
                v = self.finish(self.invoke_method(cm, en, [], {}, fr, at), fr, at)
                self.protect(lambda: body(v), lambda exc: self.finish(self.invoke_method(cm, ex, exc, {}, fr, at), fr, at), fr, at)
                return
        name = self.cm_name(cm)
        ev = Event("cm", "enter:" + name, (self.freeze(cm),), site=site, func=fn)
        value: Term = cm
        if self.is_redis(cm):
            value = cm
        self.emit(ev)
        self.may_raise(ev, fr, at)
        if cm[0] == "inst" and cm[1] in ("contextlib.AsyncExitStack", "contextlib.ExitStack"):
            self.heap.setdefault((norm(cm), "__callbacks__"), self.new_list([]))

            def leave(exc: list[Term]) -> Term:
                cbs = self.obj(self.heap[(norm(cm), "__callbacks__")])["items"]
                pending: PyRaise | None = None
                while cbs:
                    cb = cbs.pop()
                    try:
                        self.run_callback(cb, exc, fr, at)
                    except PyRaise as p:
                        pending = p
                if pending:
                    raise pending
                return NONE

            self.protect(lambda: body(value), leave, fr, at)
            self.emit(Event("cm", "exit:" + name, (self.freeze(cm),), site=site, func=fn))
            return

        def leave_opaque(exc: list[Term]) -> Term:
            e2 = Event("cm", "exit:" + name, (self.freeze(cm), *exc[:1]), site=site, func=fn)
            self.emit(e2)
            if name.endswith("suppress") and exc and exc[0] != NONE:
                cls = self.exc_class(exc[1])
                for a in cm[2] if cm[0] == "call" else ():
                    if cls and self.exc_sub(cls, self.exc_name(a)):
                        return TRUE
            return NONE

        self.protect(lambda: body(value), leave_opaque, fr, at)

    def finish(self, v: Term, fr: Frame, at: ast.AST) -> Term:
        return self.await_(v, fr, at) if v is not None and v[0] == "coro" else v

    def run_callback(self, cb: Term, exc: list[Term], fr: Frame, at: ast.AST) -> None:
        # ("tuple", (kind, callable, args...))
        kind, fnv, args, kwargs = cb[1][0][1], cb[1][1], list(cb[1][2][1]), dict(cb[1][3])
        if kind == "exit":
            c = self.prog.cls(self.type_of(fnv))
            ex = self.prog.method(c, "__aexit__") or self.prog.method(c, "__exit__") if c else None
            if ex and self.cfg.inline(ex):
                self.finish(self.invoke_method(fnv, ex, exc, {}, fr, at), fr, at)
            else:
                self.emit(Event("cm", "exit:" + self.cm_name(fnv), (self.freeze(fnv), *exc[:1]), site=self.site(fr, at), func=self.fname(fr)))
            return
        r = self.call_term(fnv, list(exc) if kind == "exitfn" else args, kwargs, fr, at)
        if r[0] == "coro":
            self.await_(r, fr, at)

    def protect(self, body: Callable[[], Any], leave: Callable[[list[Term]], Term], fr: Frame, at: ast.AST) -> None:
        try:
            body()
        except PyRaise as p:
            r = leave([("type", p.exc) if False else ("call", "type", (p.exc,)), p.exc, ("sym", "tb", None)])
            if r == TRUE or (r is not None and r[0] not in ("const",) and self.run.decide(truth(r), self.site(fr, at), self.fname(fr))):
                return
            raise
        except BaseException as c:
            if isinstance(c, CONTROL) or type(c).__name__ == "Stop":
                leave([NONE, NONE, NONE])
            raise
        leave([NONE, NONE, NONE])

    def cm_name(self, cm: Term) -> str:
        if cm[0] == "call":
            return cm[1] if isinstance(cm[1], str) else show(cm[1])
        if cm[0] in ("inst",):
            return cm[1]
        if cm[0] == "coro":
            return cm[1]
        if cm[0] == "redis":
            return "redis"
        return show(cm)

    # ------------------------------------------------------------ exceptions
    def exc(self, cls: str, fr: Frame | None = None, at: ast.AST | None = None, origin: str = "") -> Term:
        return ("exc", cls, self.run.fresh(), origin)

    def exc_class(self, e: Term) -> str | None:
        if e[0] == "exc":
            return e[1]
        if e[0] == "inst":
            return e[1]
        if e[0] == "call" and isinstance(e[1], str):
            return e[1]
        return self.type_of(e)

    def exc_name(self, t: Term) -> str:
        if t[0] in ("class", "ext"):
            return ALIASES.get(t[1], t[1])
        if t[0] == "attr":
            return show(t)
        return show(t)

    def exc_parents(self, cls: str) -> list[str]:
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            c = ALIASES.get(c, c)
            if c in out:
                continue
            out.append(c)
            k = self.prog.cls(c)
            if k:
                todo += [b[1] for b in k.bases]
            elif c in EXC_PARENTS:
                todo.append(EXC_PARENTS[c])
            else:
                b = getattr(builtins, c, None)
                if isinstance(b, type):
                    todo += [x.__name__ for x in b.__mro__[1:] if x is not object]
                elif c not in ("BaseException",):
                    todo.append("Exception")
        return out

    def exc_sub(self, a: str, b: str) -> bool:
        return ALIASES.get(b, b) in self.exc_parents(a)

    def known_class(self, e: Term) -> str | None:
        """The class an isinstance() test on this path found a value to have."""
        k = norm(e)
        for c, v in self.run.facts.items():
            if v and c[0] == "isexc" and c[1] == k:
                return c[2]
            if v and c[0] == "truth" and c[1][0] == "call" and c[1][1] == "isinstance" and c[1][2][0] == k and c[1][2][1][0] != "tuple":
                return self.exc_name(c[1][2][1])
        return None

    def match_handler(self, s: ast.Try, e: Term, fr: Frame) -> ast.ExceptHandler | None:
        cls = self.exc_class(e)
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            o = self.obj(t)
            alts = list(t[1]) if t[0] == "tuple" else o["items"] if o else [t]
            for a in alts:
                n = self.exc_name(a)
                if cls is None:
                    if n in ("Exception", "BaseException"):
                        return h
                    is_ = self.known_class(e)
                    if is_ is not None:
                        if self.exc_sub(is_, n):
                            return h
                        if not self.exc_sub(n, is_):
                            continue
                    if self.run.decide(("isexc", norm(e), n), self.site(fr, h), self.fname(fr)):
                        return h
                    continue
                if self.exc_sub(cls, n):
                    return h
                # an unspecified Exception may be of the caught class
                if e[0] == "exc" and e[3] == "any" and self.exc_sub(n, cls):
                    if self.run.decide(("isexc", e, n), self.site(fr, h), self.fname(fr)):
                        return h
        return None

    def hashed(self, t: Term) -> None:
        if self.cfg.unhashable and any(x in self.cfg.unhashable for x in walk(norm(self.freeze(t)))):
            raise PyRaise(("exc", "TypeError", self.run.fresh(), "unhashable"))

    def throw(self, name: str, origin: str = "") -> None:
        """Raise an exception of this class."""
        e: Term = ("exc", name, self.run.fresh(), "")
        self.emit(Event("throw", name, (e,), extra=origin))
        raise PyRaise(e)

    def may_raise(self, ev: Event, fr: Frame, at: ast.AST) -> None:
        names = self.cfg.raises(ev, self.run.trace)
        if not names:
            return
        if self.cfg.faults is not None and ev.kind != "pure":
            if sum(1 for e in self.run.trace if e.kind == "throw" and not str(e.extra).startswith("cloudpickle.")) >= self.cfg.faults:
                return
        i = self.run.choose(len(names) + 1)
        if i:
            n = names[i - 1]
            e = ("exc", n, self.run.fresh(), "any" if n in ("Exception",) else "")
            self.emit(Event("throw", n, (e,), site=self.site(fr, at), func=self.fname(fr), extra=ev.name))
            raise PyRaise(e)

    # ------------------------------------------------------------ assignment
    def assign(self, t: ast.expr, v: Term, fr: Frame) -> None:
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            o = self.obj(v)
            items = list(v[1]) if v[0] == "tuple" else list(o["items"]) if o and o["kind"] == "list" else None
            starred = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if items is not None and not starred and len(items) == len(t.elts):
                for x, y in zip(t.elts, items):
                    self.assign(x, y, fr)
                return
            if items is not None and len(starred) == 1 and len(items) >= len(t.elts) - 1 and not any(x[0] == "star" for x in items):
                i, n = starred[0], len(items) - (len(t.elts) - 1)
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, self.new_list(items[i:i + n]), fr)  # type: ignore[attr-defined]
                for x, y in zip(t.elts[i + 1:], items[i + n:]):
                    self.assign(x, y, fr)
                return
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ("slice", norm(v), const(i)), fr)
                elif items is not None and i < len(items) and not (starred and starred[0] < i):
                    self.assign(x, items[i], fr)
                else:
                    self.assign(x, self.index(v, const(i)), fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            self.set_attr(base, t.attr, v, fr, t)
        elif isinstance(t, ast.Subscript):
            base, key = self.ev(t.value, fr), self.ev(t.slice, fr)
            self.emit(Event("setitem", "", (base, key, v), site=self.site(fr, t), func=self.fname(fr)))
            o = self.obj(base)
            if o is not None and o["kind"] == "dict":
                for i, (k, _) in enumerate(o["items"]):
                    if norm(k) == norm(key):
                        o["items"][i] = (key, v)
                        return
                o["items"].append((key, v))
            elif o is not None and key[0] == "const" and isinstance(key[1], int) and -len(o["items"]) <= key[1] < len(o["items"]):
                o["items"][key[1]] = v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise AnalysisError(f"{self.site(fr, t)}: unsupported target {type(t).__name__}")

    def set_attr(self, base: Term, attr: str, v: Term, fr: Frame, at: ast.AST) -> None:
        if base[0] == "phi":
            pass
        self.heap[(norm(base), attr)] = v
        self.emit(Event("assign", attr, (base, v), site=self.site(fr, at), func=self.fname(fr)))

    def setvar(self, name: str, v: Term, fr: Frame) -> None:
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        fr.vars[name] = v

    def lookup(self, name: str, fr: Frame) -> Term | None:
        f: Frame | None = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        return None

    # ------------------------------------------------------------ conditions
    def branch(self, e: ast.expr, fr: Frame) -> bool:
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            for x in e.values:
                r = self.branch(x, fr)
                if r != isand:
                    return r
            return isand
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.branch(e.operand, fr)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e, fr)
            return self.run.decide(self.truth_of(v), self.site(fr, e), self.fname(fr))
        c = self.cond_term(e, fr)
        return self.run.decide(c, self.site(fr, e), self.fname(fr))

    def cond_term(self, e: ast.expr, fr: Frame) -> Term:
        return self.truth_of(self.ev(e, fr))

    def truth_of(self, v: Term) -> Term:
        o = self.obj(v)
        if o is not None:
            if any((x[0] if isinstance(x, tuple) and o["kind"] == "dict" else x)[0] == "star" for x in o["items"]) and \
               not any((x[0] if o["kind"] == "dict" else x)[0] != "star" for x in o["items"]):
                return ("truth", v)
            return TRUE if o["items"] else FALSE
        if v[0] == "call" and v[1] == "bool" and len(v[2]) == 1:
            return self.truth_of(v[2][0])
        return truth(v)

    def equal(self, a: Term, b: Term) -> Term:
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                if x[0] in ("const",):
                    return TRUE if x == NONE else FALSE
                if x[0] in ("inst", "obj", "closure", "func", "class", "tuple", "cat", "enum", "exc", "bound", "redis", "coro", "text", "op", "now"):
                    return FALSE
                if x[0] == "index" and x[1][:2] == ("reply", "HGETALL") or x[0] == "call" and str(x[1]).split(".")[-1] in NEVER_NONE:
                    return FALSE
        if a[0] == "class" == b[0]:
            return TRUE if a[1] == b[1] else FALSE
        if self.cfg.exact and a[0] == "ext" == b[0]:
            return TRUE if a[1] == b[1] else FALSE
        if self.cfg.exact and {a[0], b[0]} == {"ext", "class"}:
            return FALSE
        if a[0] == "enum" and b[0] == "const" and isinstance(b[1], str):
            a = self.text_value(a)
        if b[0] == "enum" and a[0] == "const" and isinstance(a[1], str):
            b = self.text_value(b)
        oa, ob = self.obj(a), self.obj(b)
        if oa is not None and ob is not None and a == b:
            return TRUE
        if self.cfg.exact and a[0] == "tuple" == b[0]:
            if len(a[1]) != len(b[1]):
                return FALSE
            cs = [self.equal(x, y) for x, y in zip(a[1], b[1])]
            cs = [c for c in cs if c != TRUE]
            return TRUE if not cs else FALSE if FALSE in cs else cs[0] if len(cs) == 1 else ("and", tuple(cs))
        return eq(self.freeze(a), self.freeze(b))

    # ----------------------------------------------------------- expressions
    def ev(self, e: ast.expr, fr: Frame, want_iter: bool = False) -> Term:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"{self.site(fr, e)}: unsupported expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e: ast.Constant, fr: Frame) -> Term:
        return const(e.value) if e.value is not ... else ("sym", "...", None)

    def resolved(self, r: Any) -> Term:
        if r[0] == "func":
            return ("func", r[1])
        if r[0] == "class":
            return ("class", r[1])
        if r[0] == "module":
            return ("module", r[1])
        if r[0] == "ext":
            return ("ext", ALIASES.get(r[1], r[1]))
        if r[0] == "value":
            return self.module_value(r)
        return ("ext", str(r))

    def module_value(self, r: Any) -> Term:
        mod, e = r[1], r[2]
        m = self.prog.modules[mod]
        name = next((n for n, v in m.names.items() if v is r), "?")
        key = (("module", mod), name)
        if key in self.heap:
            return self.heap[key]
        ann = r[3] if len(r) > 3 else None
        typ = self.prog.type_name(m, ann) if ann is not None else None
        if isinstance(e, ast.Constant):
            return self.e_Constant(e, Frame(None, m, None, None))
        if e is not None and simple_value(e):
            return self.ev(e, Frame(None, m, None, None))
        if isinstance(e, ast.Call):
            fn = self.prog.resolve_expr(m, e.func)
            if fn[0] == "class":
                typ = typ or fn[1]
            elif fn[0] == "ext":
                typ = typ or fn[1]
                if fn[1].endswith("partial") or fn[1] in ("datetime.timedelta",):
                    return self.ev(e, Frame(None, m, None, None))
            elif fn[0] == "func":
                f = self.prog.funcs[fn[1]]
                typ = typ or self.prog.type_name(f.module, f.node.returns)  # type: ignore[union-attr]
        if isinstance(e, (ast.Name, ast.Attribute)):
            rr = self.prog.resolve_expr(m, e)
            if rr[0] in ("class", "func", "ext", "module"):
                return self.resolved(rr)
        t: Term = ("sym", f"{mod}.{name}", typ)
        if isinstance(e, ast.Dict) and e.keys and all(isinstance(x, ast.Constant) for x in [*e.keys, *e.values]):
            self.tables[norm(t)] = {x.value: const(y.value) for x, y in zip(e.keys, e.values)}  # type: ignore[union-attr]
        return t

    def e_Name(self, e: ast.Name, fr: Frame) -> Term:
        v = self.lookup(e.id, fr)
        if v is not None:
            return v
        r = self.prog.lookup(fr.module.name, e.id)
        if r is not None:
            return self.resolved(r)
        if hasattr(builtins, e.id):
            return ("ext", e.id)
        return ("sym", e.id, None)

    def e_NamedExpr(self, e: ast.NamedExpr, fr: Frame) -> Term:
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Attribute(self, e: ast.Attribute, fr: Frame) -> Term:
        base = self.ev(e.value, fr)
        if e.attr in self.cfg.watch:
            self.emit(Event("read", e.attr, (norm(base),), site=self.site(fr, e), func=self.fname(fr)))
        return self.get_attr(base, e.attr, fr, e)

    def is_enum(self, c: Class) -> bool:
        return any(b.split(".")[-1] in ("Enum", "StrEnum", "IntEnum") for b in self.prog.ext_bases(c))

    def enum_member(self, c: Class, name: str) -> Term:
        v = c.values[name]
        val = self.ev(v, Frame(None, c.module, None, None))
        return ("enum", c.qual, name, val)

    def text_value(self, t: Term) -> Term:
        """What a member of a string enumeration equals."""
        c = self.prog.classes.get(t[1])
        if c is None or not any(b.split(".")[-1] in ("str", "StrEnum") for b in self.prog.ext_bases(c)) or len(t) < 4:
            return t
        return t[3]

    def get_attr(self, base: Term, attr: str, fr: Frame, at: ast.AST) -> Term:
        if base[0] == "phi":
            return ("attr", base, attr)
        key = (norm(base), attr)
        if key in self.heap:
            return self.heap[key]
        k = base[0]
        if attr == "__class__":
            return self.call_ext("type", [base], {}, fr, at)
        if k == "module":
            r = self.prog.lookup(base[1], attr) if base[1] in self.prog.modules else None
            if r is not None:
                return self.resolved(r)
            n = f"{base[1]}.{attr}"
            if n in self.prog.modules:
                return ("module", n)
            return ("ext", ALIASES.get(n, n))
        if k == "ext":
            n = f"{base[1]}.{attr}"
            return ("ext", ALIASES.get(n, n))
        if k == "enum":
            if attr == "value":
                return base[3]
            if attr == "name":
                return const(base[2])
        if k == "class":
            c = self.prog.classes[base[1]]
            if attr in c.values and self.is_enum(c):
                return self.enum_member(c, attr)
            f = self.prog.method(c, attr)
            if f is not None:
                if f.has("classmethod"):
                    return ("bound", base, f.qual)
                return ("func", f.qual)
            for kx in self.prog.mro(c):
                if attr in kx.values:
                    v = kx.values[attr]
                    if simple_value(v):
                        return self.ev(v, Frame(None, kx.module, kx, None))
                    return ("sym", f"{kx.qual}.{attr}", self.prog.attr_type(c, attr))
            if attr == "__name__":
                return const(c.name)
            if attr == "__mro__" and self.cfg.exact:
                mine = [("class", x.qual) for x in self.prog.mro(c)]
                return ("tuple", (*mine, *(("ext", x) for x in sorted(self.prog.ext_bases(c))), ("ext", "object")))
            return ("attr", base, attr)
        if k == "super":
            c, selft = base[1], base[2]
            f = self.prog.method(self.prog.classes[self.type_of(selft) or c] if self.prog.cls(self.type_of(selft)) else self.prog.classes[c], attr, self.prog.classes[c])
            if f is not None:
                return ("bound", selft, f.qual)
            return ("ext", f"super.{attr}")
        if k == "closure" and attr == "__name__":
            return const(base[1].split(".")[-1])
        if k == "exc" or k == "inst" and self.prog.cls(base[1]) is None:
            return ("attr", base, attr)
        c = self.prog.cls(self.type_of(base))
        if c is not None:
            f = self.prog.method(c, attr)
            if f is not None:
                if f.is_property:
                    if self.cfg.inline(f) and not f.is_stub and len(self.stack) < self.cfg.depth * 2:
                        return self.run_func(f, {f.node.args.args[0].arg: base}, None)
                    return ("attr", base, attr)
                if f.has("staticmethod"):
                    return ("func", f.qual)
                if f.has("classmethod"):
                    return ("bound", ("class", c.qual), f.qual)
                return ("bound", base, f.qual)
            for kx in self.prog.mro(c):
                if attr in kx.values and simple_value(kx.values[attr]) and not self.is_dataclass(kx):
                    if k == "inst" or not self.assigned_elsewhere(kx, attr):
                        return self.ev(kx.values[attr], Frame(None, kx.module, kx, None))
        return ("attr", base, attr)

    def assigned_elsewhere(self, c: Class, attr: str) -> bool:
        for k in [c, *self.prog.subclasses(c)]:
            if k is not c and attr in k.values:
                return True
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def is_dataclass(self, c: Class) -> bool:
        return any(d.split(".")[-1] == "dataclass" for d in c.decorators)

    def e_Await(self, e: ast.Await, fr: Frame) -> Term:
        v = self.ev(e.value, fr)
        return self.await_(v, fr, e)

    def await_(self, v: Term, fr: Frame, at: ast.AST) -> Term:
        if v[0] == "coro":
            f, params, parent = self.coro_target(v)
            if f is not None:
                return self.do_call(f, params, parent, fr, at)
        if v[0] == "call" and v[1] == "task":
            ev = Event("await", "task", (v,), site=self.site(fr, at), func=self.fname(fr))
            self.emit(ev)
            self.may_raise(ev, fr, at)
        return v

    def coro_target(self, v: Term) -> tuple[Func | None, dict, Frame | None]:
        rec = self.objs.get(v[2])
        if rec is None:
            return None, {}, None
        return rec["func"], rec["params"], rec["parent"]

    def e_Yield(self, e: ast.Yield, fr: Frame) -> Term:
        v = self.ev(e.value, fr) if e.value is not None else NONE
        f: Frame | None = fr
        while f is not None and f.yield_cb is None:
            f = f.parent if f.func and isinstance(f.func.node, ast.Lambda) else None
        if f is not None and f.yield_cb is not None:
            return f.yield_cb(v) or NONE
        self.emit(Event("yield", "", (self.freeze(v),), site=self.site(fr, e), func=self.fname(fr)))
        self.may_raise(Event("yield", "yield", (v,), site=self.site(fr, e), func=self.fname(fr)), fr, e)
        return ("sym", "sent", None)

    def e_YieldFrom(self, e: ast.YieldFrom, fr: Frame) -> Term:
        self.ev(e.value, fr)
        return NONE

    def e_JoinedStr(self, e: ast.JoinedStr, fr: Frame) -> Term:
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.ev(v.value, fr)  # type: ignore[attr-defined]
                if isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion == ord("r")):
                    t = ("call", "format", (norm(self.freeze(t)), const(ast.unparse(v.format_spec) if v.format_spec else "!r")))
                parts.append(self.freeze(t) if t[0] not in ("const", "cat") else t)
        return cat(*parts)

    def e_BinOp(self, e: ast.BinOp, fr: Frame) -> Term:
        a, b = self.ev(e.left, fr), self.ev(e.right, fr)
        if isinstance(e.op, ast.Mult) and (unbounded(self.freeze(a)) or unbounded(self.freeze(b))):
            self.too_big("*", (a, b), fr, e)
        return self.binop(e.op, a, b)

    def too_big(self, name: str, args: tuple[Term, ...], fr: Frame, at: ast.AST) -> None:
        """A product or a span of time that may not fit its type."""
        ev = Event("pure", "overflow:" + name, tuple(norm(self.freeze(a)) for a in args), site=self.site(fr, at), func=self.fname(fr), extra="pure")
        if self.cfg.raises(ev, self.run.trace):
            self.emit(ev)
            self.may_raise(ev, fr, at)

    def binop(self, op: ast.operator, a: Term, b: Term) -> Term:
        name = type(op).__name__
        if isinstance(op, ast.Mod) and a[0] == "const" and isinstance(a[1], str) and "{" not in a[1]:
            given = list(b[1]) if b[0] == "tuple" else [b]
            if a[1].count("%s") + a[1].count("%d") == len(given) == a[1].count("%"):
                got = self.formatted(a[1].replace("%s", "{}").replace("%d", "{}"), given, {})
                if got is not None:
                    return got
        if isinstance(op, ast.Add):
            if any(x[0] == "const" and isinstance(x[1], (str, bytes)) or x[0] in ("cat",) for x in (a, b)):
                return cat(a, b)
            oa, ob = self.obj(a), self.obj(b)
            if oa and oa["kind"] == "list":
                return self.new_list(oa["items"] + (ob["items"] if ob else list(b[1]) if b[0] == "tuple" else [("star", b)]))
            if ob and ob["kind"] == "list":
                return self.new_list([("star", a), *ob["items"]])
            if a[0] == b[0] == "call" and a[1] == b[1] == "comp:list":
                return self.new_list([("star", a), ("star", b)])
            if a[0] == "tuple" and b[0] == "tuple":
                return ("tuple", a[1] + b[1])
        if isinstance(op, ast.BitOr):
            oa, ob = self.obj(a), self.obj(b)
            if oa and oa["kind"] == "dict":
                return self.new_dict(oa["items"] + (ob["items"] if ob else [(("star", b), NONE)]))
            if ob and ob["kind"] == "dict":
                return self.new_dict([(("star", a), NONE)] + ob["items"])
        na, nb = norm(self.freeze(a)), norm(self.freeze(b))
        if na[0] == nb[0] == "const" and all(isinstance(x[1], (int, float)) and not isinstance(x[1], bool) for x in (na, nb)):
            x, y = na[1], nb[1]
            try:
                fn = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y,
                      "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Pow": lambda: x ** y}.get(name)
                if fn:
                    return const(fn())
            except (ZeroDivisionError, OverflowError):
                pass
        sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**",
               "BitOr": "|", "BitAnd": "&", "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@"}[name]
        if sym in ("+", "*") and repr(nb) < repr(na):
            na, nb = nb, na
        return ("op", sym, na, nb)

    def e_UnaryOp(self, e: ast.UnaryOp, fr: Frame) -> Term:
        if isinstance(e.op, ast.Not):
            return negate(self.cond_term(e.operand, fr))
        v = norm(self.ev(e.operand, fr))
        if isinstance(e.op, ast.USub):
            return const(-v[1]) if v[0] == "const" and isinstance(v[1], (int, float)) else ("op", "-", const(0), v)
        return ("op", type(e.op).__name__, v, NONE)

    def e_BoolOp(self, e: ast.BoolOp, fr: Frame) -> Term:
        # value semantics: keep the alternatives unless the facts decide
        vals: list[Term] = []
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            has_call = any(isinstance(n, (ast.Await, ast.Call, ast.NamedExpr)) for n in ast.walk(x))
            if i and has_call and vals and self.may_matter(x):
                c = self.truth_of(vals[-1]) if len(vals) == 1 else ("and" if isand else "or", tuple(self.truth_of(v) for v in vals))
                r = self.run.decide(c, self.site(fr, x), self.fname(fr))
                if r != isand:
                    return vals[-1] if len(vals) == 1 else (FALSE if isand else vals[0])
                vals = []
            v = self.ev(x, fr)
            k = self.run.known(self.truth_of(v))
            last = i == len(e.values) - 1
            if k is not None and not last:
                if k == isand:
                    continue
                vals.append(v)
                break
            vals.append(v)
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return TRUE if isand else FALSE
        return ("and" if isand else "or", tuple(self.freeze(v) if v[0] == "obj" else v for v in vals))

    def may_matter(self, x: ast.expr) -> bool:
        return any(isinstance(n, (ast.Await, ast.NamedExpr)) for n in ast.walk(x)) or any(
            isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr in PURE_METHODS)
            and not (isinstance(n.func, ast.Name) and n.func.id in PURE_FUNCS) for n in ast.walk(x))

    def e_IfExp(self, e: ast.IfExp, fr: Frame) -> Term:
        c = self.cond_term(e.test, fr)
        k = self.run.known(c)
        if k is None and not any(isinstance(n, (ast.Await,)) for n in ast.walk(e)) and not self.may_matter(e.body) and not self.may_matter(e.orelse):
            a, b = self.ev(e.body, fr), self.ev(e.orelse, fr)
            if a == b:
                return a
            if a == TRUE and b == FALSE:
                return c
            if a == FALSE and b == TRUE:
                return negate(c)
            # decide lazily only when the arms differ observably
            if self.run.decide(c, self.site(fr, e), self.fname(fr)):
                return a
            return b
        return self.ev(e.body if self.branch(e.test, fr) else e.orelse, fr)

    def e_Compare(self, e: ast.Compare, fr: Frame) -> Term:
        left = self.ev(e.left, fr)
        out: list[Term] = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            if self.cfg.compares is not None and isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and self.cfg.compares(left, right):
                ev = Event("compare", type(op).__name__, (norm(self.freeze(left)), norm(self.freeze(right))), site=self.site(fr, e), func=self.fname(fr))
                self.emit(ev)
                self.may_raise(ev, fr, e)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return ("and", tuple(out))

    def compare(self, op: ast.cmpop, a: Term, b: Term) -> Term:
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.equal(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return negate(self.equal(a, b))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return negate(lt(b, a))
        if isinstance(op, ast.GtE):
            return negate(lt(a, b))
        c = self.contains(a, b)
        return negate(c) if isinstance(op, ast.NotIn) else c

    def contains(self, a: Term, b: Term) -> Term:
        o = self.obj(b)
        items: list[Term] | None = None
        if norm(b) in self.tables and norm(a)[0] == "const":
            return TRUE if norm(a)[1] in self.tables[norm(b)] else FALSE
        if o is not None:
            items = [k for k, _ in o["items"]] if o["kind"] == "dict" else list(o["items"])
        elif b[0] == "tuple":
            items = list(b[1])
        if items is not None and not any(x[0] == "star" for x in items):
            cs = [self.equal(a, x) for x in items]
            cs = [c for c in cs if c != FALSE]
            if TRUE in cs:
                return TRUE
            if not cs:
                return FALSE
            return cs[0] if len(cs) == 1 else ("or", tuple(cs))
        if a[0] == "const" and b[0] == "const":
            try:
                return TRUE if a[1] in b[1] else FALSE
            except TypeError:
                pass
        return ("cmp", "in", norm(self.freeze(a)), norm(self.freeze(b)))

    def e_Dict(self, e: ast.Dict, fr: Frame) -> Term:
        items: list[tuple[Term, Term]] = []
        for k, v in zip(e.keys, e.values):
            val = self.ev(v, fr)
            if k is None:
                o = self.obj(val)
                if o is not None and o["kind"] == "dict":
                    items += o["items"]
                else:
                    items.append((("star", self.freeze(val)), NONE))
            else:
                items.append((self.ev(k, fr), val))
        return self.new_dict(items)

    def seq(self, elts: list[ast.expr], fr: Frame) -> list[Term]:
        out: list[Term] = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                o = self.obj(v)
                if o is not None and o["kind"] != "dict":
                    out += o["items"]
                elif v[0] == "tuple":
                    out += list(v[1])
                else:
                    out.append(("star", self.freeze(v)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e: ast.List, fr: Frame) -> Term:
        return self.new_list(self.seq(e.elts, fr))

    def e_Set(self, e: ast.Set, fr: Frame) -> Term:
        return self.new_list(self.seq(e.elts, fr), "set")

    def e_Tuple(self, e: ast.Tuple, fr: Frame) -> Term:
        return ("tuple", tuple(self.seq(e.elts, fr)))

    def e_Starred(self, e: ast.Starred, fr: Frame) -> Term:
        return ("star", self.ev(e.value, fr))

    def e_Lambda(self, e: ast.Lambda, fr: Frame) -> Term:
        f = Func(f"{self.fname(fr)}.<lambda>", fr.module, e)
        i = self.run.fresh()
        self.closures[i] = (f, fr)
        return ("closure", f.qual, i)

    def comp(self, e: Any, fr: Frame, kind: str) -> Term:
        """Comprehensions: concrete over known containers; otherwise one
        generic element stands for all."""
        sub = Frame(fr.func, fr.module, fr.cls, fr)
        sub.self_term = fr.self_term
        out: list[Any] = []

        def go(i: int) -> None:
            if i == len(e.generators):
                if kind == "dict":
                    out.append((self.ev(e.key, sub), self.ev(e.value, sub)))
                else:
                    out.append(self.ev(e.elt, sub))
                return
            g = e.generators[i]
            it = self.ev(g.iter, sub)
            o = self.obj(it)
            concrete = (o is not None or it[0] == "tuple" or (it[0] == "call" and it[1] in ("items", "values") and self.obj(it[2][0]) is not None)
                        or it[0] == "class" or (it[0] == "call" and it[1] == "enumerate"))
            batch = norm(it) in self.batches
            concrete = concrete or batch
            elems = self.iterate(it, sub, e) if concrete else [("elem", self.freeze(it), 0)]
            for x in elems:
                self.assign(g.target, x, sub)
                ok = True
                for c in g.ifs:
                    ct = self.cond_term(c, sub)
                    k = self.run.known(ct)
                    if k is None and concrete and (batch or not any(y[0] == "elem" for y in walk(ct))):
                        k = self.run.decide(ct, self.site(fr, e), self.fname(fr))
                    if k is False:
                        ok = False
                        break
                    if k is None:
                        generic.append(norm(ct))
                if ok:
                    go(i + 1)
            if not concrete:
                generic.append(norm(self.freeze(it)))

        generic: list[Term] = []
        go(0)
        if generic:
            frozen = tuple(("tuple", (self.freeze(a), self.freeze(b))) if kind == "dict" else self.freeze(x)
                           for x in out for a, b in [x if kind == "dict" else (x, x)])
            return ("call", "comp:" + kind, (("tuple", tuple(generic)), ("tuple", frozen)))
        if kind == "dict":
            return self.new_dict(out)
        if kind == "set" and self.cfg.exact and all(ground(norm(x)) for x in out):
            out = [x for i, x in enumerate(out) if norm(x) not in [norm(y) for y in out[:i]]]
        return self.new_list(out, kind)

    def e_ListComp(self, e: ast.ListComp, fr: Frame) -> Term:
        return self.comp(e, fr, "list")

    def e_SetComp(self, e: ast.SetComp, fr: Frame) -> Term:
        return self.comp(e, fr, "set")

    def e_GeneratorExp(self, e: ast.GeneratorExp, fr: Frame) -> Term:
        return self.comp(e, fr, "list")

    def e_DictComp(self, e: ast.DictComp, fr: Frame) -> Term:
        return self.comp(e, fr, "dict")

    def e_Slice(self, e: ast.Slice, fr: Frame) -> Term:
        return ("slice", *(norm(self.ev(x, fr)) if x is not None else NONE for x in (e.lower, e.upper, e.step)))

    def e_Subscript(self, e: ast.Subscript, fr: Frame) -> Term:
        base = self.ev(e.value, fr)
        if base[0] in ("class", "ext") and not isinstance(e.ctx, ast.Store):
            if base[0] == "ext" and base[1][:1].islower() and "." not in base[1]:
                return base
            if base[0] == "class" or base[1].split(".")[-1][:1].isupper():
                return base
        key = self.ev(e.slice, fr)
        return self.index(base, key)

    def index(self, base: Term, key: Term) -> Term:
        o = self.obj(base)
        nk = norm(key)
        if nk[0] == "const" and norm(base) in self.tables and nk[1] in self.tables[norm(base)]:
            return self.tables[norm(base)][nk[1]]
        if o is not None and o["kind"] == "dict":
            for k, v in reversed(o["items"]):
                if norm(k) == nk or self.run.known(self.equal(key, k)):
                    return v
            if self.table_like(o, nk):
                for k, v in reversed(o["items"]):
                    if self.run.decide(self.equal(key, k)):
                        return v
            if self.cfg.exact and ground(nk) and all(ground(norm(k)) for k, _ in o["items"]):
                raise PyRaise(("exc", "KeyError", self.run.fresh(), ""))
        items = o["items"] if o is not None and o["kind"] == "list" else list(base[1]) if base[0] == "tuple" else None
        if items is not None and nk[0] == "const" and isinstance(nk[1], int) and not any(x[0] == "star" for x in items):
            if -len(items) <= nk[1] < len(items):
                return items[nk[1]]
        if items is not None and nk[0] == "slice" and not any(x[0] == "star" for x in items):
            if all(x[0] == "const" for x in nk[1:]):
                got = items[slice(*(x[1] for x in nk[1:]))]
                return ("tuple", tuple(got)) if base[0] == "tuple" else self.new_list(got)
        if nk[0] == "slice" and all(x[0] == "const" for x in nk[1:]) and norm(base)[0] in ("cat", "const"):
            # cutting a known prefix or suffix off a text
            lo, hi, step = (x[1] for x in nk[1:])
            b = norm(base)
            if b[0] == "const" and isinstance(b[1], (str, bytes)):
                return const(b[1][slice(lo, hi, step)])
            if b[0] == "cat" and step is None:
                parts = list(b[1])
                if lo in (None, 0) and isinstance(hi, int) and hi < 0 and parts[-1][0] == "const" and len(parts[-1][1]) >= -hi:
                    return cat(*parts[:-1], const(parts[-1][1][:hi]))
                if hi is None and isinstance(lo, int) and lo > 0 and parts[0][0] == "const" and len(parts[0][1]) >= lo:
                    return cat(const(parts[0][1][lo:]), *parts[1:])
        if nk[0] == "const" and isinstance(nk[1], int):
            # the reply to one command of a pipeline
            done = self.batches.get(norm(base), [])
            if -len(done) <= nk[1] < len(done):
                return done[nk[1]]
        return ("index", norm(self.freeze(base)), norm(self.freeze(key)))

    def table_like(self, o: Any, nk: Term) -> bool:
        """A small table of constants, looked up by an unknown value."""
        return nk[0] not in ("const", "star") and 0 < len(o["items"]) <= 8 and all(k[0] in ("const", "enum") for k, _ in o["items"])

    # ----------------------------------------------------------------- calls
    def e_Call(self, e: ast.Call, fr: Frame) -> Term:
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            f: Frame | None = fr
            while f is not None and not (f.func and f.func.cls):
                f = f.parent
            if f and f.func and f.func.cls:
                return ("super", f.func.cls.qual, f.self_term)
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                o = self.obj(v)
                if v[0] == "tuple":
                    args += list(v[1])
                elif o is not None and o["kind"] == "list":
                    args += o["items"]
                else:
                    args.append(("star", v))
            else:
                args.append(self.ev(a, fr))
        kwargs: dict[str, Term] = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                o = self.obj(v)
                if o is not None and o["kind"] == "dict":
                    for kk, vv in o["items"]:
                        if kk[0] == "const" and isinstance(kk[1], str):
                            kwargs[kk[1]] = vv
                        else:
                            kwargs["**" + str(len(kwargs))] = kk[1] if kk[0] == "star" else kk
                else:
                    kwargs["**" + str(len(kwargs))] = v
            else:
                kwargs[k.arg] = v
        return self.call_term(fn, args, kwargs, fr, e)

    def call_term(self, fn: Term, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term:
        k = fn[0]
        hook = None
        if k in ("func", "class", "ext"):
            hook = self.cfg.hooks.get(fn[1])
        elif k == "bound":
            hook = self.cfg.hooks.get(fn[2])
        if hook is not None:
            r = hook(self, fn, args, kwargs, fr, at)
            if r is not None:
                return r
        if k == "func":
            return self.call_func(self.prog.funcs[fn[1]], args, kwargs, fr, at, None)
        if k == "closure":
            f, parent = self.closures[fn[2]]
            return self.call_func(f, args, kwargs, fr, at, parent)
        if k == "bound":
            f = self.prog.funcs[fn[2]]
            return self.invoke_method(fn[1], f, args, kwargs, fr, at)
        if k == "class":
            return self.construct(self.prog.classes[fn[1]], args, kwargs, fr, at)
        if k == "ext":
            return self.call_ext(fn[1], args, kwargs, fr, at)
        if k == "partial":
            return self.call_term(fn[1], list(fn[2]) + args, {**dict(fn[3]), **kwargs}, fr, at)
        if k == "attr":
            return self.call_method(fn[1], fn[2], args, kwargs, fr, at)
        return self.opaque(show(fn), args, kwargs, fr, at)

    def invoke_method(self, recv: Term, f: Func, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term:
        if f.has("staticmethod"):
            return self.call_func(f, args, kwargs, fr, at, None)
        # a call through an abstract or protocol base is resolved dynamically
        c = self.prog.cls(self.type_of(recv)) if recv[0] != "class" else None
        if c is not None and (f.has("abstractmethod") or is_protocol(self.prog, f.cls)) and recv[0] != "inst":
            if self.is_redis(recv):
                return self.redis_call(recv, f.name, args, kwargs, fr, at)
            return self.opaque(f.qual, [recv, *args], kwargs, fr, at, f)
        return self.call_func(f, [recv, *args], kwargs, fr, at, None)

    def call_func(self, f: Func, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST, parent: Frame | None) -> Term:
        if f.has("redis_script"):
            return self.call_script(f, args, kwargs, fr, at)
        params = self.bind(f, args, kwargs, fr)
        if f.is_async or f.is_generator:
            i = self.run.fresh()
            self.objs[i] = {"kind": "coro", "func": f, "params": params, "parent": parent, "args": args, "kwargs": kwargs, "items": []}
            return ("coro", f.qual, i)
        return self.do_call(f, params, parent, fr, at)

    def do_call(self, f: Func, params: dict[str, Term], parent: Frame | None, fr: Frame, at: ast.AST) -> Term:
        hook = self.cfg.hooks.get("await:" + f.qual)
        if hook is not None:
            r = hook(self, f, params, fr, at)
            if r is not None:
                return r
        ret = self.prog.type_name(f.module, getattr(f.node, "returns", None), f.cls)
        names = tuple((n, self.freeze(v)) for n, v in params.items())
        if f.cls and names and names[0][0] == "self":
            ev_args: tuple = (names[0][1],)
            ev_kw = names[1:]
        else:
            ev_args, ev_kw = (), names
        # A pure computation that iterates is a value, not a source of paths.
        if not f.is_async and not f.is_generator and parent is None and self.cfg.summarise(f) \
                and self.prog.has_loop(f) and not self.prog.has_effects(f):
            return ("call", f.qual, tuple(norm(v) for _, v in names), ret)
        # Direct or mutual recursion: one unfolding, then an opaque result.
        if not (self.cfg.inline(f) or self.prog.is_new(f)) or self.stack.count(f.qual) >= 2 or len(self.stack) >= self.cfg.depth:
            res: Term = ("call", f.qual, (*ev_args, *(v for _, v in ev_kw)), ret, self.run.fresh())
            ev = Event("call", f.qual, ev_args, ev_kw, res, self.site(fr, at), self.unit, self.fname(fr), extra="opaque")
            self.emit(ev)
            if f.cls and ev_args:
                for attr in self.prog.stores(f):
                    c = self.prog.cls(self.type_of(ev_args[0]))
                    ty = self.prog.attr_type(c, attr) if c else None
                    self.heap[(norm(ev_args[0]), attr)] = ("call", "after:" + f.name + "." + attr, (ev_args[0],), ty, self.run.fresh())
            self.may_raise(ev, fr, at)
            return res
        ev = Event("call", f.qual, ev_args, ev_kw, None, self.site(fr, at), self.unit, self.fname(fr))
        self.emit(ev)
        try:
            r = self.run_func(f, params, parent)
        except PyRaise as p:
            self.emit(Event("ret", f.qual, (p.exc,), site=self.site(fr, at), func=self.fname(fr), extra="raise"))
            raise
        self.emit(Event("ret", f.qual, (self.freeze(r),), site=self.site(fr, at), func=self.fname(fr)))
        return r

    def construct(self, c: Class, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term:
        if self.is_enum(c):
            if len(args) == 1:
                a = norm(args[0])
                for n in c.values:
                    m = self.enum_member(c, n)
                    if norm(m[3]) == a:
                        return m
                if args[0][0] == "enum" and args[0][1] == c.qual:
                    return args[0]
            return ("call", c.qual, tuple(norm(a) for a in args), c.qual)
        inst: Term = ("inst", c.qual, self.run.fresh())
        ev = Event("new", c.qual, tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in kwargs.items()),
                   inst, self.site(fr, at), None, self.fname(fr))
        self.emit(ev)
        init = self.prog.method(c, "__init__")
        if init is not None:
            if self.cfg.inline(init) and len(self.stack) < self.cfg.depth:
                params = self.bind(init, [inst, *args], kwargs, fr)
                self.run_func(init, params, None)
            return inst
        fields: list[tuple[str, ast.expr | None, Class]] = []
        for k in reversed(self.prog.mro(c)):
            for n in k.attrs:
                fields = [x for x in fields if x[0] != n]
                fields.append((n, k.values.get(n), k))
        for i, a in enumerate(args):
            if i < len(fields):
                self.heap[(norm(inst), fields[i][0])] = a
        for n, v in kwargs.items():
            self.heap[(norm(inst), n)] = v
        for n, d, k in fields:
            if (norm(inst), n) not in self.heap and d is not None and simple_value(d):
                self.heap[(norm(inst), n)] = self.ev(d, Frame(None, k.module, k, None))
        post = self.prog.method(c, "__post_init__")
        if post is not None and self.cfg.inline(post):
            self.run_func(post, {"self": inst}, None)
        return inst

    # -- calls that leave the package -----------------------------------------
    def opaque(self, name: str, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST, f: Func | None = None,
               pure: bool = False, rtype: str | None = None) -> Term:
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple((k, self.freeze(v)) for k, v in kwargs.items())
        if pure:
            if name.startswith("cloudpickle."):
                ev = Event("pure", name, fa, fk, site=self.site(fr, at), func=self.fname(fr), extra="pure")
                self.emit(ev)
                self.may_raise(ev, fr, at)
            if name.endswith("timedelta") and any(unbounded(a) for a in [*fa, *[v for _, v in fk]]):
                self.too_big(name, (*fa, *[v for _, v in fk]), fr, at)
            return ("call", name, tuple(norm(a) for a in fa) + tuple(("tuple", (const(k), norm(v))) for k, v in fk), rtype)
        if f is not None:
            rtype = rtype or self.prog.type_name(f.module, f.node.returns, f.cls)  # type: ignore[union-attr]
        res: Term = ("call", name, tuple(norm(a) for a in fa), rtype, self.run.fresh())
        ev = Event("call", name, fa, fk, res, self.site(fr, at), self.unit, self.fname(fr), extra="opaque")
        self.emit(ev)
        # coroutines handed to a waiter run here
        if name in ("asyncio.wait_for", "asyncio.shield", "asyncio.gather", "asyncio.wait"):
            out: list[Term] = []
            for a in args:
                if a[0] == "coro":
                    out.append(self.await_(a, fr, at))
            self.may_raise(ev, fr, at)
            if out:
                return out[0] if len(out) == 1 and name != "asyncio.gather" else ("tuple", tuple(out))
            return res
        if name.split(".")[-1] in ("create_task", "ensure_future", "start_soon"):
            for a in args:
                if a[0] == "coro":
                    g, params, parent = self.coro_target(a)
                    self.emit(Event("spawn", a[1], tuple(self.freeze(v) for v in params.values()),
                                    tuple((k, self.freeze(v)) for k, v in params.items()), res,
                                    self.site(fr, at), tuple(params.values()), self.fname(fr), extra=name))
                    if g is not None and self.cfg.run_spawned(g):
                        self.await_(a, fr, at)
            res2: Term = ("call", "task", tuple(norm(a) for a in fa[:1]), "asyncio.Task", self.run.fresh())
            return res2
        self.may_raise(ev, fr, at)
        return res

    def isinstance_(self, x: Term, c: Term) -> Term:
        alts = list(c[1]) if c[0] == "tuple" else [c]
        if any(a[0] in ("ext", "class") and a[1].split(".")[-1] == "Hashable" for a in alts):
            return const(not (self.cfg.unhashable and any(y in self.cfg.unhashable for y in walk(norm(self.freeze(x))))))
        cls = self.exc_class(x) if x[0] in ("exc", "inst") else None
        if cls is not None:
            names = [self.exc_name(a) for a in alts]
            par = self.exc_parents(cls)
            if any(n in par for n in names):
                return TRUE
            if not (x[0] == "exc" and x[3] == "any" and any(self.exc_sub(n, cls) for n in names)):
                return FALSE
        if x[0] == "const":
            tn = type(x[1]).__name__
            nm = [self.exc_name(a) for a in alts]
            if tn in nm:
                return TRUE
            if x == NONE and not any("None" in n or n == "object" for n in nm):
                return FALSE
            if all(n in ("str", "bytes", "int", "float", "bool", "dict", "list", "tuple") for n in nm) and not (tn == "bool" and "int" in nm):
                return FALSE
            if self.cfg.exact and all(a[0] in ("class", "ext") and n.split(".")[-1] not in ABCS for a, n in zip(alts, nm)):
                return FALSE
        o = self.obj(x)
        if o is not None and o["kind"] in KINDS:
            names = [self.exc_name(a).split(".")[-1] for a in alts]
            if any(n in KINDS[o["kind"]] for n in names):
                return TRUE
            if all(n in ALL_KINDS for n in names):
                return FALSE
        if str(self.type_of(x)).split("[")[0] in ("Callable", "typing.Callable", "collections.abc.Callable") and \
                all(self.exc_name(a) in ("str", "bytes", "int", "float", "bool", "dict", "list", "tuple") for a in alts):
            return FALSE
        if self.type_of(x) == "str":
            nm = [self.exc_name(a) for a in alts]
            if "str" in nm:
                return TRUE
            if all(n in ("bytes", "int", "float", "bool", "dict", "list", "tuple") for n in nm):
                return FALSE
        return ("truth", ("call", "isinstance", (norm(x), norm(c))))

    def own_class(self, t: Term) -> Term | None:
        """The class of an object of the program, where it can only be one."""
        if t[0] not in ("inst", "sym"):
            return None
        c = self.prog.cls(self.type_of(t))
        if c is None or t[0] == "sym" and (self.prog.subclasses(c) or str(self.type_of(t)).endswith("?")):
            return None
        return ("class", c.qual)

    def call_ext(self, name: str, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term:
        short = name.split(".")[-1]
        if name == "cloudpickle.loads" and args and args[0][0] == "call" and args[0][1] == "cloudpickle.dumps":
            return args[0][2][0]
        if name == "hash" and args:
            self.hashed(args[0])
        if name in ("zip", "reversed") and args and all(self.concrete(a) for a in args):
            each = [self.iterate(a, fr, at) for a in args]
            return ("tuple", tuple(reversed(each[0])) if name == "reversed" else tuple(("tuple", x) for x in zip(*each)))
        if name == "enumerate" and args and self.concrete(args[0]) and (self.obj(args[0]) is not None or self.cfg.exact):
            start = args[1] if len(args) == 2 else kwargs.get("start", const(0))
            if start[0] == "const" and isinstance(start[1], int):
                return ("tuple", tuple(("tuple", (const(i), x)) for i, x in enumerate(self.iterate(args[0], fr, at), start[1])))
        if name == "range" and args and all(norm(a)[0] == "const" and isinstance(norm(a)[1], int) for a in args):
            r = range(*(norm(a)[1] for a in args))
            if len(r) <= 16:
                return ("tuple", tuple(const(i) for i in r))
        if name == "isinstance" and len(args) == 2:
            return self.isinstance_(args[0], args[1])
        if name == "issubclass" and len(args) == 2:
            t = args[0]
            if t[0] == "call" and t[1] == "type":
                return self.isinstance_(t[2][0], args[1])
            if t[0] in ("class", "ext") and args[1][0] != "phi":
                alts = list(args[1][1]) if args[1][0] == "tuple" else [args[1]]
                return TRUE if any(self.exc_sub(self.exc_name(t), self.exc_name(a)) for a in alts) else FALSE
        if name in ("str", "int", "float") and len(args) == 1:
            if args[0][0] == "const" and name == "int":
                try:
                    return const(int(args[0][1]))
                except (TypeError, ValueError):
                    pass
            if args[0][0] == "const" and name == "str":
                return const(str(args[0][1]))
            return text(args[0]) if name == "str" else ("call", name, (norm(self.freeze(args[0])),)) if name == "int" and not is_textlike(args[0]) else text(args[0])
        if name == "bool" and len(args) == 1:
            return self.truth_of(args[0])
        if name in ("typing.cast", "cast") and len(args) == 2:
            v = args[1]
            t = args[0]
            if v[0] == "sym" and t[0] in ("class", "ext"):
                return ("sym", v[1], t[1])
            return v
        if name in ("list", "tuple", "set", "frozenset") and len(args) <= 1:
            if not args:
                return self.new_list([], name) if name != "tuple" else ("tuple", ())
            o = self.obj(args[0])
            if o is not None and not any(x[0] == "star" for x in o["items"]):
                items = [k for k, _ in o["items"]] if o["kind"] == "dict" else list(o["items"])
                return ("tuple", tuple(items)) if name == "tuple" else self.new_list(items, name)
            if args[0][0] == "tuple":
                return args[0] if name == "tuple" else self.new_list(list(args[0][1]), name)
            return ("call", name, (norm(self.freeze(args[0])),), self.type_of(args[0]))
        if name == "dict":
            items: list[tuple[Term, Term]] = []
            if args:
                o = self.obj(args[0])
                items += o["items"] if o is not None and o["kind"] == "dict" else [(("star", self.freeze(args[0])), NONE)]
            items += [(const(k), v) for k, v in kwargs.items()]
            return self.new_dict(items)
        if name == "type" and len(args) == 1:
            c = self.own_class(args[0])
            if c is not None:
                return c
        if name == "len" and len(args) == 1:
            o = self.obj(args[0])
            if o is not None and not any((x[0] if o["kind"] == "dict" else x)[0] == "star" for x in o["items"]):
                return const(len(o["items"]))
            if args[0][0] == "tuple":
                return const(len(args[0][1]))
            if args[0][0] == "const" and isinstance(args[0][1], (str, bytes)):
                return const(len(args[0][1]))
            return ("len", norm(self.freeze(args[0])))
        if name in ("json.dumps",):
            return ("json", norm(self.freeze(args[0])))
        if name == "next" and len(args) == 2 and self.cfg.exact and self.obj(args[0]) is not None and isinstance(at, ast.Call) and isinstance(at.args[0], ast.GeneratorExp):
            o = self.obj(args[0])
            return o["items"][0] if o["items"] else args[1]
        if name == "getattr" and len(args) == 3 and args[1][0] == "const" and args[0][0] == "class":
            got = self.get_attr(args[0], args[1][1], fr, at)
            return got if got[0] != "attr" else args[2] if self.cfg.exact else ("call", "getattr", tuple(norm(self.freeze(a)) for a in args))
        if name == "getattr" and len(args) >= 2 and args[1][0] == "const":
            return self.get_attr(args[0], args[1][1], fr, at) if len(args) == 2 else ("call", "getattr", tuple(norm(self.freeze(a)) for a in args))
        if name == "setattr" and len(args) == 3 and args[1][0] == "const":
            self.set_attr(args[0], args[1][1], args[2], fr, at)
            return NONE
        if name in ("functools.partial",):
            return ("partial", args[0], tuple(args[1:]), tuple(kwargs.items()))
        if name in ("any", "all") and len(args) == 1:
            o = self.obj(args[0])
            if o is not None and not any(x[0] == "star" for x in o["items"]):
                cs = tuple(self.truth_of(x) for x in o["items"])
                if not cs:
                    return FALSE if name == "any" else TRUE
                return ("or" if name == "any" else "and", cs)
        if name in ("datetime.datetime.now", "datetime.now"):
            clock: Term = ("now", self.run.fresh())
            self.emit(Event("pure", "now", tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in kwargs.items()), clock, self.site(fr, at), extra="pure", func=self.fname(fr)))
            return clock
        if name == "time.time":
            return ("now", self.run.fresh())
        if name in ("contextlib.AsyncExitStack", "contextlib.ExitStack"):
            inst: Term = ("inst", name, self.run.fresh())
            self.heap[(norm(inst), "__callbacks__")] = self.new_list([])
            return inst
        if name in ("max", "min") and all(norm(a)[0] == "const" for a in args) and len(args) > 1:
            try:
                return const((max if name == "max" else min)(norm(a)[1] for a in args))
            except TypeError:
                pass
        if name in ("opentelemetry.propagate.inject",) and args:
            o = self.obj(args[0])
            if o is not None and o["kind"] == "dict":
                src = ("sym", "trace", None)
                o["items"].append((("rest", src, const("name")), ("rest", src, const("value"))))
        if name in EXC_PARENTS or (isinstance(getattr(builtins, name, None), type) and issubclass(getattr(builtins, name), BaseException)):
            e = ("exc", name, self.run.fresh(), "")
            self.heap[(norm(e), "args")] = ("tuple", tuple(self.freeze(a) for a in args))
            return e
        if name in PURE_FUNCS or short in PURE_METHODS:
            return self.opaque(name, args, kwargs, fr, at, pure=True)
        if short[:1].isupper() and name not in ("asyncio.TaskGroup",):
            # construction of an external class
            ev = Event("new", name, tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in kwargs.items()),
                       None, self.site(fr, at), None, self.fname(fr))
            inst = ("inst", name, self.run.fresh())
            self.emit(Event(ev.kind, ev.name, ev.args, ev.kwargs, inst, ev.site, None, ev.func))
            self.may_raise(ev, fr, at)
            return inst
        return self.opaque(name, args, kwargs, fr, at)

    def call_method(self, recv: Term, meth: str, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term:
        """A method of something outside the package (or of unknown type)."""
        o = self.obj(recv)
        if o is not None:
            r = self.container_method(recv, o, meth, args, kwargs, fr, at)
            if r is not None:
                return r
        if recv[0] == "inst" and recv[1] in ("contextlib.AsyncExitStack", "contextlib.ExitStack"):
            r = self.exit_stack(recv, meth, args, kwargs, fr, at)
            if r is not None:
                return r
        if self.is_redis(recv):
            return self.redis_call(recv, meth, args, kwargs, fr, at)
        if meth in ("encode", "decode") and len(args) <= 1:
            if recv[0] == "enum":
                recv = self.text_value(recv)
            return text(recv)
        if meth == "format" and recv[0] == "const" and isinstance(recv[1], str):
            got = self.formatted(recv[1], args, kwargs)
            if got is not None:
                return got
        if meth == "join" and recv[0] == "const" and len(args) == 1:
            jo = self.obj(args[0])
            if args[0][0] == "tuple":
                jo = {"items": list(args[0][1])}
            if jo is not None and not any(x[0] == "star" for x in jo["items"]):
                parts: list[Term] = []
                for i, x in enumerate(jo["items"]):
                    if i:
                        parts.append(recv)
                    parts.append(x)
                return cat(*parts)
        if meth in ("items", "values", "keys") and not args:
            return ("call", meth, (norm(recv),), iter_type(self.type_of(recv), meth))
        if meth == "get" and not kwargs and args and norm(recv) in self.tables and norm(args[0])[0] == "const":
            return self.tables[norm(recv)].get(norm(args[0])[1], args[1] if len(args) > 1 else NONE)
        if meth == "get" and not kwargs and args and norm(recv)[:2] == ("reply", "HGETALL"):
            if self.run.decide(("cmp", "in", norm(self.freeze(args[0])), norm(recv)), self.site(fr, at), self.fname(fr)):
                return self.index(recv, args[0])
            return args[1] if len(args) > 1 else NONE
        if meth == "get" and not kwargs and args and (self.type_of(recv) or "").startswith(("dict", "Mapping")):
            return ("call", "get", tuple(norm(self.freeze(a)) for a in (recv, *args)), elem_type(self.type_of(recv)))
        hook = self.cfg.hooks.get("." + meth)
        if hook is not None:
            got = hook(self, recv, args, kwargs, fr, at)
            if got is not None:
                return got
        name = self.recv_name(recv) + "." + meth
        if meth in ("startswith", "endswith", "removeprefix", "removesuffix") and len(args) == 1 and args[0][0] == "const" and isinstance(args[0][1], (str, bytes)):
            b = norm(self.freeze(recv))
            parts = list(b[1]) if b[0] == "cat" else [b]
            front = meth in ("startswith", "removeprefix")
            edge, aff = parts[0 if front else -1], args[0][1]
            if edge[0] == "const" and isinstance(edge[1], type(aff)):
                has = edge[1].startswith(aff) if front else edge[1].endswith(aff)
                if has or len(edge[1]) >= len(aff) or b[0] == "const":
                    if meth.endswith("with"):
                        return const(has)
                    cut = (edge[1][len(aff):] if front else edge[1][:len(edge[1]) - len(aff)]) if has else edge[1]
                    return cat(*([const(cut), *parts[1:]] if front else [*parts[:-1], const(cut)]))
        if meth in PURE_METHODS:
            return self.opaque(meth, [recv, *args], kwargs, fr, at, pure=True)
        return self.opaque(name, [recv, *args], kwargs, fr, at)

    def formatted(self, template: str, args: list[Term], kwargs: dict[str, Term]) -> Term | None:
        """A template filled in with plain fields."""
        parts: list[Term] = []
        try:
            fields = list(string.Formatter().parse(template))
        except ValueError:
            return None
        n = 0
        for text_, field, spec, conv in fields:
            parts.append(const(text_))
            if field is None:
                continue
            if spec or conv not in (None, "s"):
                return None
            if field == "":
                field, n = str(n), n + 1
            if field.isdigit() and int(field) < len(args):
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                return None
            parts.append(self.freeze(v) if v[0] not in ("const", "cat") else v)
        return cat(*parts)

    def recv_name(self, t: Term) -> str:
        if t[0] == "sym":
            return t[1]
        if t[0] == "attr":
            return f"{self.recv_name(t[1])}.{t[2]}"
        if t[0] in ("inst", "ext", "module"):
            return t[1]
        if t[0] == "call" and len(t) > 3 and isinstance(t[3], str):
            return t[3]
        ty = self.type_of(t)
        if ty:
            return ty
        return t[0]

    def exit_stack(self, recv: Term, meth: str, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term | None:
        cbs = self.obj(self.heap[(norm(recv), "__callbacks__")])["items"]
        site, fn = self.site(fr, at), self.fname(fr)
        if meth in ("callback", "push_async_callback"):
            cbs.append(("tuple", (const("callback"), args[0], ("tuple", tuple(args[1:])), tuple(kwargs.items()))))
            self.emit(Event("push", show(args[0]), tuple(args), tuple(kwargs.items()), site=site, func=fn, extra=recv))
            return NONE
        if meth in ("push_async_exit", "push") and args[0][0] in ("partial", "bound", "func", "closure"):
            cbs.append(("tuple", (const("exitfn"), args[0], ("tuple", ()), ())))
            self.emit(Event("push", show(args[0]), tuple(args), (), site=site, func=fn, extra=recv))
            return args[0]
        if meth in ("enter_async_context", "enter_context"):
            cm = args[0]
            c = self.prog.cls(self.type_of(cm))
            en = (self.prog.method(c, "__aenter__") or self.prog.method(c, "__enter__")) if c else None
            v: Term
            if en is not None and self.cfg.inline(en) and cm[0] != "coro":
                v = self.invoke_method(cm, en, [], {}, fr, at)
                v = self.await_(v, fr, at)
            else:
                ev = Event("cm", "enter:" + self.cm_name(cm), (self.freeze(cm),), site=site, func=fn)
                self.emit(ev)
                self.may_raise(ev, fr, at)
                v = ("call", "entered", (norm(self.freeze(cm)),), self.type_of(cm), self.run.fresh())
            cbs.append(("tuple", (const("exit"), cm, ("tuple", ()), ())))
            self.emit(Event("push", self.cm_name(cm), (cm,), site=site, func=fn, extra=recv))
            return v
        if meth in ("__aexit__", "aclose", "close", "__exit__"):
            self.emit(Event("cm", "exit:stack", (recv,), site=site, func=fn))
            pending: PyRaise | None = None
            while cbs:
                cb = cbs.pop()
                try:
                    self.run_callback(cb, args, fr, at)
                except PyRaise as p:
                    pending = p
            if pending:
                raise pending
            return NONE
        if meth in ("__aenter__", "__enter__"):
            return recv
        if meth == "pop_all":
            new: Term = ("inst", recv[1], self.run.fresh())
            self.heap[(norm(new), "__callbacks__")] = self.new_list(list(cbs))
            cbs.clear()
            return new
        return None

    def container_method(self, recv: Term, o: Any, meth: str, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term | None:
        items = o["items"]
        if o["kind"] == "dict":
            if meth == "get":
                for k, v in reversed(items):
                    if norm(k) == norm(args[0]):
                        return v
                nk = norm(args[0])
                if self.table_like(o, nk):
                    for k, v in reversed(items):
                        if self.run.decide(self.equal(args[0], k), self.site(fr, at), self.fname(fr)):
                            return v
                    return args[1] if len(args) > 1 else NONE
                sure = ("const", "enum", "class", "ext") if self.cfg.exact else ("const", "enum")
                if items and nk[0] not in sure or any(k[0] not in sure for k, _ in items):
                    return ("call", "get", (norm(self.freeze(recv)), *(norm(self.freeze(a)) for a in args)))
                return args[1] if len(args) > 1 else NONE
            if meth in ("items", "values", "keys") and not args:
                if meth == "keys":
                    return self.new_list([k for k, _ in items])
                return ("call", meth, (recv,))
            if meth == "update" and (args or kwargs):
                a = self.obj(args[0]) if args else None
                new = a["items"] if a is not None and a["kind"] == "dict" else [(("star", self.freeze(args[0])), NONE)] if args else []
                for k, v in [*new, *((("star", self.freeze(v)), NONE) if k.startswith("**") else (const(k), v) for k, v in kwargs.items())]:
                    items[:] = [(k2, v2) for k2, v2 in items if norm(k2) != norm(k)]
                    items.append((k, v))
                return NONE
            if meth == "setdefault":
                for k, v in items:
                    if norm(k) == norm(args[0]):
                        return v
                items.append((args[0], args[1] if len(args) > 1 else NONE))
                return items[-1][1]
            if meth == "pop":
                for i, (k, v) in enumerate(items):
                    if norm(k) == norm(args[0]):
                        del items[i]
                        return v
                if self.cfg.exact and len(args) == 1 and ground(norm(args[0])) and all(ground(norm(k)) for k, _ in items):
                    raise PyRaise(("exc", "KeyError", self.run.fresh(), ""))
                return args[1] if len(args) > 1 else ("call", "pop", (norm(self.freeze(recv)), norm(args[0])), None, self.run.fresh())
            if meth == "copy":
                return self.new_dict(list(items))
            if meth == "clear":
                items.clear()
                return NONE
            return None
        if meth in ("add", "discard", "remove") and o["kind"] == "set" and args:
            self.hashed(args[0])
        if meth == "add" and o["kind"] == "set" and self.cfg.exact:
            for x in items:
                if norm(x) == norm(args[0]):
                    return NONE
        if meth in ("append", "add"):
            items.append(args[0])
            self.emit(Event("container", meth, (recv, *args), site=self.site(fr, at), func=self.fname(fr)))
            return NONE
        if meth == "extend" or (meth == "update" and o["kind"] == "set"):
            a = self.obj(args[0])
            items.extend(a["items"] if a is not None else list(args[0][1]) if args[0][0] == "tuple" else [("star", self.freeze(args[0]))])
            if o["kind"] == "set" and self.cfg.exact and all(ground(norm(x)) for x in items):
                items[:] = [x for i, x in enumerate(items) if norm(x) not in [norm(y) for y in items[:i]]]
            return NONE
        if meth == "insert":
            p = norm(args[0])
            items.insert(p[1] if p[0] == "const" else len(items), args[1])
            return NONE
        if meth == "pop" and not args and items:
            return items.pop()
        if meth in ("discard", "remove") and args and self.cfg.exact:
            for i, x in enumerate(items):
                if self.run.decide(self.equal(x, args[0]), self.site(fr, at), self.fname(fr)):
                    del items[i]
                    return NONE
            if meth == "remove":
                raise PyRaise(("exc", "KeyError" if o["kind"] == "set" else "ValueError", self.run.fresh(), ""))
            return NONE
        if meth in ("discard", "remove") and args:
            items[:] = [x for x in items if norm(x) != norm(args[0])]
            return NONE
        if meth == "copy":
            return self.new_list(list(items), o["kind"])
        if meth == "clear":
            items.clear()
            return NONE
        if meth == "sort":
            return NONE
        return None

    # -- Redis ----------------------------------------------------------------
    def redis_call(self, recv: Term, meth: str, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term:
        from .redismodel import COMMANDS, normalise

        site, fn = self.site(fr, at), self.fname(fr)
        if meth == "pipeline":
            i = self.run.fresh()
            self.emit(Event("note", "pipeline", tuple(args), tuple(kwargs.items()), site=site, func=fn))
            return ("redis", "pipeline", i, norm(kwargs.get("transaction", args[0] if args else TRUE)))
        if meth == "pubsub":
            return ("redis", "pubsub", self.run.fresh(), NONE)
        if meth == "lock":
            t = ("call", "redis.lock", tuple(norm(a) for a in args) + tuple(("tuple", (const(k), norm(v))) for k, v in kwargs.items()), "Lock")
            return t
        if recv[0] == "redis" and recv[1] == "pipeline" and meth == "execute":
            ev = Event("redis", "EXEC", (), site=site, unit=(*recv, self.sent.get(recv, 0)), func=fn)
            self.sent[recv] = self.sent.get(recv, 0) + 1
            self.emit(ev)
            self.may_raise(ev, fr, at)
            done: Term = ("call", "pipeline.execute", (), None, self.run.fresh())
            self.batches[norm(done)] = [e.result for e in self.run.trace if e.kind == "redis" and e.extra == recv and e.unit[4] == ev.unit[4]]
            return done
        cmd = COMMANDS.get(meth)
        fargs = [self.freeze(a) for a in args]
        fkw = {k: self.freeze(v) for k, v in kwargs.items()}
        if cmd is None:
            cmd = meth.upper()
            rargs: tuple = tuple(norm(a) for a in fargs) + tuple(("tuple", (const(k), norm(v))) for k, v in fkw.items())
        else:
            rargs = normalise(meth, [norm(a) for a in fargs], {k: norm(v) for k, v in fkw.items()})
        uid = self.run.fresh()
        res: Term = ("reply", cmd, rargs, uid)
        unit = (*recv, self.sent.get(recv, 0)) if recv[0] == "redis" and recv[1] == "pipeline" else self.unit
        ev = Event("redis", cmd, rargs, tuple(fkw.items()), res, site, unit, fn, extra=recv)
        self.emit(ev)
        if unit is None or not (recv[0] == "redis" and recv[1] == "pipeline"):
            self.may_raise(ev, fr, at)
        if recv[0] == "redis" and recv[1] == "pipeline":
            return recv
        return res

    def call_script(self, f: Func, args: list[Term], kwargs: dict[str, Term], fr: Frame, at: ast.AST) -> Term:
        from .scripts import script_of

        sc = script_of(self.prog, f)
        site, fn = self.site(fr, at), self.fname(fr)
        given = dict(kwargs)
        names = [p.name for p in sc.params]
        missing = [n for n in names if n not in given]
        extra = [k for k in given if k not in names]
        unit = ("script", f.qual, self.run.fresh())
        ev = Event("script", f.qual, tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in given.items()), None,
                   site, unit, fn, extra=(tuple(missing), tuple(extra)))
        self.emit(ev)
        self.may_raise(Event("script:before", f.qual, site=site, func=fn), fr, at)
        if not self.cfg.lua:
            return ("call", f.qual, (), None, self.run.fresh())
        bindings: dict[str, Term] = {}
        argv: list[Term] = []
        pos = 0
        for p in sc.params:
            v = given.get(p.name, ("sym", p.name, None))
            if p.kind == "Key":
                bindings[p.name] = norm(v)
            elif p.kind == "Arg":
                pos += 1
                if p.type == "bool":
                    bindings[p.name] = ("boolarg", self.truth_of(v)) if self.truth_of(v)[0] not in ("const", "cmp", "not") else self.truth_of(v)
                    argv.append(("boolarg", v))
                else:
                    b = self.freeze(v)
                    bindings[p.name] = b if b[0] == "const" and not isinstance(b[1], bytes) else text(b)
                    argv.append(bindings[p.name])
            else:
                bindings[p.name + "_start"] = const(pos + 1)
                o = self.obj(v)
                if o is not None and o["kind"] == "dict":
                    for k2, v2 in o["items"]:
                        argv += [norm(self.freeze(k2)), text(self.freeze(v2)) if v2[0] != "const" else v2]
                elif o is not None:
                    argv += [text(self.freeze(x)) if x[0] != "const" else x for x in o["items"]]
                elif v[0] == "call" and v[1] == "dict":
                    for kv in v[2]:
                        argv += list(kv[1])
                else:
                    for fld in self.cfg.message_fields or ():
                        argv += [const(fld), ("field", norm(v), const(fld))]
                    argv += [("rest", norm(v), const("name")), ("rest", norm(v), const("value"))]
        from .message import message_fields

        li = LuaInterp(self.run, f.qual, site, unit, self.cfg.message_fields or message_fields(self.prog), fn, self.cfg.elements)
        bindings["ARGV"] = li.table(argv)
        bindings["KEYS"] = li.table([bindings[p.name] for p in sc.params if p.kind == "Key"])
        try:
            r = li.execute(sc.body, bindings)
        except LuaError:
            self.emit(Event("throw", "redis.exceptions.ResponseError", (), site=site, func=fn, extra="lua"))
            raise PyRaise(("exc", "redis.exceptions.ResponseError", self.run.fresh(), "")) from None
        if r[0] == "tbl":
            r = ("tuple", tuple(li.tables[r[1]]["arr"]))
        if r[0] == "boolarg":
            r = r[1]
        if r == FALSE or r == NONE:
            r = NONE
        elif r == TRUE:
            r = const(1)
        self.emit(Event("scriptret", f.qual, (r,), site=site, unit=unit, func=fn))
        self.may_raise(Event("script:after", f.qual, site=site, func=fn), fr, at)
        return r


# ----------------------------------------------------------------------- util
def is_textlike(t: Term) -> bool:
    return t[0] in ("text", "field", "reply", "index", "elem", "attr", "sym", "rest")


def simple_value(e: ast.expr) -> bool:
    """A module- or class-level value that can be evaluated in place."""
    return not any(isinstance(n, (ast.Call, ast.Await, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Dict, ast.List, ast.Set))
                   for n in ast.walk(e))


def is_protocol(prog: Program, c: Class | None) -> bool:
    return c is not None and any(b[0] == "ext" and b[1].split(".")[-1] == "Protocol" for b in c.bases)


def elem_type(t: str | None) -> str | None:
    if not t or "[" not in t:
        return None
    inner = t[t.index("[") + 1:-1]
    depth, parts, cur = 0, [], ""
    for ch in inner:
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
            continue
        depth += ch == "["
        depth -= ch == "]"
        cur += ch
    parts.append(cur)
    head = t[: t.index("[")]
    x = parts[-1] if head in ("dict", "Mapping") else parts[0]
    return None if x in ("None", "") else x


def iter_type(t: str | None, meth: str) -> str | None:
    if not t or not t.startswith(("dict", "Mapping")):
        return None
    e = elem_type(t)
    if meth == "values" and e:
        return f"list[{e}]"
    return None


def explore(prog: Program, cfg: Config, body: Callable[[Interp], Any]) -> list[tuple[Run, Any]]:
    """All paths of ``body``; the result is ('ok', value) or ('raise', exc)."""

    def go(run: Run) -> Any:
        it = Interp(prog, cfg, run)
        run.prune, run.cut = cfg.prune, cfg.cut
        run.locals["interp"] = it
        try:
            return ("ok", body(it))
        except PyRaise as p:
            return ("raise", p.exc)
        except CONTROL:
            return ("ok", NONE)
        except Cut:
            return ("cut", NONE)

    return enumerate_paths(go, cfg.budget, cfg.limit)


def each_of(t: Term) -> tuple[Term, Term] | None:
    """What a comprehension over all elements of one unknown collection goes
    through, and its value for the first."""
    if t[0] == "call" and t[1] in ("comp:list", "comp:set", "comp:dict") and len(t[2]) == 2:
        gens, vals = t[2][0][1], t[2][1][1]
        if len(gens) == 1 and len(vals) == 1 and gens[0][0] in ("reply", "call", "sym", "attr", "index", "elem"):
            v = vals[0][1][0] if t[1] == "comp:dict" else vals[0]
            if all(x[2] == 0 for x in walk(v) if x[0] == "elem" and norm(x[1]) == norm(gens[0])):
                return gens[0], v
    return None


def replaced(t: Any, old: Term, new: Term) -> Any:
    if t == old or isinstance(t, tuple) and t[:1] == ("elem",) and norm(t) == norm(old):
        return new
    return tuple(replaced(x, old, new) for x in t) if isinstance(t, tuple) else t
