"""The resolved program: modules, classes, functions and types of docket."""
from __future__ import annotations

import ast
import hashlib
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Iterator

from .canon import canonical
from .paths import AnalysisError
from .renamed import known_functions, restore

PKG = "docket"

# Method names of built-in containers, which say nothing about the package.
COMMON_NAMES = {"get", "add", "items", "values", "keys", "append", "pop", "update", "copy", "set", "clear", "remove", "extend", "format", "put", "run", "info"}


@dataclass
class Func:
    qual: str
    module: "Module"
    node: ast.FunctionDef | ast.AsyncFunctionDef | ast.Lambda
    cls: "Class | None" = None
    decorators: tuple[str, ...] = ()

    @property
    def name(self) -> str:
        return getattr(self.node, "name", "<lambda>")

    @property
    def is_async(self) -> bool:
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def is_generator(self) -> bool:
        if not hasattr(self, "_gen"):
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))
        return self._gen

    def has(self, deco: str) -> bool:
        return any(d == deco or d.endswith("." + deco) for d in self.decorators)

    @property
    def is_property(self) -> bool:
        return self.has("property") or self.has("cached_property")

    @property
    def is_cm(self) -> bool:
        return self.has("contextmanager") or self.has("asynccontextmanager")

    @property
    def site(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    @property
    def is_stub(self) -> bool:
        """An overload or protocol stub: docstring / ellipsis only."""
        if self.has("overload"):
            return True
        return False


@dataclass
class Class:
    qual: str
    module: "Module"
    node: ast.ClassDef
    bases: list[Any] = field(default_factory=list)
    methods: dict[str, Func] = field(default_factory=dict)
    attrs: dict[str, ast.expr] = field(default_factory=dict)       # annotations
    values: dict[str, ast.expr] = field(default_factory=dict)      # class-level values
    decorators: tuple[str, ...] = ()

    @property
    def name(self) -> str:
        return self.node.name


@dataclass
class Module:
    name: str
    path: Path
    rel: str
    tree: ast.Module
    source: str
    names: dict[str, Any] = field(default_factory=dict)


def own_nodes(fn: ast.AST) -> Iterator[ast.AST]:
    """Nodes of a function body, not descending into nested functions."""
    stack = list(fn.body) if isinstance(getattr(fn, "body", None), list) else [fn.body]  # type: ignore[attr-defined]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, repo: str = "/repo") -> None:
        self.repo = Path(repo)
        self.src = self.repo / "src"
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        root = self.src / PKG
        if not root.is_dir():
            raise AnalysisError(f"no package at {root}")
        trees: dict[str, tuple[Path, ast.Module, str]] = {}
        for p in sorted(root.rglob("*.py")):
            rel = p.relative_to(self.src)
            parts = list(rel.with_suffix("").parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            src = p.read_text()
            try:
                tree = ast.parse(src, filename=str(p))
            except SyntaxError as e:
                raise AnalysisError(f"{rel}: {e}") from e
            trees[name] = (p, tree, src)
        restore({n: t for n, (_, t, _) in trees.items()})
        for name, (p, tree, src) in trees.items():
            self.modules[name] = Module(name, p, str(p.relative_to(self.repo)), canonical(tree), src)
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]

    def digest(self) -> str:
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].source.encode())
        return h.hexdigest()[:16]

    # -- collection ----------------------------------------------------------
    def _collect(self, m: Module, body: list[ast.stmt]) -> None:
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("module", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pkg = m.name.split(".")
                    if not m.path.name == "__init__.py":
                        pkg = pkg[:-1]
                    pkg = pkg[: len(pkg) - (s.level - 1)]
                    base = ".".join(pkg + ([s.module] if s.module else []))
                for a in s.names:
                    m.names[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{m.name}.{s.name}", m, s, None, tuple(deco(d) for d in s.decorator_list))
                if not f.has("overload"):
                    self.funcs[f.qual] = f
                    m.names[s.name] = ("func", f.qual)
            elif isinstance(s, ast.ClassDef):
                self._class(m, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("value", m.name, s.value)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name):
                    m.names[s.target.id] = ("value", m.name, s.value, s.annotation)
            elif isinstance(s, ast.If):
                self._collect(m, s.body)
                self._collect(m, s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(m, s.body)
                for h in s.handlers:
                    self._collect(m, [x for x in h.body if not (isinstance(x, (ast.Assign,)) )])
                self._collect(m, s.orelse)
                self._collect(m, s.finalbody)

    def _class(self, m: Module, s: ast.ClassDef) -> None:
        c = Class(f"{m.name}.{s.name}", m, s, decorators=tuple(deco(d) for d in s.decorator_list))
        self.classes[c.qual] = c
        m.names[s.name] = ("class", c.qual)
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{c.qual}.{b.name}", m, b, c, tuple(deco(d) for d in b.decorator_list))
                if f.has("overload") or any(d.endswith(".setter") for d in f.decorators):
                    continue
                c.methods[b.name] = f
                self.funcs[f.qual] = f
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.attrs[b.target.id] = b.annotation
                if b.value is not None:
                    c.values[b.target.id] = b.value
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.values[t.id] = b.value
        for f in c.methods.values():
            params = {a.arg: a.annotation for a in all_args(f.node.args)}
            for n in ast.walk(f.node):
                if isinstance(n, ast.AnnAssign) and is_self_attr(n.target):
                    c.attrs.setdefault(n.target.attr, n.annotation)  # type: ignore[union-attr]
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if is_self_attr(t):
                            if isinstance(n.value, ast.Name) and params.get(n.value.id) is not None:
                                c.attrs.setdefault(t.attr, params[n.value.id])  # type: ignore[union-attr]
                            elif isinstance(n.value, ast.Call):
                                c.attrs.setdefault(t.attr, n.value.func)  # type: ignore[union-attr]

    # -- resolution ----------------------------------------------------------
    def lookup(self, module: str, name: str, depth: int = 0) -> Any:
        """('func'|'class'|'module'|'value'|'ext', ...) for a module-level name."""
        if depth > 12:
            return ("ext", f"{module}.{name}")
        m = self.modules.get(module)
        if m is None:
            return ("ext", f"{module}.{name}")
        got = m.names.get(name)
        if got is None:
            sub = f"{module}.{name}"
            if sub in self.modules:
                return ("module", sub)
            return None
        if got[0] == "import":
            _, base, orig = got
            if f"{base}.{orig}" in self.modules and (base not in self.modules or orig not in self.modules[base].names):
                return ("module", f"{base}.{orig}")
            if base in self.modules:
                r = self.lookup(base, orig, depth + 1)
                return r if r is not None else ("ext", f"{base}.{orig}")
            return ("ext", f"{base}.{orig}")
        return got

    def resolve_expr(self, m: Module, e: ast.expr) -> Any:
        if isinstance(e, ast.Name):
            r = self.lookup(m.name, e.id)
            return r if r is not None else ("ext", e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b[0] == "module":
                if b[1] in self.modules:
                    r = self.lookup(b[1], e.attr)
                    return r if r is not None else ("ext", f"{b[1]}.{e.attr}")
                return ("ext", f"{b[1]}.{e.attr}")
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{e.attr}")
            return ("ext", f"?.{e.attr}")
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        return ("ext", ast.dump(e)[:40])

    def type_name(self, m: Module, ann: ast.expr | None, cls: Class | None = None) -> str | None:
        """The class an annotation names (first non-None member of a union)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.type_name(m, ast.parse(ann.value, mode="eval").body, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.type_name(m, ann.left, cls) or self.type_name(m, ann.right, cls)
        if isinstance(ann, ast.Subscript):
            head = self.type_name(m, ann.value, cls) or ""
            short = head.split(".")[-1]
            inner = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if short in ("Optional", "Annotated", "Union", "ClassVar", "Final", "Awaitable", "Required"):
                for x in inner:
                    t = self.type_name(m, x, cls)
                    if t:
                        return t
                return None
            if short in ("AsyncGenerator", "AsyncIterator", "Generator", "Iterator", "AsyncIterable", "list", "dict", "Sequence", "Mapping", "set", "tuple", "type", "Callable", "Iterable"):
                return f"{short}[" + ",".join(str(self.type_name(m, x, cls)) for x in inner) + "]"
            return head or None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            if isinstance(ann, ast.Name) and ann.id == "Self":
                return cls.qual if cls else None
            if isinstance(ann, ast.Name) and ann.id == "None":
                return None
            r = self.resolve_expr(m, ann)
            if r[0] == "class":
                return r[1]
            if r[0] == "value" and len(r) >= 3 and r[2] is not None:
                # a type alias
                return self.type_name(self.modules[r[1]], r[2], cls) or f"{r[1]}.{ast.unparse(ann)}"
            if r[0] == "ext":
                return r[1]
        if isinstance(ann, ast.Call):
            return None
        return None

    def cls(self, qual: str | None) -> Class | None:
        return self.classes.get(qual) if qual else None

    def mro(self, c: Class) -> list[Class]:
        out = [c]
        for b in c.bases:
            if b[0] == "class":
                bc = self.classes[b[1]]
                for x in self.mro(bc):
                    if x not in out:
                        out.append(x)
        return out

    def ext_bases(self, c: Class) -> set[str]:
        out: set[str] = set()
        for k in self.mro(c):
            for b in k.bases:
                if b[0] == "ext":
                    out.add(b[1])
        return out

    def subclasses(self, c: Class) -> list[Class]:
        return [k for k in self.classes.values() if k is not c and c in self.mro(k)]

    def method(self, c: Class, name: str, after: Class | None = None) -> Func | None:
        seq = self.mro(c)
        if after is not None:
            seq = seq[seq.index(after) + 1:]
        for k in seq:
            if name in k.methods:
                return k.methods[name]
        return None

    def attr_type(self, c: Class, name: str) -> str | None:
        for k in self.mro(c):
            if name in k.attrs:
                return self.type_name(k.module, k.attrs[name], k)
        return None

    def func(self, qual: str) -> Func:
        """A function anchored by qualified name (suffix match allowed)."""
        if qual in self.funcs:
            return self.funcs[qual]
        c = [f for q, f in self.funcs.items() if q.endswith("." + qual)]
        if len(c) == 1:
            return c[0]
        raise AnalysisError(f"anchor {qual} {'is ambiguous' if c else 'not found'}")

    def klass(self, qual: str) -> Class:
        if qual in self.classes:
            return self.classes[qual]
        c = [k for q, k in self.classes.items() if q.endswith("." + qual)]
        if len(c) == 1:
            return c[0]
        raise AnalysisError(f"anchor class {qual} {'is ambiguous' if c else 'not found'}")

    # -- summaries -----------------------------------------------------------
    def by_name(self, name: str) -> list[Func]:
        idx = getattr(self, "_by_name", None)
        if idx is None:
            idx = {}
            for f in self.funcs.values():
                idx.setdefault(f.name, []).append(f)
            self._by_name = idx
        return idx.get(name, [])

    def has_effects(self, f: Func) -> bool:
        """Does the function, or anything it may call by name inside the
        package, await, yield, raise or store into an attribute?"""
        return self._closure(f, "_eff", lambda n: isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.Raise, ast.AsyncFor, ast.AsyncWith,
                                                              ast.Global, ast.Nonlocal))
                             or isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)),
                             lambda g: g.is_async)

    def is_new(self, f: Func) -> bool:
        """A helper the rules do not know: part of whatever calls it."""
        if not hasattr(self, "_known"):
            self._known = known_functions()
        return bool(self._known) and f.qual.replace(".<locals>", "") not in self._known

    def has_loop(self, f: Func) -> bool:
        return self._closure(f, "_loop", lambda n: isinstance(n, (ast.For, ast.While)),
                             lambda g: False)

    def _closure(self, f: Func, slot: str, test: Any, base: Any) -> bool:
        memo = getattr(self, slot, None)
        if memo is None:
            memo = {}
            setattr(self, slot, memo)
        if f.qual in memo:
            return memo[f.qual]
        memo[f.qual] = False
        seen: set[str] = set()
        todo = [f]
        res = False
        while todo and not res:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            if base(g):
                res = True
                break
            for n in ast.walk(g.node):
                if n is not g.node and test(n):
                    res = True
                    break
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm:
                        if isinstance(n.func, ast.Attribute) and nm in COMMON_NAMES:
                            continue
                        todo += self.by_name(nm)
        memo[f.qual] = res
        return res

    def stores(self, f: Func) -> set[str]:
        """Attributes of its receiver a method may assign, itself or through
        other methods of the receiver."""
        memo = self.__dict__.setdefault("_stores", {})
        if f.qual in memo:
            return memo[f.qual]
        memo[f.qual] = set()
        out: set[str] = set()
        a = f.node.args.args
        me = a[0].arg if a else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                elif f.cls:
                    g = self.method(f.cls, n.attr)
                    if g is not None and g is not f:
                        out |= self.stores(g)
        memo[f.qual] = out
        return out

    def scripts(self) -> dict[str, Func]:
        return {q: f for q, f in self.funcs.items() if f.has("redis_script")}


def deco(d: ast.expr) -> str:
    return ast.unparse(d.func if isinstance(d, ast.Call) else d)


def all_args(a: ast.arguments) -> list[ast.arg]:
    return [*a.posonlyargs, *a.args, *([a.vararg] if a.vararg else []), *a.kwonlyargs, *([a.kwarg] if a.kwarg else [])]


def is_self_attr(t: ast.AST) -> bool:
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"
