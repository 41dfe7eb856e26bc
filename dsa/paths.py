"""Path enumeration: a deterministic oracle for the branches a dataflow
traversal takes, the branch facts it has assumed, and the effects it met."""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Callable, Iterable

from .terms import FALSE, TRUE, Term, const, norm, show


class AnalysisError(Exception):
    """The analysis could not be carried out (missing anchor, unknown
    construct, budget exceeded).  Never a verdict."""


class PathBudget(AnalysisError):
    pass


class Cut(Exception):
    """The path has answered the question asked; its rest is immaterial."""


class Infeasible(Exception):
    """The assumed branch facts contradict each other; drop this path."""


@dataclass(frozen=True)
class Event:
    kind: str                      # redis | call | assign | branch | raise | cm | spawn | note
    name: str                      # command, qualified callee, attribute, ...
    args: tuple = ()
    kwargs: tuple = ()             # ((name, term), ...)
    result: Any = None
    site: str = ""                 # file:line
    unit: Any = None               # atomic unit (script call or transaction)
    func: str = ""                 # enclosing function
    extra: Any = None

    def kw(self, name: str, default: Any = None) -> Any:
        for k, v in self.kwargs:
            if k == name:
                return v
        return default

    def arg(self, index: int, name: str | None = None, default: Any = None) -> Any:
        if name is not None:
            for k, v in self.kwargs:
                if k == name:
                    return v
        if index < len(self.args):
            return self.args[index]
        return default

    def __str__(self) -> str:
        a = ", ".join([show(x) for x in self.args] + [f"{k}={show(v)}" for k, v in self.kwargs])
        return f"{self.kind}:{self.name}({a}) @{self.site}"


FALSEY_CONST = (None, False)


class Run:
    """One path.  ``choose`` replays a prefix of decisions and then takes the
    first alternative; the driver enumerates the rest depth first."""

    def __init__(self, prefix: list[int], limit: int = 400) -> None:
        self.prefix = prefix
        self.choices: list[tuple[int, int]] = []
        self.facts: dict[Any, bool] = {}
        self.eqs: dict[Term, set] = {}
        self.trace: list[Event] = []
        self.counter = 0
        self.limit = limit
        self.locals: dict[str, Any] = {}
        self.prune: Callable[[Event, list[Event]], bool] | None = None
        self.cut: Callable[[Event, list[Event]], bool] | None = None

    def fresh(self) -> int:
        self.counter += 1
        return self.counter

    def choose(self, n: int) -> int:
        i = len(self.choices)
        if i >= self.limit:
            raise PathBudget(f"more than {self.limit} branches on one path")
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append((c, n))
        return c

    def emit(self, ev: Event) -> None:
        if self.prune is not None and self.prune(ev, self.trace):
            raise Infeasible()
        self.trace.append(ev)
        if self.cut is not None and self.cut(ev, self.trace):
            raise Cut()

    # -- branch facts ------------------------------------------------------
    def known(self, cond: Term) -> bool | None:
        """Truth of a canonical condition if the facts already decide it."""
        if cond == TRUE:
            return True
        if cond == FALSE:
            return False
        k = cond[0]
        if k == "not":
            v = self.known(cond[1])
            return None if v is None else not v
        if cond in self.facts:
            return self.facts[cond]
        if k == "cmp" and cond[1] == "==":
            a, b = cond[2], cond[3]
            if b[0] in ("const", "enum"):
                for (op, x, y), v in self._cmps(a):
                    if op == "==" and v and y[0] in ("const", "enum") and y != b:
                        return False
                tv = self.facts.get(("truth", a))
                if tv is False and b[0] == "enum":
                    return False
                if tv is False and b[0] == "const" and b[1] not in (None, False, "", b"", 0):
                    return False
                if tv is True and b[0] == "const" and (b[1] is None or b[1] is False or not b[1] and a[0] not in ("reply", "field", "elem")):
                    return False
                nn = self.facts.get(("cmp", "==", a, const(None)))
                if nn is True and b != const(None):
                    return False
        if k == "truth":
            a = cond[1]
            for (op, x, y), v in self._cmps(a):
                if op == "==" and v:
                    if y[0] == "enum":
                        return True
                    if y[0] == "const":
                        return bool(y[1])
        if k == "cmp" and cond[1] == "<":
            rev = self.facts.get(("cmp", "<", cond[3], cond[2]))
            if rev:
                return False
            if self.facts.get(("cmp", "==", cond[2], cond[3])) or self.facts.get(("cmp", "==", cond[3], cond[2])):
                return False
        if k == "cmp":
            return self._count(cond)
        return None

    def _count(self, cond: Term) -> bool | None:
        """What is known of a comparison of a number that is never negative with zero or one."""
        _, op, a, b = cond
        if not (is_count(a) and b in (const(0), const(1)) or op == "<" and is_count(b) and a == const(0)):
            return None
        if op == "<" and b == const(0):
            return False
        if op == "==" and b == const(1):
            return None
        n = b if is_count(b) else a
        zero = None
        for c, same in ((("cmp", "==", n, const(0)), True), (("cmp", "<", const(0), n), False), (("cmp", "<", n, const(1)), True)):
            v = self.facts.get(c)
            if v is not None:
                zero = v == same
        if zero is None:
            return None
        return zero if op == "==" or b == const(1) else not zero

    def _cmps(self, a: Term) -> Iterable:
        for c, v in self.facts.items():
            if c[0] == "cmp" and c[2] == a:
                yield (c[1], c[2], c[3]), v

    def assume(self, cond: Term, v: bool) -> None:
        while cond[0] == "not":
            cond, v = cond[1], not v
        if cond[0] != "const":
            self.facts[cond] = v

    def decide(self, cond: Term, site: str = "", func: str = "", n: int = 2) -> bool:
        """Branch on a canonical condition."""
        neg = False
        while cond[0] == "not":
            cond, neg = cond[1], not neg
        if cond[0] in ("and", "or"):
            want = cond[0] == "or"
            res = not want
            for c in cond[1]:
                if self.decide(c, site, func) == want:
                    res = want
                    break
            return res != neg
        v = self.known(cond)
        if v is None:
            v = self.choose(2) == 0
            self.assume(cond, v)
            self.emit(Event("branch", "if", (cond,), result=v, site=site, func=func))
        return v != neg


COUNTS = {"XLEN", "ZCARD", "LLEN", "SCARD", "HLEN", "ZCOUNT", "STRLEN"}


def is_count(t: Term) -> bool:
    return t[0] == "len" or t[0] == "reply" and t[1] in COUNTS


def eq(a: Term, b: Term) -> Term:
    a, b = norm(a), norm(b)
    if a == b:
        return TRUE
    if a[0] in ("const", "enum") and b[0] in ("const", "enum"):
        if a[0] == b[0] == "const":
            x, y = a[1], b[1]
            if type(x) is not type(y) and not (isinstance(x, (int, float)) and isinstance(y, (int, float))):
                return FALSE
            return TRUE if x == y else FALSE
        if a[0] == b[0] == "enum":
            return FALSE
    if a[0] in ("const", "enum") or (b[0] not in ("const", "enum") and repr(b) < repr(a)):
        a, b = b, a
    if a[0] in ("cat", "tuple", "inst", "obj", "closure", "func", "class", "tbl") and b[0] == "const":
        if b[1] is None or b[1] is False or a[0] != "cat":
            return FALSE
        if a[0] == "cat" and b[1] == "":
            return FALSE
    if a[0] == "call" and a[1] in ("task", "type") and b == ("const", None):
        return FALSE
    if a[0] == "len" and b == ("const", 0):
        return negate(truth(a))
    # (x or '') == ''  <=>  not x
    if a[0] == "or" and len(a[1]) == 2 and a[1][1] == b and b[0] == "const" and not b[1]:
        return negate(truth(a[1][0]))
    return ("cmp", "==", a, b)


def lt(a: Term, b: Term) -> Term:
    a, b = norm(a), norm(b)
    if a == b:
        return FALSE
    if a[0] == "const" and b[0] == "const":
        try:
            return TRUE if a[1] < b[1] else FALSE
        except TypeError:
            pass
    if a == ("const", 0) and b[0] == "len":
        return truth(b)
    if a[0] == "len" and b == ("const", 1):
        return negate(truth(a))
    return ("cmp", "<", a, b)


def negate(c: Term) -> Term:
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c[0] == "not":
        return c[1]
    if c[0] == "and":
        return ("or", tuple(negate(x) for x in c[1]))
    if c[0] == "or":
        return ("and", tuple(negate(x) for x in c[1]))
    return ("not", c)


TRUTHY_KINDS = {"inst", "closure", "func", "class", "module", "bound", "lambda", "enum", "lfunc", "exc", "ext", "coro", "partial", "cm"}


def truth(t: Term) -> Term:
    """Python truthiness of a term as a canonical condition."""
    t = norm(t)
    k = t[0]
    if k == "const":
        return TRUE if t[1] else FALSE
    if k in TRUTHY_KINDS or k == "call" and t[1] == "task":
        return TRUE
    if k == "cat":
        return TRUE if any(x[0] == "const" for x in t[1]) else ("truth", t)
    if k in ("cmp", "truth"):
        return t
    if k == "not":
        return negate(truth(t[1]))
    if k in ("and", "or"):
        return (k, tuple(truth(x) for x in t[1]))
    if k == "tuple":
        return TRUE if t[1] else FALSE
    if k == "len":
        return ("truth", t[1])
    return ("truth", t)


def enumerate_paths(body: Callable[[Run], Any], budget: int = 20000, limit: int = 400) -> list[tuple[Run, Any]]:
    """Run ``body`` once per feasible sequence of branch decisions."""
    out: list[tuple[Run, Any]] = []
    prefix: list[int] = []
    n = 0
    while True:
        n += 1
        if n > budget:
            raise PathBudget(f"more than {budget} paths")
        run = Run(prefix, limit)
        try:
            res = body(run)
            out.append((run, res))
        except Infeasible:
            pass
        ch = run.choices
        while ch and ch[-1][0] + 1 >= ch[-1][1]:
            ch.pop()
        if not ch:
            return out
        prefix = [c for c, _ in ch[:-1]] + [ch[-1][0] + 1]
