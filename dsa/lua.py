"""A parser for the subset of Lua 5.1 that Redis scripts are written in.

``parse(src)`` returns a list of statements; every node is a ``Node`` with a
``kind``, a ``line`` and keyword fields.  A construct outside the subset raises
``LuaSyntaxError``: the analysis never skips what it does not understand.
"""
from __future__ import annotations

import re
from typing import Any


class LuaSyntaxError(Exception):
    pass


class Node:
    __slots__ = ("kind", "line", "f")

    def __init__(self, kind: str, line: int, **f: Any) -> None:
        self.kind, self.line, self.f = kind, line, f

    def __getattr__(self, name: str) -> Any:
        try:
            return self.f[name]
        except KeyError:
            raise AttributeError(name) from None

    def __repr__(self) -> str:
        return f"{self.kind}@{self.line}{self.f}"


KEYWORDS = {
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function",
    "if", "in", "local", "nil", "not", "or", "repeat", "return", "then",
    "true", "until", "while",
}

TOKEN = re.compile(
    r"""
    (?P<ws>[ \t\r\n]+)
  | (?P<lcomment>--\[(?P<eq1>=*)\[.*?\](?P=eq1)\])
  | (?P<comment>--[^\n]*)
  | (?P<lstr>\[(?P<eq2>=*)\[.*?\](?P=eq2)\])
  | (?P<num>0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)
  | (?P<name>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
  | (?P<op>\.\.\.|\.\.|==|~=|<=|>=|[-+*/%^\#<>=(){}\[\];:,.])
    """,
    re.X | re.S,
)

ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v",
       "\\": "\\", '"': '"', "'": "'", "\n": "\n"}


def unescape(s: str) -> str:
    def sub(m: re.Match[str]) -> str:
        g = m.group(1)
        if g.isdigit():
            return chr(int(g))
        return ESC.get(g, g)

    return re.sub(r"\\(\d{1,3}|.)", sub, s, flags=re.S)


def tokenize(src: str) -> list[tuple[str, Any, int]]:
    out: list[tuple[str, Any, int]] = []
    pos, line = 0, 1
    while pos < len(src):
        m = TOKEN.match(src, pos)
        if not m:
            raise LuaSyntaxError(f"line {line}: cannot tokenize {src[pos:pos + 20]!r}")
        kind, textv = m.lastgroup, m.group(0)
        if m.group("ws") is not None or m.group("comment") is not None or m.group("lcomment") is not None:
            pass
        elif m.group("lstr") is not None:
            n = len(m.group("eq2")) + 2
            body = textv[n:-n]
            out.append(("str", body[1:] if body.startswith("\n") else body, line))
        elif m.group("num") is not None:
            out.append(("num", int(textv, 16) if textv[:2].lower() == "0x" else (float(textv) if re.search(r"[.eE]", textv) else int(textv)), line))
        elif m.group("name") is not None:
            out.append(("kw" if textv in KEYWORDS else "name", textv, line))
        elif m.group("str") is not None:
            out.append(("str", unescape(textv[1:-1]), line))
        else:
            out.append(("op", textv, line))
        line += textv.count("\n")
        pos = m.end()
    out.append(("eof", None, line))
    return out


BINPRI = {
    "or": (1, 1), "and": (2, 2),
    "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3),
    "..": (5, 4), "+": (6, 6), "-": (6, 6), "*": (7, 7), "/": (7, 7), "%": (7, 7),
    "^": (10, 9),
}
UNARY = 8


class Parser:
    def __init__(self, src: str) -> None:
        self.toks = tokenize(src)
        self.i = 0

    @property
    def tok(self) -> tuple[str, Any, int]:
        return self.toks[self.i]

    def peek(self, val: str) -> bool:
        return self.tok[0] in ("op", "kw") and self.tok[1] == val

    def accept(self, val: str) -> bool:
        if self.peek(val):
            self.i += 1
            return True
        return False

    def expect(self, val: str) -> None:
        if not self.accept(val):
            raise LuaSyntaxError(f"line {self.tok[2]}: expected {val!r}, found {self.tok[1]!r}")

    def name(self) -> str:
        k, v, ln = self.tok
        if k != "name":
            raise LuaSyntaxError(f"line {ln}: expected a name, found {v!r}")
        self.i += 1
        return v

    def block(self) -> list[Node]:
        out: list[Node] = []
        while True:
            if self.tok[0] == "eof" or any(self.peek(x) for x in ("end", "else", "elseif", "until")):
                return out
            if self.accept(";"):
                continue
            if self.peek("return"):
                ln = self.tok[2]
                self.i += 1
                vals: list[Node] = []
                if not (self.tok[0] == "eof" or any(self.peek(x) for x in ("end", "else", "elseif", "until", ";"))):
                    vals = self.exprlist()
                self.accept(";")
                out.append(Node("return", ln, values=vals))
                return out
            out.append(self.statement())

    def statement(self) -> Node:
        ln = self.tok[2]
        if self.accept("local"):
            if self.accept("function"):
                n = self.name()
                return Node("localfunction", ln, name=n, func=self.funcbody(ln))
            names = [self.name()]
            while self.accept(","):
                names.append(self.name())
            vals = self.exprlist() if self.accept("=") else []
            return Node("local", ln, names=names, values=vals)
        if self.accept("if"):
            arms = []
            cond = self.expr()
            self.expect("then")
            arms.append((cond, self.block()))
            orelse: list[Node] = []
            while True:
                if self.accept("elseif"):
                    cond = self.expr()
                    self.expect("then")
                    arms.append((cond, self.block()))
                elif self.accept("else"):
                    orelse = self.block()
                    self.expect("end")
                    break
                else:
                    self.expect("end")
                    break
            return Node("if", ln, arms=arms, orelse=orelse)
        if self.accept("while"):
            cond = self.expr()
            self.expect("do")
            body = self.block()
            self.expect("end")
            return Node("while", ln, cond=cond, body=body)
        if self.accept("repeat"):
            body = self.block()
            self.expect("until")
            return Node("repeat", ln, body=body, cond=self.expr())
        if self.accept("do"):
            body = self.block()
            self.expect("end")
            return Node("do", ln, body=body)
        if self.accept("break"):
            return Node("break", ln)
        if self.accept("for"):
            names = [self.name()]
            if self.accept("="):
                start = self.expr()
                self.expect(",")
                stop = self.expr()
                step = self.expr() if self.accept(",") else None
                self.expect("do")
                body = self.block()
                self.expect("end")
                return Node("fornum", ln, var=names[0], start=start, stop=stop, step=step, body=body)
            while self.accept(","):
                names.append(self.name())
            self.expect("in")
            exprs = self.exprlist()
            self.expect("do")
            body = self.block()
            self.expect("end")
            return Node("forin", ln, names=names, exprs=exprs, body=body)
        if self.accept("function"):
            n = self.name()
            return Node("function", ln, name=n, func=self.funcbody(ln))
        e = self.suffixed()
        if self.peek("=") or self.peek(","):
            targets = [e]
            while self.accept(","):
                targets.append(self.suffixed())
            self.expect("=")
            return Node("assign", ln, targets=targets, values=self.exprlist())
        if e.kind not in ("call", "mcall"):
            raise LuaSyntaxError(f"line {ln}: expression used as a statement")
        return Node("expr", ln, value=e)

    def funcbody(self, ln: int) -> Node:
        self.expect("(")
        params: list[str] = []
        if not self.peek(")"):
            while True:
                if self.accept("..."):
                    params.append("...")
                    break
                params.append(self.name())
                if not self.accept(","):
                    break
        self.expect(")")
        body = self.block()
        self.expect("end")
        return Node("func", ln, params=params, body=body)

    def exprlist(self) -> list[Node]:
        out = [self.expr()]
        while self.accept(","):
            out.append(self.expr())
        return out

    def expr(self, limit: int = 0) -> Node:
        ln = self.tok[2]
        if self.tok[0] in ("op", "kw") and self.tok[1] in ("not", "-", "#"):
            op = self.tok[1]
            self.i += 1
            left = Node("unop", ln, op=op, operand=self.expr(UNARY))
        else:
            left = self.simple()
        while self.tok[0] in ("op", "kw") and self.tok[1] in BINPRI and BINPRI[self.tok[1]][0] > limit:
            op = self.tok[1]
            self.i += 1
            left = Node("binop", ln, op=op, left=left, right=self.expr(BINPRI[op][1]))
        return left

    def simple(self) -> Node:
        k, v, ln = self.tok
        if k in ("num", "str"):
            self.i += 1
            return Node("const", ln, value=v)
        if k == "kw" and v in ("nil", "true", "false"):
            self.i += 1
            return Node("const", ln, value={"nil": None, "true": True, "false": False}[v])
        if k == "kw" and v == "function":
            self.i += 1
            return self.funcbody(ln)
        if self.accept("..."):
            return Node("vararg", ln)
        if self.peek("{"):
            return self.table()
        return self.suffixed()

    def table(self) -> Node:
        ln = self.tok[2]
        self.expect("{")
        items: list[tuple[Node | None, Node]] = []
        while not self.peek("}"):
            if self.accept("["):
                key = self.expr()
                self.expect("]")
                self.expect("=")
                items.append((key, self.expr()))
            elif self.tok[0] == "name" and self.toks[self.i + 1][:2] == ("op", "="):
                key = Node("const", self.tok[2], value=self.name())
                self.expect("=")
                items.append((key, self.expr()))
            else:
                items.append((None, self.expr()))
            if not (self.accept(",") or self.accept(";")):
                break
        self.expect("}")
        return Node("table", ln, items=items)

    def suffixed(self) -> Node:
        k, v, ln = self.tok
        if self.accept("("):
            e = Node("paren", ln, value=self.expr())
            self.expect(")")
        else:
            e = Node("name", ln, name=self.name())
        while True:
            ln = self.tok[2]
            if self.accept("."):
                e = Node("index", ln, base=e, key=Node("const", ln, value=self.name()))
            elif self.accept("["):
                key = self.expr()
                self.expect("]")
                e = Node("index", ln, base=e, key=key)
            elif self.accept(":"):
                m = self.name()
                e = Node("mcall", ln, base=e, method=m, args=self.args())
            elif self.peek("(") or self.peek("{") or self.tok[0] == "str":
                e = Node("call", ln, func=e, args=self.args())
            else:
                return e

    def args(self) -> list[Node]:
        if self.tok[0] == "str":
            k, v, ln = self.tok
            self.i += 1
            return [Node("const", ln, value=v)]
        if self.peek("{"):
            return [self.table()]
        self.expect("(")
        out = [] if self.peek(")") else self.exprlist()
        self.expect(")")
        return out


def parse(src: str) -> list[Node]:
    p = Parser(src)
    out = p.block()
    if p.tok[0] != "eof":
        raise LuaSyntaxError(f"line {p.tok[2]}: unexpected {p.tok[1]!r}")
    return out
