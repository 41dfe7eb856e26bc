"""Effects of a Redis Lua script, path by path.

The traversal propagates constants and symbolic values through the script's
syntax tree.  Replies of Redis commands that the script iterates over are
abstracted to a few shapes (no element, one element, ...); everything else a
command returns is an unknown value on which conditions branch both ways.
"""
from __future__ import annotations

from typing import Any

from .lua import Node
from .paths import AnalysisError, Event, Infeasible, Run, eq, lt, negate, truth
from .terms import FALSE, NONE, TRUE, Term, cat, const, norm, show, text


class _Return(Exception):
    def __init__(self, value: Term) -> None:
        self.value = value


class _Break(Exception):
    pass


class LuaError(Exception):
    """A runtime error the script would raise on this path."""


NULLABLE = ("HGET", "GET", "ZSCORE", "ZRANK")
LOOP_BOUND = 40

INTEGER_REPLY = {"HEXISTS", "EXISTS", "ZCARD", "XLEN", "DEL", "UNLINK", "ZREM", "ZADD", "HSET", "HDEL", "SADD", "SREM", "SCARD", "XDEL", "XACK",
                 "HLEN", "EXPIRE", "PEXPIRE", "PUBLISH", "HINCRBY", "INCR", "INCRBY", "DECR", "ZCOUNT", "SISMEMBER", "TTL", "PTTL", "STRLEN",
                 "ZREMRANGEBYSCORE", "HSETNX", "XTRIM", "XADD"}


class LuaInterp:
    def __init__(self, run: Run, name: str, site: str, unit: Any, message_fields: tuple[str, ...], func: str = "",
                 elements: int = 1) -> None:
        self.run, self.name, self.site, self.unit = run, name, site, unit
        self.fields = message_fields
        self.tables: dict[int, dict] = {}
        self.func = func
        self.elements = elements

    # -- tables ------------------------------------------------------------
    def table(self, arr: list[Term] | None = None, hash: dict | None = None) -> Term:
        i = self.run.fresh()
        self.tables[i] = {"arr": list(arr or []), "hash": dict(hash or {}), "src": None}
        return ("tbl", i)

    def where(self, node: Node) -> str:
        return f"{self.site}(lua {self.name}:{node.line})"

    # -- entry -------------------------------------------------------------
    def execute(self, body: list[Node], bindings: dict[str, Term]) -> Term:
        scope: list[dict[str, Term]] = [dict(bindings)]
        try:
            self.block(body, scope)
        except _Return as r:
            return r.value
        return NONE

    def block(self, stmts: list[Node], scope: list[dict]) -> None:
        scope = scope + [{}]
        for s in stmts:
            self.stmt(s, scope)

    def lookup(self, name: str, scope: list[dict]) -> Term | None:
        for s in reversed(scope):
            if name in s:
                return s[name]
        return None

    def set(self, name: str, value: Term, scope: list[dict]) -> None:
        for s in reversed(scope):
            if name in s:
                s[name] = value
                return
        self.run.emit(Event("note", "lua-global-write", (const(name),), site=self.site))
        scope[0][name] = value

    def stmt(self, s: Node, scope: list[dict]) -> None:
        k = s.kind
        if k == "local":
            vals = self.multi(s.values, scope, len(s.names))
            for n, v in zip(s.names, vals):
                scope[-1][n] = v
        elif k == "assign":
            vals = self.multi(s.values, scope, len(s.targets))
            for t, v in zip(s.targets, vals):
                if t.kind == "name":
                    self.set(t.name, v, scope)
                elif t.kind == "index":
                    self.store(self.ev(t.base, scope), self.ev(t.key, scope), v, t)
                else:
                    raise AnalysisError(f"{self.where(s)}: unsupported assignment target")
        elif k == "expr":
            self.ev(s.value, scope)
        elif k == "if":
            for cond, body in s.arms:
                if self.cond(cond, scope):
                    self.block(body, scope)
                    return
            self.block(s.orelse, scope)
        elif k == "return":
            vals = self.multi(s.values, scope, None)
            raise _Return(vals[0] if len(vals) == 1 else ("tuple", tuple(vals)) if vals else NONE)
        elif k == "localfunction":
            scope[-1][s.name] = NONE
            fn = ("lfunc", id(s.func), s.name)
            self.tables[("fn", id(s.func))] = {"node": s.func, "scope": scope}  # type: ignore[index]
            scope[-1][s.name] = fn
        elif k == "function":
            fn = ("lfunc", id(s.func), s.name)
            self.tables[("fn", id(s.func))] = {"node": s.func, "scope": scope}  # type: ignore[index]
            scope[0][s.name] = fn
        elif k == "fornum":
            self.fornum(s, scope)
        elif k == "forin":
            self.forin(s, scope)
        elif k in ("while", "repeat"):
            n = 0
            try:
                while True:
                    n += 1
                    if n > LOOP_BOUND:
                        raise Infeasible()
                    if k == "while" and not self.cond(s.cond, scope):
                        break
                    if n > 3 and k == "while" and self._nonconst_loop(s, scope):
                        raise Infeasible()
                    inner = scope + [{}]
                    for x in s.body:
                        self.stmt(x, inner)
                    if k == "repeat" and self.cond(s.cond, inner):
                        break
            except _Break:
                pass
        elif k == "do":
            self.block(s.body, scope)
        elif k == "break":
            raise _Break()
        else:
            raise AnalysisError(f"{self.where(s)}: unsupported statement {k}")

    def _nonconst_loop(self, s: Node, scope: list[dict]) -> bool:
        return False

    def fornum(self, s: Node, scope: list[dict]) -> None:
        a, b = norm(self.ev(s.start, scope)), norm(self.ev(s.stop, scope))
        st = norm(self.ev(s.step, scope)) if s.step else const(1)
        if a[0] == b[0] == st[0] == "const":
            i, n = a[1], 0
            try:
                while (i <= b[1]) if st[1] > 0 else (i >= b[1]):
                    n += 1
                    if n > 200:
                        raise AnalysisError(f"{self.where(s)}: loop bound")
                    self.block(s.body, scope + [{s.var: const(i)}])
                    i += st[1]
            except _Break:
                pass
            return
        # unknown bounds: no, one or two iterations with unknown indices
        n = self.run.choose(3)
        try:
            for i in range(n):
                self.block(s.body, scope + [{s.var: ("iter", id(s), i)}])
        except _Break:
            pass

    def forin(self, s: Node, scope: list[dict]) -> None:
        e = s.exprs[0]
        if e.kind == "call" and e.func.kind == "name" and e.func.name in ("ipairs", "pairs"):
            t = self.ev(e.args[0], scope)
            if t == FALSE or t == NONE:
                self.run.emit(Event("note", "lua-error", (const(f"ipairs over nil in {self.name}"),), site=self.where(s)))
                raise LuaError()
            if t[0] == "tbl":
                tab = self.tables[t[1]]
                items = [(const(i + 1), v) for i, v in enumerate(tab["arr"])]
                if e.func.name == "pairs":
                    items += [(k, v) for k, v in tab["hash"].items()]
            else:
                n = self.run.choose(3)
                items = [(const(i + 1), ("elem", t, i)) for i in range(n)]
            try:
                for kx, v in items:
                    frame = {s.names[0]: kx}
                    if len(s.names) > 1:
                        frame[s.names[1]] = v
                    self.block(s.body, scope + [frame])
            except _Break:
                pass
            return
        raise AnalysisError(f"{self.where(s)}: unsupported for-in")

    # -- conditions ----------------------------------------------------------
    def cond(self, e: Node, scope: list[dict]) -> bool:
        if e.kind == "binop" and e.op in ("and", "or"):
            left = self.cond(e.left, scope)
            if e.op == "and":
                return self.cond(e.right, scope) if left else False
            return True if left else self.cond(e.right, scope)
        if e.kind == "unop" and e.op == "not":
            return not self.cond(e.operand, scope)
        if e.kind == "paren":
            return self.cond(e.value, scope)
        v = self.ev(e, scope)
        return self.truthy(v, e)

    def truthy(self, v: Term, e: Node) -> bool:
        return self.run.decide(self.lua_truth(v), self.where(e), self.func)

    def lua_truth(self, v: Term) -> Term:
        if v[0] == "const":
            return FALSE if v[1] is None or v[1] is False else TRUE
        if v[0] in ("tbl", "cat", "lfunc", "tuple", "text", "elem"):
            # script arguments are strings, which are always true
            if v[0] == "text" and norm(v)[0] in ("reply", "field", "index", "call"):
                return self.lua_truth(norm(v))
            return TRUE
        if v[0] in ("cmp", "not"):
            return v
        if v[0] == "boolarg":
            return truth(norm(v[1]))
        n = norm(v)
        if n[0] == "reply" and n[1] in INTEGER_REPLY:
            return TRUE         # 0 is true in Lua
        return truth_lua(n)

    # -- expressions ---------------------------------------------------------
    def multi(self, exprs: list[Node], scope: list[dict], want: int | None) -> list[Term]:
        out: list[Term] = []
        for i, e in enumerate(exprs):
            last = i == len(exprs) - 1
            v = self.ev(e, scope, multi=last)
            if last and isinstance(v, list):
                out.extend(v)
            else:
                out.append(v[0] if isinstance(v, list) else v)
        if want is not None:
            while len(out) < want:
                out.append(NONE)
            out = out[:want]
        return out

    def ev(self, e: Node, scope: list[dict], multi: bool = False) -> Any:
        k = e.kind
        if k == "const":
            return const(e.value)
        if k == "paren":
            v = self.ev(e.value, scope)
            return v
        if k == "name":
            v = self.lookup(e.name, scope)
            if v is None:
                if e.name in ("redis", "string", "table", "math", "cjson", "KEYS", "ARGV", "bit", "cmsgpack"):
                    return ("ext", e.name)
                if e.name in ("tonumber", "tostring", "unpack", "ipairs", "pairs", "type", "next", "error", "assert", "select", "pcall"):
                    return ("ext", e.name)
                self.run.emit(Event("note", "lua-undefined", (const(e.name),), site=self.where(e)))
                return NONE
            return v
        if k == "index":
            base, key = self.ev(e.base, scope), norm(self.ev(e.key, scope))
            return self.load(base, key, e)
        if k == "table":
            t = self.table()
            tab = self.tables[t[1]]
            for i, (kn, vn) in enumerate(e.items):
                if kn is None:
                    v = self.ev(vn, scope, multi=i == len(e.items) - 1)
                    tab["arr"].extend(v if isinstance(v, list) else [v])
                else:
                    tab["hash"][norm(self.ev(kn, scope))] = self.ev(vn, scope)
            return t
        if k == "unop":
            if e.op == "not":
                return FALSE if self.cond(e.operand, scope) else TRUE
            v = self.ev(e.operand, scope)
            if e.op == "#":
                if v[0] == "tbl":
                    return const(len(self.tables[v[1]]["arr"]))
                if v[0] == "const" and isinstance(v[1], str):
                    return const(len(v[1]))
                return ("len", norm(v))
            if e.op == "-":
                v = norm(v)
                return const(-v[1]) if v[0] == "const" and isinstance(v[1], (int, float)) else ("op", "-", const(0), v)
        if k == "binop":
            return self.binop(e, scope)
        if k == "func":
            self.tables[("fn", id(e))] = {"node": e, "scope": scope}  # type: ignore[index]
            return ("lfunc", id(e), "<anonymous>")
        if k == "call":
            return self.call(e, scope, multi)
        if k == "mcall":
            base = self.ev(e.base, scope)
            args = self.multi(e.args, scope, None)
            return self.strmethod(e.method, [base] + args)
        raise AnalysisError(f"{self.where(e)}: unsupported expression {k}")

    def binop(self, e: Node, scope: list[dict]) -> Term:
        op = e.op
        if op == "and":
            left = self.ev(e.left, scope)
            return self.ev(e.right, scope) if self.truthy(left, e) else left
        if op == "or":
            left = self.ev(e.left, scope)
            return left if self.truthy(left, e) else self.ev(e.right, scope)
        a, b = self.ev(e.left, scope), self.ev(e.right, scope)
        if op == "==":
            return self.equal(a, b)
        if op == "~=":
            return negate(self.equal(a, b))
        for x in (a, b):
            if x in (NONE, FALSE, TRUE) or x[0] == "tbl":
                self.run.emit(Event("note", "lua-error", (const(f"'{op}' on {show(x)} in {self.name}"),), site=self.where(e)))
                raise LuaError()
            n = norm(x)
            if op != ".." and n[0] == "reply" and n[1] in NULLABLE and not self.truthy(x, e):
                self.run.emit(Event("note", "lua-error", (const(f"'{op}' on a missing {show(x)[:60]} in {self.name}"),), site=self.where(e)))
                raise LuaError()
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return negate(lt(b, a))
        if op == ">=":
            return negate(lt(a, b))
        if op == "..":
            return cat(a, b)
        a, b = norm(a), norm(b)
        if a[0] == b[0] == "const" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            x, y = a[1], b[1]
            return const({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                          "/": lambda: x / y if y else 0, "%": lambda: x % y if y else 0,
                          "^": lambda: x ** y}[op]())
        return ("op", op, a, b)

    def equal(self, a: Term, b: Term) -> Term:
        for x, y in ((a, b), (b, a)):
            # a field of the message the code does not know by name
            if x[0] == "rest" and x[2] == const("name") and y[0] == "const":
                return FALSE
        # nil and false are distinct from every string, number and table
        for x, y in ((a, b), (b, a)):
            if y[0] == "const" and y[1] in (None,) and x[0] == "reply":
                # a Redis nil arrives as false, never as nil
                return FALSE
            if y == FALSE and x[0] == "reply":
                return negate(("truth", norm(x)))
            if y == NONE and x[0] in ("tbl", "cat", "field", "elem", "op", "text"):
                return FALSE
        return eq(a, b)

    def load(self, base: Term, key: Term, e: Node) -> Term:
        if base[0] == "tbl":
            tab = self.tables[base[1]]
            if key[0] == "const" and isinstance(key[1], (int, float)):
                i = int(key[1]) - 1
                if 0 <= i < len(tab["arr"]):
                    return tab["arr"][i]
                return tab["hash"].get(key, NONE)
            if key in tab["hash"]:
                return tab["hash"][key]
            if key[0] == "const":
                return NONE
            if key == FALSE:
                return NONE
            if not tab["arr"] and len(tab["hash"]) <= 8 and all(k[0] == "const" for k in tab["hash"]):
                for k, v in tab["hash"].items():
                    if self.run.decide(self.equal(key, k), self.where(e), self.func):
                        return v
                return NONE
            return ("index", base, key)
        if base[0] == "ext":
            return ("ext", f"{base[1]}.{key[1]}" if key[0] == "const" else base[1])
        if base in (NONE, FALSE):
            self.run.emit(Event("note", "lua-error", (const(f"index of nil in {self.name}"),), site=self.where(e)))
            raise LuaError()
        return ("index", norm(base), key)

    def store(self, base: Term, key: Term, value: Term, e: Node) -> None:
        key = norm(key)
        if base[0] != "tbl":
            raise AnalysisError(f"{self.where(e)}: store into {show(base)}")
        tab = self.tables[base[1]]
        if key[0] == "const" and isinstance(key[1], (int, float)) and not isinstance(key[1], bool):
            i = int(key[1]) - 1
            if i == len(tab["arr"]):
                tab["arr"].append(value)
            elif 0 <= i < len(tab["arr"]):
                tab["arr"][i] = value
            else:
                tab["hash"][key] = value
        else:
            tab["hash"][key] = value

    # -- calls ---------------------------------------------------------------
    def call(self, e: Node, scope: list[dict], multi: bool) -> Any:
        f = self.ev(e.func, scope)
        args = self.multi(e.args, scope, None)
        if f[0] == "lfunc":
            rec = self.tables[("fn", f[1])]  # type: ignore[index]
            node = rec["node"]
            frame = {p: (args[i] if i < len(args) else NONE) for i, p in enumerate(node.params)}
            depth = getattr(self, "_depth", 0)
            if depth > 20:
                raise AnalysisError(f"{self.where(e)}: recursion")
            self._depth = depth + 1
            try:
                self.block(node.body, rec["scope"] + [frame])
            except _Return as r:
                v = r.value
                if v[0] == "tuple" and not multi:
                    return v[1][0]
                return list(v[1]) if v[0] == "tuple" else v
            finally:
                self._depth = depth
            return NONE
        if f[0] != "ext":
            self.run.emit(Event("note", "lua-error", (const(f"call of {show(f)} in {self.name}"),), site=self.where(e)))
            raise LuaError()
        n = f[1]
        if n in ("redis.call", "redis.pcall"):
            return self.redis(args, e)
        if n in ("tostring", "tonumber"):
            v = args[0] if args else NONE
            if n == "tonumber" and v[0] == "const" and isinstance(v[1], str):
                try:
                    return const(int(v[1]))
                except ValueError:
                    try:
                        return const(float(v[1]))
                    except ValueError:
                        return NONE
            if n == "tonumber" and v[0] == "const":
                return v
            return text(v) if v[0] != "const" else const(_luastr(v[1]))
        if n in ("unpack", "table.unpack"):
            t = args[0]
            if t[0] == "tbl":
                vals = list(self.tables[t[1]]["arr"])
                if len(args) > 1:
                    a = norm(args[1])
                    b = norm(args[2]) if len(args) > 2 else const(len(vals))
                    if a[0] == b[0] == "const":
                        vals = vals[int(a[1]) - 1:int(b[1])]
                return vals if multi else (vals[0] if vals else NONE)
            return [("star", norm(t))] if multi else ("index", norm(t), const(1))
        if n == "table.insert":
            t = args[0]
            if t[0] == "tbl":
                arr = self.tables[t[1]]["arr"]
                if len(args) == 2:
                    arr.append(args[1])
                else:
                    p = norm(args[1])
                    arr.insert(int(p[1]) - 1 if p[0] == "const" else len(arr), args[2])
                return NONE
        if n == "table.concat" and args[0][0] == "tbl":
            sep = args[1] if len(args) > 1 else const("")
            parts: list[Term] = []
            for i, v in enumerate(self.tables[args[0][1]]["arr"]):
                if i:
                    parts.append(sep)
                parts.append(v)
            return cat(*parts)
        if n == "type":
            return {"const": const("string"), "tbl": const("table")}.get(args[0][0], ("call", "type", tuple(norm(a) for a in args)))
        if n == "error" or n == "redis.error_reply":
            self.run.emit(Event("note", "lua-raise", tuple(args), site=self.where(e)))
            if n == "error":
                raise LuaError()
        if n in ("math.max", "math.min", "math.floor", "math.ceil", "math.abs"):
            return ("call", n, tuple(norm(a) for a in args))
        if n.startswith("string."):
            return self.strmethod(n[7:], args)
        if n == "redis.status_reply":
            return args[0]
        if n == "select" and norm(args[0]) == const("#"):
            return const(len(args) - 1)
        return ("call", n, tuple(norm(a) for a in args))

    def strmethod(self, m: str, args: list[Term]) -> Term:
        return ("call", m, tuple(norm(a) for a in args))

    def redis(self, args: list[Term], e: Node) -> Any:
        if not args or args[0][0] != "const":
            raise AnalysisError(f"{self.where(e)}: redis.call with a computed command")
        cmd = str(args[0][1]).upper()
        rest = tuple(norm(a) for a in args[1:])
        for a in rest:
            if a in (NONE, FALSE, TRUE) or a[0] == "tbl":
                self.run.emit(Event("note", "lua-error", (const(f"{cmd} is given {show(a)} in {self.name}"),), site=self.where(e)))
                raise LuaError()
        uid = self.run.fresh()
        reply: Term = ("reply", cmd, rest, uid)
        self.run.emit(Event("redis", cmd, rest, result=reply, site=self.where(e), unit=self.unit, func=self.name))
        if cmd == "HGETALL":
            if self.run.choose(2) == 0:
                self.run.facts[("truth", reply)] = True
                return self.message_table(reply)
            self.run.facts[("truth", reply)] = False
            return self.table()
        if cmd in ("ZRANGEBYSCORE", "ZRANGE", "ZREVRANGE", "SMEMBERS", "HKEYS", "HVALS", "LRANGE", "ZREVRANGEBYSCORE", "KEYS", "ZRANGESTORE"):
            n = self.run.choose(self.elements + 1)
            self.run.facts[("truth", reply)] = n > 0
            if any(a[0] == "const" and str(a[1]).upper() == "WITHSCORES" for a in rest):
                return self.table([x for i in range(n) for x in (("elem", reply, i), ("field", ("elem", reply, i), const("score")))])
            return self.table([("elem", reply, i) for i in range(n)])
        if cmd in ("XRANGE", "XREVRANGE"):
            n = self.run.choose(self.elements + 1)
            self.run.facts[("truth", reply)] = n > 0
            out = []
            for i in range(n):
                item = ("elem", reply, i)
                out.append(self.table([("field", item, const("id")), self.message_table(item)]))
            return self.table(out)
        if cmd == "HMGET":
            return self.table([("reply", "HGET", (rest[0], f), uid) for f in rest[1:]])
        if cmd == "TIME":
            return self.table([("reply", "TIME", (const(0),), uid), ("reply", "TIME", (const(1),), uid)])
        return reply

    def message_table(self, src: Term) -> Term:
        arr: list[Term] = []
        for f in self.fields:
            arr += [const(f), ("field", src, const(f))]
        arr += [("rest", src, const("name")), ("rest", src, const("value"))]
        return self.table(arr)


def truth_lua(t: Term) -> Term:
    """Lua truthiness: only nil and false are false."""
    return ("truth", t) if t[0] not in ("truth", "cmp") else t


def _luastr(v: Any) -> str:
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float) and v.is_integer():
        return str(int(v))
    return str(v)
