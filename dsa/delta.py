"""What a sequence of Redis commands leaves behind.

The commands met along one path are folded, in order, into the difference they
make to the keyspace, so that rules speak about the state reached rather than
about the order or the spelling of the commands.
"""
from __future__ import annotations

from typing import Any, Iterable

from .paths import Event
from .terms import Term, const, norm, show

GONE = ("gone",)

READS = {"HGET", "HGETALL", "HEXISTS", "HMGET", "HKEYS", "HVALS", "HLEN", "GET", "EXISTS", "ZCARD", "ZCOUNT", "ZRANGE", "ZSCORE",
         "ZRANGEBYSCORE", "XLEN", "XRANGE", "XREAD", "XINFO_GROUPS", "XINFO_STREAM", "XPENDING", "SMEMBERS", "SISMEMBER", "SCARD",
         "KEYS", "TTL", "PTTL", "TIME", "XREVRANGE", "ZRANK", "TYPE", "SUBSCRIBE", "PSUBSCRIBE", "UNSUBSCRIBE", "PUNSUBSCRIBE",
         "SCAN", "PING", "INFO", "EXEC", "GET_MESSAGE", "LISTEN", "ACLOSE", "STRLEN", "REVRANGE", "WATCH", "MULTI", "INITIALIZE"}


class Delta:
    def __init__(self, events: Iterable[Event]) -> None:
        self.hash: dict[Term, dict[Term, Term]] = {}
        self.rest: dict[Term, list[Term]] = {}         # fields copied without being named
        self.cleared: set[Term] = set()
        self.zset: dict[Term, dict[Term, Term]] = {}
        self.zsites: dict[tuple[Term, Term], Event] = {}
        self.sets: dict[Term, dict[Term, bool]] = {}
        self.strings: dict[Term, Term] = {}
        self.expire: dict[Term, tuple[Term, Event]] = {}
        self.xadd: list[tuple[Term, dict[Term, Term], list[Term], Event]] = []
        self.xack: list[tuple[Term, Term, Term, Event]] = []
        self.xdel: list[tuple[Term, Term, Event]] = []
        self.published: list[tuple[Term, Term, Event]] = []
        self.zremrange: list[Event] = []
        self.other: list[Event] = []
        self.writes: list[Event] = []
        self.reads: list[Event] = []
        self.last: dict[tuple[Term, Term], Event] = {}   # last write of (key, field)
        for e in events:
            if e.kind == "redis":
                self.apply(e)

    def apply(self, e: Event) -> None:
        a = e.args
        c = e.name
        if c in READS:
            self.reads.append(e)
            return
        self.writes.append(e)
        if c == "HSET" or c == "HMSET":
            h = self.hash.setdefault(a[0], {})
            for f, v in pairs(a[1:]):
                if f[0] in ("rest", "star"):
                    self.rest.setdefault(a[0], []).append(f)
                else:
                    h[f] = v
                    self.last[(a[0], f)] = e
        elif c == "HSETNX":
            h = self.hash.setdefault(a[0], {})
            h[a[1]] = ("maybe", a[2])
        elif c == "HDEL":
            h = self.hash.setdefault(a[0], {})
            for f in a[1:]:
                h[f] = GONE
                self.last[(a[0], f)] = e
        elif c == "HINCRBY":
            h = self.hash.setdefault(a[0], {})
            if a[0] in self.cleared and a[1] not in h:
                h[a[1]] = a[2]
            else:
                h[a[1]] = norm(e.result)
            self.last[(a[0], a[1])] = e
        elif c in ("DEL", "UNLINK"):
            for k in a:
                self.cleared.add(k)
                self.hash[k] = {}
                self.rest.pop(k, None)
                self.zset[k] = {}
                self.sets[k] = {}
                self.strings.pop(k, None)
                self.expire.pop(k, None)
                self.last[(k, GONE)] = e
        elif c == "ZADD":
            z = self.zset.setdefault(a[0], {})
            args = [x for x in a[1:] if not (x[0] == "const" and x[1] in ("NX", "XX", "GT", "LT", "CH", "INCR"))]
            for s, m in pairs(args):
                z[m] = s
                self.zsites[(a[0], m)] = e
        elif c == "ZREM":
            z = self.zset.setdefault(a[0], {})
            for m in a[1:]:
                z[m] = GONE
                self.zsites[(a[0], m)] = e
        elif c in ("ZREMRANGEBYSCORE", "ZREMRANGEBYRANK"):
            self.zremrange.append(e)
        elif c == "SADD":
            s = self.sets.setdefault(a[0], {})
            for m in a[1:]:
                s[m] = True
        elif c == "SREM":
            s = self.sets.setdefault(a[0], {})
            for m in a[1:]:
                s[m] = False
        elif c in ("SET", "SETEX", "PSETEX"):
            self.strings[a[0]] = a[-1] if c != "SET" else a[1]
            self.last[(a[0], ("string",))] = e
        elif c in ("EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT"):
            self.expire[a[0]] = (a[1], e)
        elif c == "PERSIST":
            self.expire.pop(a[0], None)
        elif c == "XADD":
            args = list(a[1:])
            while args and args[0][0] == "const" and args[0][1] in ("MAXLEN", "~", "NOMKSTREAM", "MINID", "="):
                args.pop(0)
                if args and args[0][0] != "const":
                    break
            if args:
                args.pop(0)     # the id
            named: dict[Term, Term] = {}
            rest: list[Term] = []
            for f, v in pairs(args):
                if f[0] in ("rest", "star"):
                    rest.append(f)
                else:
                    named[f] = v
            self.xadd.append((a[0], named, rest, e))
        elif c == "XACK":
            for i in a[2:]:
                self.xack.append((a[0], a[1], i, e))
        elif c == "XDEL":
            for i in a[1:]:
                self.xdel.append((a[0], i, e))
        elif c in ("PUBLISH", "SPUBLISH"):
            self.published.append((a[0], a[1], e))
        else:
            self.other.append(e)

    def field(self, key: Term, name: str) -> Term | None:
        """The value a hash field is left with: a term, GONE, or None when
        the path does not touch it."""
        h = self.hash.get(key)
        f = const(name)
        if h is not None and f in h:
            return h[f]
        return GONE if key in self.cleared else None

    def touched(self) -> set[Term]:
        out: set[Term] = set()
        for e in self.writes:
            if e.args:
                out.add(e.args[0])
        return out


def pairs(args: Any) -> Iterable[tuple[Term, Term]]:
    args = list(args)
    i = 0
    while i < len(args):
        if args[i][0] == "star":
            yield args[i], args[i]
            i += 1
            continue
        if i + 1 >= len(args):
            return
        yield args[i], args[i + 1]
        i += 2


def keyname(k: Term) -> str:
    return show(k).replace("{prefix(docket.name)}", "").strip("`:")
