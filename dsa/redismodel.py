"""Normal form of Redis commands issued through the Python client."""
from __future__ import annotations

from .terms import Term, const, norm

# client method -> command
COMMANDS = {
    "hset": "HSET", "hdel": "HDEL", "hget": "HGET", "hgetall": "HGETALL", "hincrby": "HINCRBY", "hmget": "HMGET",
    "hexists": "HEXISTS",
    "zadd": "ZADD", "zrem": "ZREM", "zcard": "ZCARD", "zcount": "ZCOUNT", "zrange": "ZRANGE", "zscore": "ZSCORE",
    "zrangebyscore": "ZRANGEBYSCORE", "zremrangebyscore": "ZREMRANGEBYSCORE",
    "xadd": "XADD", "xack": "XACK", "xdel": "XDEL", "xlen": "XLEN", "xrange": "XRANGE", "xtrim": "XTRIM",
    "xclaim": "XCLAIM", "xautoclaim": "XAUTOCLAIM", "xreadgroup": "XREADGROUP", "xread": "XREAD",
    "xgroup_create": "XGROUP_CREATE", "xpending_range": "XPENDING", "xinfo_groups": "XINFO_GROUPS",
    "delete": "DEL", "unlink": "DEL", "expire": "EXPIRE", "pexpire": "PEXPIRE", "publish": "PUBLISH",
    "set": "SET", "setex": "SETEX", "get": "GET", "sadd": "SADD", "srem": "SREM", "smembers": "SMEMBERS",
    "subscribe": "SUBSCRIBE", "psubscribe": "PSUBSCRIBE", "unsubscribe": "UNSUBSCRIBE", "punsubscribe": "PUNSUBSCRIBE",
    "exists": "EXISTS", "keys": "KEYS", "spublish": "PUBLISH",
}

# positional order of keyword-capable parameters
ORDER = {
    "hset": ["name", "key", "value"], "hget": ["name", "key"], "hgetall": ["name"], "hincrby": ["name", "key", "amount"],
    "zcard": ["name"], "zcount": ["name", "min", "max"], "zrange": ["name", "start", "end"],
    "zrangebyscore": ["name", "min", "max"], "zremrangebyscore": ["name", "min", "max"],
    "zadd": ["name", "mapping"], "expire": ["name", "time"], "publish": ["channel", "message"],
    "set": ["name", "value"], "get": ["name"], "xlen": ["name"], "xrange": ["name", "min", "max"], "xtrim": ["name"],
    "xadd": ["name", "fields"], "setex": ["name", "time", "value"], "zscore": ["name", "value"],
    "xclaim": ["name", "groupname", "consumername", "min_idle_time", "message_ids"],
    "xautoclaim": ["name", "groupname", "consumername", "min_idle_time", "start_id"],
    "xgroup_create": ["name", "groupname", "id"], "xinfo_groups": ["name"],
    "xpending_range": ["name", "groupname"], "hmget": ["name", "keys"],
}


def flatten(m: Term) -> list[Term]:
    if m[0] == "call" and m[1] == "dict":
        out: list[Term] = []
        for kv in m[2]:
            out += [norm(kv[1][0]), norm(kv[1][1])]
        return out
    return [("star", m)]


def normalise(meth: str, args: list[Term], kwargs: dict[str, Term]) -> tuple[Term, ...]:
    order = ORDER.get(meth)
    kw = dict(kwargs)
    pos = list(args)
    if order:
        for n in order[len(pos):]:
            if n in kw:
                pos.append(kw.pop(n))
            else:
                break
    mapping: list[Term] = []
    if meth == "hset" and "mapping" in kw:
        mapping = flatten(kw.pop("mapping"))
    if meth == "xadd":
        if len(pos) > 1:
            pos = [pos[0], const("*"), *flatten(pos[1])]
    if meth == "zadd" and len(pos) > 1:
        m = flatten(pos[1])
        # member -> score becomes score, member as on the wire
        out = []
        for i in range(0, len(m) - 1, 2):
            out += [m[i + 1], m[i]]
        pos = [pos[0], *(out or m)]
    out2 = [*pos, *mapping]
    for k in sorted(kw):
        out2.append(("tuple", (const(k), kw[k])))
    return tuple(norm(x) for x in out2)
