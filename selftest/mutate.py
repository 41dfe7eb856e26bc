#!/usr/bin/env python3
"""Systematic small edits, to see which the checks miss.

mutate.py N SEED [FILE...]: N edits at random; prints those no check alarms on."""
import ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
SRC = Path("/repo/src/docket")
FILES = ["execution.py", "docket.py", "worker.py", "strikelist.py", "agenda.py", "_docket_snapshot.py", "_execution_progress.py", "_cancellation.py",
         *("dependencies/" + p.name for p in sorted((SRC / "dependencies").glob("*.py")))]
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SKIP = re.compile(r"logger|logging|_log|LOG|counter|TASKS_|TASK_|QUEUE_|SCHEDULE_|span|tracer|STRIKES|REDIS_DISRUPTIONS|labels|repr|warn|\.add\(1|add_note|deprecat|overload|TYPE_CHECKING|assert ")
EV = {}
for f in (HERE.parent / "evidence").glob("C*.json"):
    d = json.loads(f.read_text())
    EV[d["property"]] = (d["wall_s"], set(d["coverage"]["functions_analysed"]))


def sites(file):
    """(description, line, function, new source)"""
    src = (SRC / file).read_text()
    tree = ast.parse(src)
    mod = "docket." + file[:-3].replace("/", ".")
    lines = src.splitlines()
    out = []

    def seg(n): return ast.get_source_segment(src, n)

    def put(n, new, what, fn):
        old = seg(n)
        if old is None or old == new: return
        ls = src.splitlines(keepends=True)
        b = src.encode()
        off = lambda l, c: sum(len(x.encode()) for x in ls[:l - 1]) + c
        i, j = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        out.append((f"{file}:{n.lineno} {what}: {old[:60]!r} -> {new[:60]!r}", n.lineno, mod + "." + fn, (b[:i] + new.encode() + b[j:]).decode()))

    def visit(n, fn, depth):
        if isinstance(n, FN + (ast.ClassDef,)):
            name = (fn + (".<locals>." if depth else ".") if fn else "") + n.name
            if isinstance(n, FN):
                d = [ast.unparse(x) for x in n.decorator_list]
                if any("overload" in x for x in d): return
                if any("redis_script" in x for x in d):
                    lua(n, name)
                    return
                body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
                for s in body: visit(s, name, True)
            else:
                for s in n.body:
                    if isinstance(s, FN + (ast.ClassDef,)): visit(s, name, False)
            return
        if not fn: 
            return
        if isinstance(n, ast.stmt):
            t = seg(n) or ""
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Raise)) and SKIP.search(t.split("\n")[0] + (t if isinstance(n, ast.Expr) else "")): return
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): put(n, "pass", "drop", fn)
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): put(n, "pass", "drop", fn)
            if isinstance(n, ast.Return) and n.value is not None:
                v = n.value
                if isinstance(v, ast.Constant) and isinstance(v.value, bool): put(v, str(not v.value), "flip", fn)
            if isinstance(n, (ast.If, ast.While)) and not SKIP.search(seg(n.test) or ""): put(n.test, f"not ({seg(n.test)})", "negate", fn)
            if isinstance(n, ast.If) and n.orelse == [] and not SKIP.search(seg(n.test) or ""): put(n.test, "True", "always", fn); put(n.test, "False", "never", fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(n.left), seg(n.comparators[0])
            for o, alts in ((ast.Lt, ["<=", ">"]), (ast.LtE, ["<"]), (ast.Gt, [">="]), (ast.GtE, [">"])):
                if isinstance(n.ops[0], o):
                    for x in alts: put(n, f"{a} {x} {b}", "compare", fn)
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join("(" + seg(v) + ")" for v in n.values) + ")", "boolop", fn)
            for v in n.values:
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + seg(x) + ")" for x in n.values if x is not v) + ")", "dropterm", fn)
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div) and not isinstance(n.left, (ast.JoinedStr,)):
            x = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}[type(n.op)]
            put(n, f"{seg(n.left)} {x} {seg(n.right)}", "arith", fn)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool): put(n, str(not n.value), "const", fn)
            elif isinstance(n.value, (int, float)): put(n, str(n.value + 1), "const", fn)
            elif isinstance(n.value, str) and n.value and seg(n) and seg(n)[0] in "\"'": put(n, repr(n.value + "x"), "const", fn)
            elif isinstance(n.value, bytes) and n.value: put(n, repr(n.value + b"x"), "const", fn)
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ("min", "max"): put(n.func, "max" if f == "min" else "min", "minmax", fn)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[0], n.args[1]
                new = ", ".join([seg(b), seg(a), *[seg(x) for x in n.args[2:]], *[(k.arg + "=" if k.arg else "**") + seg(k.value) for k in n.keywords]])
                put(n, f"{f}({new})", "swapargs", fn)
            for k in n.keywords:
                if k.arg:
                    new = ", ".join([*[seg(x) for x in n.args], *[(q.arg + "=" if q.arg else "**") + seg(q.value) for q in n.keywords if q is not k]])
                    put(n, f"{f}({new})", "dropkw", fn)
        if isinstance(n, ast.IfExp): put(n, f"({seg(n.orelse)} if {seg(n.test)} else {seg(n.body)})", "ifexp", fn)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            pairs = {"args": "kwargs", "stream_key": "queue_key", "_generation": "attempt", "redelivery_timeout": "minimum_check_interval", "execution_ttl": "heartbeat_interval"}
            if n.attr in pairs: put(n, f"{seg(n.value)}.{pairs[n.attr]}", "attr", fn)
        if isinstance(n, ast.Try):
            if n.finalbody: pass
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr) and isinstance(n, ast.AnnAssign) and c is n.annotation: continue
            visit(c, fn, depth)

    def lua(n, name):
        doc = n.body[0]
        for l in range(doc.lineno, doc.end_lineno + 1):
            t = lines[l - 1]
            s = t.strip()
            if s.startswith("--") or not s: continue
            vs = []
            bal = s.count("(") == s.count(")") and s.count("{") == s.count("}")
            if bal and not re.match(r"(if|for|while|local function|else|elseif|end|function|return)\b", s) and not s.startswith("local"): vs.append(("drop", t.replace(s, "")))
            for a, b in ((" == ", " ~= "), (" ~= ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" and ", " or "), (" or ", " and "), (" + ", " - "), (" - ", " + ")):
                if a in t: vs.append(("lua" + a, t.replace(a, b, 1)))
            m = re.search(r"if (.*) then", s)
            if m: vs += [("always", t.replace(m.group(1), "true")), ("never", t.replace(m.group(1), "false"))]
            for m in re.finditer(r"'([a-z_]{3,})'", t): vs.append(("name", t[:m.start()] + "'" + m.group(1) + "x'" + t[m.end():]))
            for m in re.finditer(r"(?<![\w\[])(\d+)(?![\w\]])", t): vs.append(("num", t[:m.start()] + str(int(m.group(1)) + 1) + t[m.end():]))
            for what, new in vs:
                if new != t:
                    ls = list(lines); ls[l - 1] = new
                    out.append((f"{file}:{l} {what}: {s[:70]!r} -> {new.strip()[:70]!r}", l, mod + "." + name, "\n".join(ls) + "\n"))
    for s in tree.body: visit(s, "", False)
    good = []
    for o in out:
        try: ast.parse(o[3])
        except SyntaxError: continue
        good.append((file, *o))
    return good


def run(m):
    file, what, line, fn, new = m
    ids = [p for _, p in sorted((t, p) for p, (t, fns) in EV.items() if fn in fns or fn.split(".<locals>")[0] in fns)]
    if not ids: return "uncovered", what
    d = Path(tempfile.mkdtemp(prefix="mutate-", dir="/tmp"))
    try:
        shutil.copytree("/repo/src", d / "src", ignore=shutil.ignore_patterns("__pycache__"))
        (d / "src/docket" / file).write_text(new)
        for i in ids:
            try: r = subprocess.run([sys.executable, str(HERE.parent / "check.py"), i], env=dict(os.environ, DSA_REPO=str(d), DSA_EVIDENCE=str(d / "ev")), capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: return "timeout " + i, what
            if r.returncode == 1: return "caught " + i, what
            if r.returncode != 0: return "error " + i, what
        return "MISSED", what + "   " + " ".join(ids)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    only = [int(x) for x in os.environ.get("LINES", "0-0").split("-")]
    ms = [m for f in (sys.argv[3:] or FILES) for m in sites(f) if not only[1] or only[0] <= m[2] <= only[1]]
    random.Random(seed).shuffle(ms)
    print(len(ms), "edits in all", flush=True)
    tally = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for verdict, what in ex.map(run, ms[:n]):
            tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
            if not verdict.startswith("caught"): print(verdict, "|", what, flush=True)
    print(tally)
