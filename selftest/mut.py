#!/usr/bin/env python3
"""Run the checks on edited copies of /repo's sources.

mut.py FILE [NAME...]: FILE defines CASES: a list of (name, file, [(old, new),
...], expected) where expected lists the checks that must alarm ([] for an edit
that changes no behaviour: every check must stay quiet)."""
import ast, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE.parent))
from dsa.rules import RULES  # noqa: E402

spec = importlib.util.spec_from_file_location("cases", sys.argv[1])
mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
want = sys.argv[2:]


EV = {}
for _f in (Path("/verif/evidence") if Path("/verif/evidence").exists() else HERE.parent / "evidence").glob("C*.json"):
    _d = json.loads(_f.read_text())
    EV[_d["property"]] = set(_d["coverage"]["functions_analysed"])


def funcs(path, mod):
    """Functions of a file by name, and the rest of it."""
    tree, out = ast.parse(path.read_text()), {}
    def visit(n, q):
        for c in list(ast.iter_child_nodes(n)):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out[q + "." + c.name] = ast.dump(c)
                visit(c, q + "." + c.name)
            else:
                visit(c, q + "." + c.name if isinstance(c, ast.ClassDef) else q)
    visit(tree, mod)
    class Strip(ast.NodeTransformer):
        def visit_FunctionDef(self, n): return None
        visit_AsyncFunctionDef = visit_FunctionDef
    out[""] = ast.dump(Strip().visit(tree))
    return out


def covering(d, files):
    """The checks that analyse a function the edits touch."""
    ids = set()
    for fn in files:
        mod = "docket." + fn[:-3].replace("/", ".")
        a, b = funcs(Path("/repo/src/docket", fn), mod), funcs(d / "src/docket" / fn, mod)
        hit = {q for q in a if a[q] != b.get(q)}
        for i in RULES:
            names = EV.get(i)
            if names is None or names & hit or "" in hit and len(hit) == 1 and any(n.startswith(mod + ".") for n in names):
                ids.add(i)
    return sorted(ids) or sorted(RULES)


def run(case):
    name, file, edits, expected = case[:4]
    d = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
    try:
        shutil.copytree("/repo/src", d / "src", ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("pyproject.toml", "loq.toml"):
            if Path("/repo", f).exists(): shutil.copy(Path("/repo", f), d)
        for e in edits:
            fn, old, new = e if len(e) == 3 else (file, *e)
            p = d / "src/docket" / fn
            s = p.read_text()
            if s.count(old) < 1: return name, f"BAD: {old[:50]!r} not found in {fn}", ""
            p.write_text(s.replace(old, new, 1))
        for e in edits:
            p = d / "src/docket" / (e[0] if len(e) == 3 else file)
            compile(p.read_text(), str(p), "exec")
        ids = os.environ.get("IDS", "").split() or (sorted(RULES) if os.environ.get("ALL") else expected or covering(d, {e[0] if len(e) == 3 else file for e in edits}))
        env = dict(os.environ, DSA_REPO=str(d), DSA_EVIDENCE=str(d / "ev"))
        r = subprocess.run([sys.executable, str(HERE.parent / "check.py"), *ids, "-"], env=env, capture_output=True, text=True, timeout=3000)
        out = r.stdout
        viol = [l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")]
        errs = [l[:200] for l in out.splitlines() if "analysis error" in l]
        if r.stderr.strip(): errs.append(r.stderr[-300:])
        bad = (not expected and (viol or errs)) or (expected and not set(viol) & set(expected))
        return name, ("MISS " if bad and expected else "ALARM " if bad else "ok ") + ",".join(viol) + (" ERR " + "; ".join(errs) if errs else ""), out if bad or os.environ.get("V") else ""
    finally:
        shutil.rmtree(d)


cases = [c for c in mod.CASES if not want or c[0] in want]
with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
    for name, verdict, out in ex.map(run, cases):
        print(f"{name:40s} {verdict}")
        if out and (os.environ.get("V") or not verdict.startswith("MISS")): print("    " + "\n    ".join([x[:400] for x in out.splitlines() if "held (" not in x][:int(os.environ.get("V") or 10)]))
