#!/usr/bin/env python3
"""DESIGN.md from its head, what the checks last reported, and its tail."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
from propdata import NOT_APPLICABLE, PROPS  # noqa: E402

out = [(ROOT / "tools/design_head.md").read_text(), "## How each property is decided\n"]
for p in PROPS:
    f = ROOT / "evidence" / (p["id"] + ".json")
    out.append(f"### {p['id']}: {p['title']}\n")
    if not f.exists():
        continue
    e = json.loads(f.read_text())
    c = e["coverage"]
    out.append(c["explanation"] + "\n")
    out += [f"* `{k}` {v}." for k, v in c["rules"].items()]
    eps = ", ".join(sorted({k.split("(")[0].split("/")[0] for k in c["paths_by_entry_point"]})[:8])
    out.append(f"\nPaths from: {eps}. On this tree: {c['paths_analysed']} paths, {c['obligations']} obligations, {len(c['functions_analysed'])} functions, {max(1, round(e['wall_s']))} s.")
    out.append(f"Beyond tests: {p['why_tests_cant']}\n")
out.append("## Not applicable\n")
out += [f"* {i}: {t}" for i, t in NOT_APPLICABLE] or ["(none)"]
out.append((ROOT / "tools/design_tail.md").read_text())
out.append("| planted bug | property | what it needs | caught by |\n|---|---|---|---|")
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    needs = " ".join(str(m["needs"]).split())
    out.append(f"| {d.name} | {m['property']} | {needs} | {m['property']} |")
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
