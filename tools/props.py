#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
E, D, W = "src/docket/execution.py", "src/docket/docket.py", "src/docket/worker.py"
DEP = "src/docket/dependencies/"
TECH = "path-sensitive effect analysis of Python and Lua source"
NOTE = ("Every path of the entry points named (loops unrolled to two turns, unknown inputs symbolic) is enumerated from the current source, through "
        "package calls and Redis scripts; the rules are decided on each path's branch facts and its folded effects. Assumes Redis commands, asyncio and "
        "third-party libraries behave as documented; branch conditions are not checked for joint satisfiability beyond equal or constant terms.")


def P(id, title, statement, over, text, why, files, mech, technique=TECH, note=NOTE):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note)


def main():
    import sys
    sys.modules["props"] = sys.modules["__main__"]
    from propdata import NOT_APPLICABLE, PROPS
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    na = {i for i, _ in NOT_APPLICABLE}
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[
        dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py --thorough {p['id']}",
             technique=p["technique"], level="other", level_note=p["note"]) for p in PROPS if p["id"] not in na],
        not_applicable=[dict(property=i, reason=t) for i, t in NOT_APPLICABLE])
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(ROOT / "properties.jsonl"):
        o = json.loads(line)
        jsonschema.validate(o, s)
        n = o["statement"].count(". ") + 1
        if n > 3:
            print(o["id"], "has", n, "sentences")
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(PROPS), "properties,", len(m["checks"]), "checks")


if __name__ == "__main__":
    main()
