#!/usr/bin/env python3
"""check.py ID [ID...]: decide properties of /repo's current source.

Exit 0: held.  1: violated (VIOLATION line).  2: the analysis could not be
carried out (a construct it reads is missing or not understood)."""
from __future__ import annotations

import importlib
import os
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)

from dsa.model import World  # noqa: E402
from dsa.paths import AnalysisError  # noqa: E402
from dsa.report import Report  # noqa: E402
from dsa.rules import RULES  # noqa: E402


def main() -> int:
    ids = sys.argv[1:]
    repo = os.environ.get("DSA_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if ids and ids[0] == "--thorough":
        tier, ids = "thorough", ids[1:]
    if ids and ids[0] == "--setup":
        w = World(repo)
        print(f"parsed {len(w.prog.modules)} modules, {w.prog.digest()}")
        return 0
    worst = 0
    for pid in [i for i in ids if i != "-"] or sorted(RULES):
        if pid not in RULES:
            print(f"no check for {pid}")
            return 2
        mod, fn = RULES[pid].rsplit(".", 1)
        try:
            rep = Report(pid, World(repo), tier)
            getattr(importlib.import_module("dsa.rules." + mod), fn)(rep.world, rep)
            rep.scripts()
            rc = rep.finish()
        except AnalysisError as e:
            print(f"{pid}: analysis error: {e}")
            if os.environ.get("DSA_DEBUG"):
                traceback.print_exc()
            # What was understood before that and is broken stays broken
            rc = 1 if rep.findings and rep.finish() == 1 else 2
        if rc == 0 and (len(ids) != 1):
            print(f"{pid}: held ({sum(rep.obligations.values())} obligations, {sum(rep.world.stats.values())} paths, {rep.world.prog.digest()})")
        worst = max(worst, rc) if rc != 1 or worst != 2 else worst
    return worst


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
