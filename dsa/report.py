"""Obligations, verdicts and evidence of one check."""
from __future__ import annotations

import json
import os
import re
import time
from dataclasses import dataclass, field
from pathlib import Path as FsPath
from typing import Any

from .model import Path, World, brief
from .paths import AnalysisError, Event
from .terms import show

ROOT = FsPath(__file__).resolve().parent.parent
EVIDENCE = FsPath(os.environ.get("DSA_EVIDENCE", ROOT / "evidence"))
KNOWN = ROOT / "KNOWN_FINDINGS.txt"


@dataclass
class Finding:
    rule: str
    construct: str
    message: str
    where: str
    path: Path | None = None

    def ident(self) -> tuple[str, str]:
        return self.rule, self.construct


def full(p: Path) -> bool:
    """A set found to hold at least a limit's number is taken not to be empty:
    limits are positive."""
    return any(e.kind == "branch" and e.result is False and e.args and e.args[0][:2] == ("cmp", "<") and e.args[0][2][:2] == ("reply", "ZCARD") for e in p.trace)


@dataclass
class Report:
    prop: str
    world: World
    tier: str = "quick"
    obligations: dict[str, int] = field(default_factory=dict)
    findings: list[Finding] = field(default_factory=list)
    explain: list[str] = field(default_factory=list)
    rules: dict[str, str] = field(default_factory=dict)
    assumptions: list[str] = field(default_factory=list)
    samples: list[str] = field(default_factory=list)
    started: float = field(default_factory=time.time)

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def rule(self, name: str, text: str) -> str:
        self.rules[name] = text
        return name

    def require(self, ok: Any, rule: str, construct: str, message: str = "", path: Path | None = None, at: Event | str | None = None) -> bool:
        """One obligation: ``ok`` must hold of ``construct``."""
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        if len(self.samples) < 12 and self.obligations[rule] == 1:
            self.samples.append(f"{rule} on {construct}" + (f" [{'; '.join(path.conditions()[-3:])}]" if path else ""))
        if ok:
            return True
        where = at.site if isinstance(at, Event) else at or (last_site(path) if path else "")
        self.findings.append(Finding(rule, construct, message, where, path))
        return False

    def fail(self, rule: str, construct: str, message: str, path: Path | None = None, at: Event | str | None = None) -> None:
        self.require(False, rule, construct, message, path, at)

    def expect(self, rule: str, least: int = 1) -> None:
        """Vacuity guard: the rule must have been exercised.  Code written
        another way has fewer or more paths, so half of what the present code has will do."""
        least = (least + 1) // 2
        n = self.obligations.get(rule, 0)
        if n < least:
            raise AnalysisError(f"rule {rule} met {n} obligations, expected at least {least}: the construct it reads has vanished")

    def scripts(self) -> None:
        """No script run on any of the paths explored fails half-way."""
        rule = None
        for ps in self.world.cache.values():
            for p in ps:
                for e in p.trace:
                    if e.kind == "script" and rule is None:
                        rule = self.rule(self.prop + ".script", "no Lua script fails part-way (a value of the wrong kind, a missing argument) on the paths explored")
                    if e.kind == "note" and e.name == "lua-error" and rule and not full(p):
                        self.fail(rule, str(e.site), f"the script fails: {show(e.args[0])}", p, e)
        if rule:
            self.require(True, rule, "scripts", "")

    # -- verdict ----------------------------------------------------------------
    def known(self) -> list[tuple[str, str, str]]:
        out = []
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                m = re.match(r"known: property=(\S+) rule=(\S+) construct=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3), m.group(4)))
        return out

    def finish(self) -> int:
        known = self.known()
        fresh: dict[tuple[str, str], Finding] = {}
        old: dict[tuple[str, str], str] = {}
        for f in self.findings:
            k = f.ident()
            hit = next((t for r, c, t in known if (r, c) == k), None)
            if hit is not None:
                old[k] = hit
            else:
                fresh.setdefault(k, f)
        for k, t in old.items():
            print(f"KNOWN-FINDING: property={self.prop} {t}")
        replay = EVIDENCE / f"replay-{self.prop}.json"
        if fresh:
            EVIDENCE.mkdir(exist_ok=True)
            replay.write_text(json.dumps([{
                "property": self.prop, "rule": f.rule, "rule_text": self.rules.get(f.rule, ""), "construct": f.construct,
                "message": f.message, "where": f.where,
                "path": [brief(e) for e in f.path.trace if e.kind not in ("call", "ret", "note", "new")][:200] if f.path else [],
                "conditions": f.path.conditions() if f.path else [],
            } for f in fresh.values()], indent=1))
            for f in fresh.values():
                print(f"{f.where}: [{f.rule}] {f.construct}: {f.message}")
                if f.path:
                    for c in f.path.conditions()[-8:]:
                        print(f"    on the path where {c[:220]}")
            print(f"VIOLATION property={self.prop} replay={replay}")
        elif replay.exists():
            replay.unlink()
        self.write_evidence(len(fresh))
        return 1 if fresh else 0

    def write_evidence(self, violations: int) -> None:
        w = self.world
        total = sum(self.obligations.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": " ".join(self.explain),
                "rules": self.rules,
                "obligations": total,
                "obligations_by_rule": self.obligations,
                "discharged": total - len(self.findings),
                "paths_by_entry_point": w.stats,
                "paths_analysed": sum(w.stats.values()),
                "functions_analysed": sorted(w.functions),
                "source_digest": w.prog.digest(),
                "samples": self.samples,
            },
            "assumptions": self.assumptions + [
                "Redis commands behave as documented; a Lua script and a MULTI/EXEC pipeline are atomic",
                "calls that leave the package have no effect on docket's keys or objects beyond their documented one",
            ],
            "wall_s": round(time.time() - self.started, 3),
            "violations": violations,
        }
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))


def last_site(path: Path) -> str:
    for e in reversed(path.trace):
        if e.site and e.kind in ("redis", "script", "branch", "call", "raise", "assign"):
            return e.site
    return ""
