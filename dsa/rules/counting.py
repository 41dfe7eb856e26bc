"""The metrics say what happened."""
from __future__ import annotations

import ast
import re
from typing import Any

from ..model import DOCKET, Path, World
from ..paths import Event
from ..report import Report
from ..terms import Term, const, norm, show
from .adding import FUNCTION, NAME, asked
from .handlers import lives, paths as handled
from .registry import beating
from .running import execute_paths, is_body, last, linear

NOW = re.compile(r"(timestamp\()?now\(\d+\)\)?")
KINDS = ("create_counter", "create_up_down_counter", "create_histogram", "create_gauge")


def instruments(w: World) -> dict[str, str]:
    """The instruments of the package, by the name of their variable."""
    out: dict[str, str] = {}
    for m in w.prog.modules.values():
        for s in m.tree.body:
            v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign)) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in KINDS and v.args and isinstance(v.args[0], ast.Constant):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target  # type: ignore[union-attr]
                if isinstance(t, ast.Name):
                    out[f"{m.name}.{t.id}"] = str(v.args[0].value)
    return out


class Told:
    """What a path tells its instruments."""

    def __init__(self, names: dict[str, str], p: Path) -> None:
        self.events: dict[str, list[tuple[int, Event, list[Term]]]] = {}
        for n, e in enumerate(p.trace):
            if e.kind == "call" and e.name.rsplit(".", 1)[0] in names and e.name.rsplit(".", 1)[1] in ("add", "record", "set"):
                args = [norm(a) for a in e.args[1:]] + [norm(v) for k, v in e.kwargs if k in ("amount", "attributes")]
                self.events.setdefault(names[e.name.rsplit(".", 1)[0]], []).append((n, e, args))

    def count(self, name: str) -> Any:
        total: Any = 0
        for _, _, a in self.events.get(name, []):
            if not a or a[0][0] != "const":
                return None
            total += a[0][1]
        return total

    def all(self, name: str) -> list[tuple[int, Event, list[Term]]]:
        return self.events.get(name, [])

    def labelled(self, name: str, *parts: str) -> bool:
        text = [repr(a[1]) if len(a) > 1 else "" for _, _, a in self.all(name)]
        return all(any(x in t for x in part.split("|")) for t in text for part in parts)


def c43(w: World, r: Report) -> None:
    names = instruments(w)
    r.explain.append(f"Every change of the package's {len(names)} instruments is collected on every path of a worker's execution of a delivery, of scheduling, replacing and cancelling, of retrying and perpetuating, and of a heartbeat, with a failure or "
                     "cancellation at each step, and compared with what the path does.")
    runs = r.rule("C43.runs", "a run that is claimed is counted as started, running and, once, as completed, and its duration taken, however it ends; afterwards it no longer counts as running")
    ends = r.rule("C43.ends", "a run is counted as succeeded exactly if its function returns, and as failed exactly if it is treated as failed; one that is held back or cancelled is neither")
    none = r.rule("C43.not-run", "a delivery that is stricken or superseded is counted as that, and as nothing else")
    sched = r.rule("C43.scheduling", "scheduling counts a task as scheduled exactly if it was, as added or replaced if it was not stricken, and as stricken otherwise")
    more = r.rule("C43.again", "a retry, a next run and a cancellation are counted exactly when they happen")
    depth = r.rule("C43.depth", "a heartbeat reports the tasks that are due and those that are not, as counted")
    label = r.rule("C43.labels", "what is counted names its docket, worker and task")
    executing(w, r, names, runs, ends, none, label)
    scheduling(w, r, names, sched, label)
    again(w, r, names, more, label)
    beats(w, r, names, depth)
    for rule, least in ((runs, 100), (ends, 100), (none, 2), (sched, 8), (more, 4), (depth, 2), (label, 50)):
        r.expect(rule, least)


def answered(p: Path, name: str) -> bool | None:
    """What a question asked on the path was answered."""
    for e in p.trace:
        if e.kind == "branch" and e.args[0][0] == "truth" and name in show(e.args[0])[:120]:
            return e.result
    return None


def executing(w: World, r: Report, names: dict[str, str], runs: str, ends: str, none: str, label: str) -> None:
    for p in execute_paths(w):
        t = Told(names, p)
        at = "Worker._execute"
        claims = [n for n, e in enumerate(p.trace) if e.kind == "call" and e.name.endswith("Execution.claim")]
        entered = [n for n, e in enumerate(p.trace) if e.kind == "cm" and "resolved_dependencies" in e.name]
        if not entered:
            struck, lost = answered(p, "is_stricken") is True, bool(claims)
            want = {"docket_tasks_stricken": int(struck and not lost), "docket_tasks_superseded": int(lost)}
            for n in sorted(set(names.values())):
                if "disruptions" in n:
                    continue
                r.require((t.count(n) if n in want else len(t.all(n))) == want.get(n, 0), none, f"{at}/{n}", f"a delivery that does not run counts {t.count(n)} towards it", p)
            continue
        for n in ("docket_tasks_stricken", "docket_tasks_superseded"):
            r.require(not t.all(n), none, f"{at}/{n}", "a delivery that runs is counted as one that does not", p)
        up = t.all("docket_tasks_running")
        r.require(t.count("docket_tasks_started") == 1, runs, at + "/started", f"started {t.count('docket_tasks_started')} times", p)
        r.require(t.count("docket_tasks_completed") == 1, runs, at + "/completed", f"completed {t.count('docket_tasks_completed')} times", p)
        r.require(len(t.all("docket_task_duration")) == 1, runs, at + "/duration", f"its duration is taken {len(t.all('docket_task_duration'))} times", p)
        r.require(len(t.all("docket_task_punctuality")) == 1, runs, at + "/punctuality", "its punctuality is not taken", p)
        r.require(t.count("docket_tasks_running") == 0, runs, at + "/running", f"{t.count('docket_tasks_running')} more runs are counted afterwards", p)
        r.require([a[0] for _, _, a in up] == [const(1), const(-1)] and up[0][0] < entered[0] and up[1][0] > entered[-1], runs, at + "/while", "does not count as running exactly while it runs", p)
        again = answered(p, "redelivered")
        r.require(t.count("docket_tasks_redelivered") == int(bool(again)), runs, at + "/redelivered", f"a{'' if again else ' first'} {'re' if again else ''}delivery counts {t.count('docket_tasks_redelivered')}", p)
        bodies = [n for n, e in enumerate(p.trace) if is_body(e)]
        threw = [n for n, e in enumerate(p.trace) if e.kind == "throw"]
        returned = bool(bodies) and not any(n == bodies[0] + 1 for n in threw)
        r.require(t.count("docket_tasks_succeeded") == int(returned), ends, at + "/succeeded", f"{'returned' if returned else 'did not return'}, and counts {t.count('docket_tasks_succeeded')} successes", p)
        failed = any(e.kind == "call" and last(e) in ("handle_failure", "mark_as_failed") for e in p.trace)
        r.require(t.count("docket_tasks_failed") == int(failed), ends, at + "/failed", f"{'failed' if failed else 'did not fail'}, and counts {t.count('docket_tasks_failed')} failures", p)
        for n in ("started", "running", "succeeded", "failed", "completed", "redelivered"):
            r.require(t.labelled(f"docket_tasks_{n}", "Worker.labels|docket.worker", "Execution.general_labels|docket.task"), label, f"{at}/{n}", "does not name the worker and the task", p)


def scheduling(w: World, r: Report, names: dict[str, str], sched: str, label: str) -> None:
    for how in ("add", "replace"):
        for f in (FUNCTION, NAME):
            for p in asked(w, how, f):
                if p.outcome != "ok":
                    continue
                t = Told(names, p)
                struck = [e for e in p.trace if e.kind == "assign" and e.name == "disposition" and "STRUCK" in show(e.args[1])]
                placed = [e for e in p.trace if e.kind == "assign" and e.name == "disposition" and "SCHEDULED" in show(e.args[1]) and "ALREADY" not in show(e.args[1])]
                at = f"Docket.{how}"
                r.require(t.count("docket_tasks_stricken") == int(bool(struck)), sched, at + "/stricken", f"counts {t.count('docket_tasks_stricken')} stricken tasks", p)
                r.require(t.count("docket_tasks_scheduled") == int(bool(placed)), sched, at + "/scheduled", f"{'schedules' if placed else 'does not schedule'} the task, and counts {t.count('docket_tasks_scheduled')}", p)
                mine, other = ("docket_tasks_added", "docket_tasks_replaced") if how == "add" else ("docket_tasks_replaced", "docket_tasks_added")
                r.require(t.count(mine) == int(not struck) and not t.all(other), sched, f"{at}/{mine}", f"counts {t.count(mine)}", p)
                for n in (mine, "docket_tasks_scheduled", "docket_tasks_stricken"):
                    r.require(t.labelled(n, "general_labels|docket.task"), label, f"{at}/{n}", "does not name the task", p)


def again(w: World, r: Report, names: dict[str, str], more: str, label: str) -> None:
    def failing(it: Any) -> Term:
        return w.call(it, w.make(it, "Retry"), "Retry.handle_failure", [it.heap[("ambient", "execution")], w.make(it, "TaskOutcome")])
    for p in handled(w, "Retry.handle_failure counted", failing):
        if p.outcome != "ok":
            continue
        t = Told(names, p)
        put = any(e.kind == "call" and e.name.endswith("Execution.schedule") for e in p.trace)
        r.require(t.count("docket_tasks_retried") == int(put), more, "Retry.handle_failure", f"{'schedules' if put else 'does not schedule'} a retry, and counts {t.count('docket_tasks_retried')}", p)
        r.require(t.labelled("docket_tasks_retried", "general_labels|docket.task"), label, "Retry.handle_failure", "does not name the task", p)
    for act in ("nothing", "perpetuate", "cancel"):
        for p in lives(w, "Perpetual", act):
            if p.outcome != "ok":
                continue
            t = Told(names, p)
            end = next((n for n, e in enumerate(p.trace) if e.kind == "mark" and e.name == "completing"), 0)
            put = any(e.kind == "call" and e.name.endswith("Execution.schedule") for e in p.trace[end:]) or any(e.kind == "call" and e.name.endswith("Docket.replace") for e in p.trace[end:])
            r.require(t.count("docket_tasks_perpetuated") == int(put), more, "Perpetual.on_complete", f"{'schedules' if put else 'does not schedule'} a next run, and counts {t.count('docket_tasks_perpetuated')}", p)
            lost = any(e.kind == "call" and e.name.endswith("is_superseded") for e in p.trace[end:]) and not put
            r.require(t.count("docket_tasks_superseded") == int(lost), more, "Perpetual.on_complete/superseded", f"counts {t.count('docket_tasks_superseded')} superseded runs", p)
    docket = w.prog.klass("Docket")
    cancel = w.prog.method(docket, "cancel")
    for p in w.paths("Docket.cancel counted", lambda it: w.call(it, DOCKET, cancel.qual), inline=lambda f: f.name not in ("_cancel", "_publish")):
        t = Told(names, p)
        r.require(t.count("docket_tasks_cancelled") == int(p.outcome == "ok"), more, "Docket.cancel", f"counts {t.count('docket_tasks_cancelled')} cancellations", p)


def beats(w: World, r: Report, names: dict[str, str], depth: str) -> None:
    for p in beating(w):
        t = Told(names, p)
        for name in ("docket_queue_depth", "docket_schedule_depth"):
            for _, e, a in t.all(name):
                got = linear(a[0])
                said = sorted((show(x).split("<")[0], [show(y) for y in x[2]] if len(x) > 2 else []) for x in got if x is not None and x[0] == "reply")
                ok = all(c == 1 for x, c in got.items() if x is not None) and not got.get(None, 0) and len(said) == len([x for x in got if x is not None])
                if name == "docket_queue_depth":
                    ok = ok and [c for c, _ in said] == ["XLEN", "ZCOUNT"] and ":stream" in said[0][1][0] and ":queue" in said[1][1][0] and said[1][1][1] in ("0", "'-inf'") and NOW.fullmatch(said[1][1][2]) is not None
                else:
                    ok = ok and [c for c, _ in said] == ["ZCOUNT"] and ":queue" in said[0][1][0] and NOW.fullmatch(said[0][1][1]) is not None and said[0][1][2] == "'+inf'"
                r.require(ok, depth, "Worker._heartbeat/" + name, f"reports {show(a[0])[:120]}", p, e)
