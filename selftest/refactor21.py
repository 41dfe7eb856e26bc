"""Refactorings around the metrics."""
W="worker.py"; D="docket.py"; P="dependencies/_perpetual.py"
def c(name, *edits, f=W): return (name, f, list(edits), [])
CASES=[
c("qq-begin",("        TASKS_STARTED.add(1, counter_labels)\n        if execution.redelivered:\n            TASKS_REDELIVERED.add(1, counter_labels)\n        TASKS_RUNNING.add(1, counter_labels)\n        TASK_PUNCTUALITY.record(punctuality, counter_labels)\n","        self._count_start(execution, punctuality, counter_labels)\n"),
  ("    def _startup_log(self) -> None:","    def _count_start(\n        self, execution: Execution, punctuality: float, labels: Mapping[str, str]\n    ) -> None:\n        TASKS_STARTED.add(1, labels)\n        TASKS_RUNNING.add(1, labels)\n        TASK_PUNCTUALITY.record(punctuality, labels)\n        if not execution.redelivered:\n            return\n        TASKS_REDELIVERED.add(1, labels)\n\n    def _startup_log(self) -> None:")),
c("qq-order",("                TASKS_RUNNING.add(-1, counter_labels)\n                TASKS_COMPLETED.add(1, counter_labels)\n                TASK_DURATION.record(duration, counter_labels)","                TASK_DURATION.record(duration, attributes=counter_labels)\n                TASKS_COMPLETED.add(amount=1, attributes=counter_labels)\n                TASKS_RUNNING.add(-1, counter_labels)")),
c("qq-union",("        counter_labels = {**self.labels(), **execution.general_labels()}","        counter_labels = dict(self.labels())\n        counter_labels.update(execution.general_labels())")),
c("qq-where",('            TASKS_STRICKEN.add(1, counter_labels | {"docket.where": "worker"})','            TASKS_STRICKEN.add(1, {**counter_labels, "docket.where": "worker"})')),
c("qq-add",("            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})\n            if execution.disposition is Disposition.SCHEDULED:\n                TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})","            labels = {**self.labels(), **execution.general_labels()}\n            TASKS_ADDED.add(1, labels)\n            if execution.disposition == Disposition.SCHEDULED:\n                TASKS_SCHEDULED.add(1, labels)"),f=D),
c("qq-struck",("        return scheduler\n\n    async def schedule(self","        return scheduler\n\n    def _count(self, counter: Any, execution: Execution) -> None:\n        counter.add(1, {**self.labels(), **execution.general_labels()})\n\n    async def schedule(self"),("            TASKS_REPLACED.add(1, {**self.labels(), **execution.general_labels()})\n            TASKS_CANCELLED.add(1, {**self.labels(), **execution.general_labels()})\n            TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})","            for counter in (TASKS_REPLACED, TASKS_CANCELLED, TASKS_SCHEDULED):\n                self._count(counter, execution)"),f=D),
c("qq-depth",("                    stream_depth = results[0]\n                    overdue_depth = results[1]\n                    schedule_depth = results[2]\n\n                    QUEUE_DEPTH.set(stream_depth + overdue_depth, self.docket.labels())","                    stream_depth, overdue_depth, schedule_depth = results\n                    labels = self.docket.labels()\n                    QUEUE_DEPTH.set(overdue_depth + stream_depth, labels)")),
c("qq-perp",("        TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})\n\n        if outcome.exception:","        labels = {**worker.labels(), **execution.general_labels()}\n        TASKS_PERPETUATED.add(1, labels)\n\n        if outcome.exception:"),f=P),
]
