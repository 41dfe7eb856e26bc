"""What the metrics count."""
W="worker.py"; D="docket.py"; R="dependencies/_retry.py"; P="dependencies/_perpetual.py"
I=["C43"]
CASES=[
("q-running",W,[("                TASKS_RUNNING.add(-1, counter_labels)\n                TASKS_COMPLETED","                TASKS_COMPLETED")],I),
("q-running-ok",W,[("                    TASKS_SUCCEEDED.add(1, counter_labels)\n","                    TASKS_SUCCEEDED.add(1, counter_labels)\n                    TASKS_RUNNING.add(-1, counter_labels)\n"),("                TASKS_RUNNING.add(-1, counter_labels)\n                TASKS_COMPLETED","                TASKS_COMPLETED")],I),
("q-early",W,[("        # Atomically check supersession and claim","        TASKS_STARTED.add(1, counter_labels)\n        # Atomically check supersession and claim"),("        TASKS_STARTED.add(1, counter_labels)\n        if execution.redelivered","        if execution.redelivered")],I),
("q-failed-final",W,[("                TASKS_FAILED.add(1, counter_labels)\n\n",""),("                    # Mark execution as failed with error message\n","                    TASKS_FAILED.add(1, counter_labels)\n")],I),
("q-cancel-failed",W,[("                await execution.mark_as_cancelled()\n                logger.info(\n                    \"✗","                await execution.mark_as_cancelled()\n                TASKS_FAILED.add(1, counter_labels)\n                logger.info(\n                    \"✗")],I),
("q-succeeded-late",W,[("                    TASKS_SUCCEEDED.add(1, counter_labels)\n",""),("                        await execution.mark_as_completed(result_key=result_key)\n","                        await execution.mark_as_completed(result_key=result_key)\n                        TASKS_SUCCEEDED.add(1, counter_labels)\n")],I),
("q-redelivered",W,[("        if execution.redelivered:\n            TASKS_RED","        if execution.attempt > 1:\n            TASKS_RED")],I),
("q-labels",W,[("        TASKS_STARTED.add(1, counter_labels)","        TASKS_STARTED.add(1, self.labels())")],I),
("q-stricken",W,[('            TASKS_STRICKEN.add(1, counter_labels | {"docket.where": "worker"})','            TASKS_SUPERSEDED.add(1, counter_labels | {"docket.where": "worker"})')],I),
("q-added",D,[("            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})\n            if execution","            if execution")],I),
("q-scheduled",D,[("            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})\n            if execution.disposition is Disposition.SCHEDULED:\n                TASKS_SCHED","            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})\n            if True:\n                TASKS_SCHED")],I),
("q-retried",R,[("        execution.when = datetime.now(timezone.utc) + self.delay\n","        TASKS_RETRIED.add(1, {**current_worker.get().labels(), **execution.general_labels()})\n        execution.when = datetime.now(timezone.utc) + self.delay\n")],I),
("q-perpetuated",P,[("        TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})\n\n        if outcome.exception:\n","        if outcome.exception:\n            TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})\n")],I),
("q-depth",W,[("QUEUE_DEPTH.set(stream_depth + overdue_depth,","QUEUE_DEPTH.set(stream_depth + schedule_depth,")],I),
("q-depth2",W,[("SCHEDULE_DEPTH.set(schedule_depth,","SCHEDULE_DEPTH.set(schedule_depth + overdue_depth,")],I),
("q-depth3",W,[('pipeline.zcount(self.docket.queue_key, now, "+inf")','pipeline.zcount(self.docket.queue_key, oldest, "+inf")')],I),
("q-cancelled",D,[("        TASKS_CANCELLED.add(1, self.labels())\n\n    async def get_execution","        TASKS_CANCELLED.add(-1, self.labels())\n\n    async def get_execution")],I),
("q-replaced",D,[("            TASKS_REPLACED.add(1, {**self.labels(), **execution.general_labels()})","            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})")],I),
]
