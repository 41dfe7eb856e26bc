"""Refactorings of the worker's loop and of the command line."""
W="worker.py"
def c(name, *edits, f=W): return (name, f, list(edits), [])
POLL='''                            for source in [get_redeliveries, get_new_deliveries]:
                                for stream_key, messages in await source(redis):
                                    is_redelivery = stream_key == b"__redelivery__"
                                    for message_id, message in messages:
                                        if not message:  # pragma: no cover
                                            continue

                                        await start_task(
                                            message_id, message, is_redelivery
                                        )

                                if available_slots <= 0:
                                    break

'''
RUN='''    asyncio.run(
        Worker.run(
            docket_name=docket_,
            url=url,
            name=name,
            concurrency=concurrency,
'''
CASES=[
c("rr-poll",(POLL,"                            await poll()\n"),("        disconnect: ConnectionError | None = None\n",'''        async def poll() -> None:
            for source in (get_redeliveries, get_new_deliveries):
                for stream_key, messages in await source(redis):
                    redelivered = stream_key == b"__redelivery__"
                    for message_id, message in messages:
                        if message:
                            await start_task(message_id, message, redelivered)

                if available_slots <= 0:
                    return

        disconnect: ConnectionError | None = None
''')),
c("rr-depth",("                            results: list[int] = await pipeline.execute()\n\n                    stream_depth = results[0]\n                    overdue_depth = results[1]\n                    schedule_depth = results[2]\n\n                    QUEUE","                            stream, overdue, ahead = await pipeline.execute()\n\n                    docket_labels = self.docket.labels()\n                    QUEUE"),
  ("set(stream_depth + overdue_depth, self.docket.labels())\n                    SCHEDULE_DEPTH.set(schedule_depth, self.docket.labels())","set(stream + overdue, docket_labels)\n                    SCHEDULE_DEPTH.set(ahead, docket_labels)")),
c("rr-admission",("                    elif e.reschedule:\n                        delay = e.retry_delay or ADMISSION_BLOCKED_RETRY_DELAY\n                        logger.debug(","                    if not e.reschedule:\n                        logger.debug(\n                            \"⏭ Task %s blocked by admission control, dropping\",\n                            e.execution.key,\n                            extra=log_context,\n                        )\n                        await e.execution.mark_as_cancelled()\n                    else:\n                        delay = e.retry_delay or ADMISSION_BLOCKED_RETRY_DELAY\n                        logger.debug("),
  ("                            await e.execution.schedule(reschedule_message=message_id)\n                    else:\n                        logger.debug(\n                            \"⏭ Task %s blocked by admission control, dropping\",\n                            e.execution.key,\n                            extra=log_context,\n                        )\n                        await e.execution.mark_as_cancelled()\n","                            await e.execution.schedule(reschedule_message=message_id)\n")),
c("rr-start",("            active_tasks[task] = message_id\n            task_executions[task] = execution\n            self._tasks_by_key[execution.key] = task\n\n            nonlocal available_slots\n            available_slots -= 1\n","            track(task, execution, message_id)\n"),
  ("        async def start_task(\n","        def track(\n            task: asyncio.Task[None], execution: Execution, message_id: RedisMessageID\n        ) -> None:\n            nonlocal available_slots\n            available_slots = available_slots - 1\n            self._tasks_by_key[execution.key] = task\n            task_executions[task] = execution\n            active_tasks[task] = message_id\n\n        async def start_task(\n"),
  ("                results: list[int] = await pipeline.execute()\n                stream_len = results[0]\n                queue_len = results[1]\n                return stream_len > 0 or queue_len > 0","                counts: list[int] = await pipeline.execute()\n            return any(count > 0 for count in counts)")),
c("rr-drain",("            if active_tasks:\n                await asyncio.gather(*active_tasks, return_exceptions=True)\n                await process_completed_tasks()\n            if self._processing_session is session:","            await drain()\n            if self._processing_session is session:"),
  ("        disconnect: ConnectionError | None = None\n","        async def drain() -> None:\n            if not active_tasks:\n                return\n            await asyncio.gather(*active_tasks, return_exceptions=True)\n            await process_completed_tasks()\n\n        disconnect: ConnectionError | None = None\n")),
c("rr-cli",(RUN,'''    timing = {
        "redelivery_timeout": redelivery_timeout,
        "reconnection_delay": reconnection_delay,
        "minimum_check_interval": minimum_check_interval,
        "scheduling_resolution": scheduling_resolution,
    }
    asyncio.run(
        Worker.run(
            **timing,
            docket_name=docket_,
            url=url,
            name=name,
            concurrency=concurrency,
'''),("            redelivery_timeout=redelivery_timeout,\n            reconnection_delay=reconnection_delay,\n            minimum_check_interval=minimum_check_interval,\n            scheduling_resolution=scheduling_resolution,\n            schedule_automatic","            schedule_automatic"),f="cli/__init__.py"),
]
