W="worker.py"
def c(name, *edits): return (name, W, list(edits), [])
CASES=[
c("fail-helper",("""                    error_msg = f"{type(e).__name__}: {str(e)}"

                    # Store exception in result_storage (only when not retrying)
                    result_key = None
                    if self.docket.execution_ttl:
                        try:
                            pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
                        except Exception:
                            # Some exceptions cannot be pickled; the failure must
                            # still be recorded, so store a description instead
                            pickled_exception = cloudpickle.dumps(Exception(error_msg))
                        # Base64-encode for JSON serialization
                        encoded_exception = base64.b64encode(pickled_exception).decode(
                            "ascii"
                        )
                        result_key = execution.key
                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
                        await self.docket.result_storage.put(
                            result_key, {"data": encoded_exception}, ttl=ttl_seconds
                        )

                    # Mark execution as failed with error message
                    await execution.mark_as_failed(error_msg, result_key=result_key)
""","""                    await self._record_failure(execution, e)
"""),("    def _startup_log(self)","""    async def _record_failure(self, execution: Execution, error: BaseException) -> None:
        message = f"{type(error).__name__}: {str(error)}"
        ttl = self.docket.execution_ttl
        if not ttl:
            await execution.mark_as_failed(message, result_key=None)
            return
        try:
            pickled = cloudpickle.dumps(error)
        except Exception:
            pickled = cloudpickle.dumps(Exception(message))
        await self.docket.result_storage.put(
            execution.key,
            {"data": base64.b64encode(pickled).decode("ascii")},
            ttl=int(ttl.total_seconds()),
        )
        await execution.mark_as_failed(message, result_key=execution.key)

    def _startup_log(self)""")),
c("deps-guard",("""                    for failure in dependency_failures.values():
                        if isinstance(failure.error, AdmissionBlocked):
                            raise failure.error

                    if dependency_failures:
                        raise ExceptionGroup(""","""                    if len(dependency_failures) > 0:
                        for failure in dependency_failures.values():
                            if isinstance(failure.error, AdmissionBlocked):
                                raise failure.error
                        raise ExceptionGroup(""")),
c("deps-loop",("""                    dependency_failures = {
                        k: v
                        for k, v in dependencies.items()
                        if isinstance(v, FailedDependency)
                    }
""","""                    dependency_failures = {}
                    for name, value in dependencies.items():
                        if isinstance(value, FailedDependency):
                            dependency_failures[name] = value
""")),
c("exec-split",("""        # Atomically check supersession and claim task in a single round-trip
        if not await execution.claim(self.name):
""","""        # Atomically check supersession and claim task in a single round-trip
        claimed = await execution.claim(self.name)
        if claimed is False or not claimed:
"""),("""                    if runtime:
                        result = await runtime.run(
                            execution,
                            execution.function,
                            execution.args,
                            final_kwargs,
                        )
                    else:
                        result = await execution.function(
                            *execution.args, **final_kwargs
                        )
""","""                    result = await self._call(runtime, execution, final_kwargs)
"""),("    def _startup_log(self)","""    async def _call(self, runtime: Any, execution: Execution, kwargs: dict[str, Any]) -> Any:
        if runtime is None:
            return await execution.function(*execution.args, **kwargs)
        return await runtime.run(execution, execution.function, execution.args, kwargs)

    def _startup_log(self)""")),
c("handlers-flat",("""                    if completion_handler and await completion_handler.on_complete(
                        execution, outcome
                    ):
                        # Handler took responsibility (rescheduled, logged, recorded metrics)
                        pass
                    else:
                        # No handler took""","""                    taken = False
                    if completion_handler is not None:
                        taken = await completion_handler.on_complete(execution, outcome)
                    if not taken:
                        # No handler took""")),
c("done-helper",("""                except AdmissionBlocked as e:
                    if e.handled:
                        # The admission gate already handled the task --
                        # including acking the stream message -- so there is
                        # nothing more to do here.
                        continue
                    elif e.reschedule:
                        delay = e.retry_delay or ADMISSION_BLOCKED_RETRY_DELAY
                        logger.debug(
                            "⏳ Task %s blocked by admission control, rescheduling",
                            e.execution.key,
                            extra=log_context,
                        )
                        if await e.execution.is_superseded():
                            await e.execution.mark_as_cancelled()
                        else:
                            e.execution.when = datetime.now(timezone.utc) + delay
                            await e.execution.schedule(reschedule_message=message_id)
                    else:
                        logger.debug(
                            "⏭ Task %s blocked by admission control, dropping",
                            e.execution.key,
                            extra=log_context,
                        )
                        await e.execution.mark_as_cancelled()
""","""                except AdmissionBlocked as blocked:
                    if blocked.handled:
                        continue
                    await self._settle_blocked(blocked, message_id)
"""),("    def _startup_log(self)","""    async def _settle_blocked(self, blocked: AdmissionBlocked, message_id: RedisMessageID) -> None:
        execution = blocked.execution
        if not blocked.reschedule or await execution.is_superseded():
            await execution.mark_as_cancelled()
            return
        execution.when = datetime.now(timezone.utc) + (blocked.retry_delay or ADMISSION_BLOCKED_RETRY_DELAY)
        await execution.schedule(reschedule_message=message_id)

    def _startup_log(self)""")),
c("nogroup-loop",("""            logger.debug("Getting redeliveries", extra=log_context)
            try:
                with self._maybe_suppress_instrumentation():
                    _, redeliveries, *_ = await redis.xautoclaim(
                        name=self.docket.stream_key,
                        groupname=self.docket.worker_group_name,
                        consumername=self.name,
                        min_idle_time=int(
                            self.redelivery_timeout.total_seconds() * 1000
                        ),
                        start_id="0-0",
                        count=available_slots,
                    )
            except ResponseError as e:
                if "NOGROUP" in str(e):
                    await self.docket._ensure_stream_and_group()
                    return await get_redeliveries(redis)
                raise  # pragma: no cover
            return [(b"__redelivery__", redeliveries)]
""","""            idle = int(self.redelivery_timeout.total_seconds() * 1000)
            while True:
                try:
                    with self._maybe_suppress_instrumentation():
                        reply = await redis.xautoclaim(
                            self.docket.stream_key,
                            self.docket.worker_group_name,
                            self.name,
                            idle,
                            start_id="0-0",
                            count=available_slots,
                        )
                    return [(b"__redelivery__", reply[1])]
                except ResponseError as e:
                    if "NOGROUP" not in str(e):
                        raise
                    await self.docket._ensure_stream_and_group()
""")),
c("poll-unrolled",("""                            for source in [get_redeliveries, get_new_deliveries]:
                                for stream_key, messages in await source(redis):
                                    is_redelivery = stream_key == b"__redelivery__"
                                    for message_id, message in messages:
                                        if not message:  # pragma: no cover
                                            continue

                                        await start_task(
                                            message_id, message, is_redelivery
                                        )

                                if available_slots <= 0:
                                    break
""","""                            for _, messages in await get_redeliveries(redis):
                                for message_id, message in messages:
                                    if message:
                                        await start_task(message_id, message, True)
                            if available_slots > 0:
                                for _, messages in await get_new_deliveries(redis):
                                    for message_id, message in messages:
                                        if message:
                                            await start_task(message_id, message)
""")),
c("slots-computed",("""            nonlocal available_slots
            available_slots -= 1
""","""            nonlocal available_slots
            available_slots = self.concurrency - len(active_tasks)
""")),
c("start-order",("""            active_tasks[task] = message_id
            task_executions[task] = execution
            self._tasks_by_key[execution.key] = task
""","""            self._tasks_by_key[execution.key] = task
            task_executions[task] = execution
            active_tasks[task] = message_id
""")),
c("renew-loop",("""        while not session.stopping.is_set():  # pragma: no branch
            if await _wait_for_event(session.stopping, renewal_interval):
                return

            message_ids = list(active_messages.values())
            if not message_ids:
                continue

            try:
                with self._maybe_suppress_instrumentation():
                    await redis.xclaim(""","""        while True:
            stopped = await _wait_for_event(session.stopping, renewal_interval)
            if stopped:
                break

            message_ids = [m for m in active_messages.values()]
            if len(message_ids) == 0:
                continue

            try:
                with self._maybe_suppress_instrumentation():
                    await redis.xclaim(""")),
c("run-restructured",("""            while not stopping.is_set():  # pragma: no branch
                try:
                    async with self.docket.redis() as redis:
                        return await self._worker_loop(redis, forever=forever)
                except ConnectionError:
                    if stopping.is_set():
                        return
                    REDIS""","""            while True:
                if stopping.is_set():
                    break
                try:
                    async with self.docket.redis() as redis:
                        await self._worker_loop(redis, forever=forever)
                    return
                except ConnectionError:
                    if stopping.is_set():
                        break
                    REDIS""")),
c("finally-helper",("""            session.stopping.set()
            if self._heartbeat_task is not None:
                await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
            self._heartbeat_task = None
            await self._remove_heartbeat()
""","""            session.stopping.set()
            await self._stop_heartbeat()
"""),("    def _startup_log(self)","""    async def _stop_heartbeat(self) -> None:
        beat = self._heartbeat_task
        self._heartbeat_task = None
        if beat:
            await cancel_task(beat, CANCEL_MSG_CLEANUP)
        await self._remove_heartbeat()

    def _startup_log(self)""")),
c("drain-wait",("""                await asyncio.gather(*active_tasks, return_exceptions=True)
""","""                await asyncio.wait(active_tasks)
""")),
c("done-order",("""                message_id = active_tasks.pop(task)
                execution = task_executions.pop(task)
                # A successor of the same key may already be running here
                if self._tasks_by_key.get(execution.key) is task:
                    del self._tasks_by_key[execution.key]
""","""                message_id, execution = active_tasks.pop(task), task_executions.pop(task)
                current = self._tasks_by_key.get(execution.key)
                if current is task:
                    self._tasks_by_key.pop(execution.key)
""")),
c("done-list",("""            completed_tasks = {task for task in active_tasks if task.done()}
            for task in completed_tasks:
""","""            for task in list(active_tasks):
                if not task.done():
                    continue
""")),
c("loop-cond",("""                    while (
                        forever or has_work or active_tasks
                    ) and not stopping.is_set():
                        await process""","""                    while not stopping.is_set():
                        if not (forever or has_work or active_tasks):
                            break
                        await process""")),
]
