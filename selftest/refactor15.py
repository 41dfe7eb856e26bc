"""Refactorings near cancellation, adding and run modes."""
W="worker.py"; D="docket.py"
def c(name, *edits, f=W): return (name, f, list(edits), [])
CASES=[
c("ya-in",('''        if task := self._tasks_by_key.get(key):  # pragma: no branch
            logger.info(''','''        if key in self._tasks_by_key:
            task = self._tasks_by_key[key]
            logger.info(''')),
c("ya-inline",('''                            await self._handle_cancellation(message)
''','''                            data = message["data"]
                            running = self._tasks_by_key.get(data.decode() if isinstance(data, bytes) else data)
                            if running is None:
                                continue
                            running.cancel()
''')),
c("ya-helper",('''            task = asyncio.create_task(
                self._execute(execution),
                name=f"{self.docket.name} - task:{execution.key}",
            )
            active_tasks[task] = message_id
            task_executions[task] = execution
            self._tasks_by_key[execution.key] = task
''','''            task = self._spawn(execution)
            task_executions[task] = execution
            active_tasks[task] = message_id
'''),('''    async def _cancellation_listener(self)''','''    def _spawn(self, execution: Execution) -> "asyncio.Task[None]":
        key = execution.key
        self._tasks_by_key[key] = running = asyncio.create_task(self._execute(execution), name=f"{self.docket.name} - task:{key}")
        return running

    async def _cancellation_listener(self)''')),
c("ya-early",('''                        if message is not None and message["type"] == "pmessage":
                            await self._handle_cancellation(message)''','''                        if message is None:
                            continue
                        if message["type"] != "pmessage":
                            continue
                        await self._handle_cancellation(message)''')),
c("ya-wait",('''                    while (
                        not session.cancellation_ready.is_set()
                        and not stopping.is_set()
                    ):
                        await _wait_for_event(session.cancellation_ready, 0.1)
''','''                    while not stopping.is_set():
                        if await _wait_for_event(session.cancellation_ready, 0.1):
                            break
''')),
c("ya-pubfirst",('''            # Publish cancellation signal for running tasks (best-effort)
            await self._publish(self.cancel_channel(key), key)
''','''            channel = self.cancel_channel(key)
            await self._publish(channel, key)
'''),f=D),
c("ya-escape",('return re.sub(r"([*?\\[\\]\\\\])", r"\\\\\\1", self.key("cancel:")) + "*"','''own = self.cancel_channel("")
        return re.sub(r"([*?\\[\\]\\\\])", r"\\\\\\1", own) + "*"'''),f=D),
c("ya-except",('''            except ConnectionError:
                if session.stopping.is_set():
                    return  # pragma: no cover
                REDIS_DISRUPTIONS.add(1, self.labels())
                logger.warning(
                    "Redis connection error in cancellation listener, reconnecting...",
                    extra=log_context,
                )
                if await _wait_for_event(session.stopping, 1):
                    return
            except Exception:
                if session.stopping.is_set():
                    return  # pragma: no cover
                logger.exception(
                    "Error in cancellation listener",
                    exc_info=True,
                    extra=log_context,
                )
                if await _wait_for_event(session.stopping, 1):
                    return
''','''            except Exception as error:
                if session.stopping.is_set():
                    break
                if isinstance(error, ConnectionError):
                    REDIS_DISRUPTIONS.add(1, self.labels())
                    logger.warning(
                        "Redis connection error in cancellation listener, reconnecting...",
                        extra=log_context,
                    )
                else:
                    logger.exception("Error in cancellation listener", extra=log_context)
                await _wait_for_event(session.stopping, 1)
''')),
]
def d(name, *edits): return c(name, *edits, f=D)
CASES+=[
d("za-resolve",('''        function_name: str | None = None
        if isinstance(function, str):
            function_name = function
            function = self.tasks[function]
        else:
            self.register(function)

        if when is None:
            when = datetime.now(timezone.utc)

        if key is None:
            key = str(uuid7())
''','''        task, function_name = self._resolve(function)
        due = when if when is not None else datetime.now(timezone.utc)
        task_key = str(uuid7()) if key is None else key
'''),('''                self,
                function,
                args,
                kwargs,
                key,
                when,
                attempt=1,
                function_name=function_name,
            )

            with tracer.start_as_current_span(
                "docket.add",''','''                docket=self,
                function=task,
                args=args,
                kwargs=kwargs,
                key=task_key,
                when=due,
                attempt=1,
                function_name=function_name,
            )

            with tracer.start_as_current_span(
                "docket.add",'''),('''    def labels(self)''','''    def _resolve(self, function: "TaskFunction | str") -> "tuple[TaskFunction, str | None]":
        if isinstance(function, str):
            return self.tasks[function], function
        self.register(function)
        return function, None

    def labels(self)''')),
d("za-name",('''            function_name = function
            function = self.tasks[function]
        else:
            self.register(function)

        if when''','''            function_name = function
            function = self.tasks[function_name]
        else:
            self.register(function)
            function_name = function.__name__

        if when''')),
d("za-names",('''        if not names:
            names = [function.__name__]

        for name in names:
            self.tasks[name] = function
''','''        for name in names or [function.__name__]:
            self.tasks[name] = function
''')),
d("za-update",('''        if not names:
            names = [function.__name__]

        for name in names:
            self.tasks[name] = function
''','''        if names:
            for name in names:
                self.tasks[name] = function
            return
        self.tasks[function.__name__] = function
''')),
d("za-dict",('''        for name in names:
            self.tasks[name] = function
''','''        self.tasks.update({name: function for name in names})
''')),
d("za-or",('''        if when is None:
            when = datetime.now(timezone.utc)

        if key is None:
            key = str(uuid7())
''','''        when = when or datetime.now(timezone.utc)
        key = str(uuid7()) if key is None else key
''')),
d("za-one",('''        async def scheduler(*args: P.args, **kwargs: P.kwargs) -> Execution:
            execution = Execution(
                self,
                function,
                args,
                kwargs,
                key,
                when,
                attempt=1,
                function_name=function_name,
            )

            with tracer.start_as_current_span(
                "docket.replace",''','''        async def scheduler(*args: P.args, **kwargs: P.kwargs) -> Execution:
            execution = self._first(function, function_name, args, kwargs, key, when)

            with tracer.start_as_current_span(
                "docket.replace",'''),('''    def labels(self)''','''    def _first(self, function, name, args, kwargs, key, when) -> Execution:
        return Execution(self, function, args, kwargs, key, when, 1, function_name=name)

    def labels(self)''')),
]
CASES+=[
c("zm-work",("return stream_len > 0 or queue_len > 0","return bool(stream_len or queue_len)")),
c("zm-work2",('''                results: list[int] = await pipeline.execute()
                stream_len = results[0]
                queue_len = results[1]
                return stream_len > 0 or queue_len > 0
''','''                return any(size > 0 for size in await pipeline.execute())
''')),
c("zm-work3",('''                results: list[int] = await pipeline.execute()
                stream_len = results[0]
                queue_len = results[1]
                return stream_len > 0 or queue_len > 0
''','''                queued, scheduled = await pipeline.execute()
                return queued + scheduled > 0
''')),
c("zm-limit",('''            if key not in iterations_by_key:
                return False

            if self._execution_counts[key] >= iterations_by_key[key]:
                return True

            return False
''','''            return (
                key in iterations_by_key
                and self._execution_counts[key] >= iterations_by_key[key]
            )
''')),
c("zm-limit2",('''            key = execution.key

            if key not in iterations_by_key:
                return False

            if self._execution_counts[key] >= iterations_by_key[key]:
                return True

            return False
''','''            limit = iterations_by_key.get(execution.key)
            if limit is None:
                return False
            return not self._execution_counts[execution.key] < limit
''')),
c("zm-fromkeys",("{key: 0 for key in iterations_by_key}","dict.fromkeys(iterations_by_key, 0)")),
c("zm-count",('''        if execution.key in self._execution_counts:
            self._execution_counts[execution.key] += 1
''','''        key = execution.key
        if key in self._execution_counts:
            self._execution_counts[key] = self._execution_counts[key] + 1
''')),
c("zm-count2",('''        if execution.key in self._execution_counts:
            self._execution_counts[execution.key] += 1
''','''        self._count(execution)
'''),('''    async def _cancellation_listener(self)''','''    def _count(self, execution: Execution) -> None:
        ran = self._execution_counts.get(execution.key)
        if ran is not None:
            self._execution_counts[execution.key] = ran + 1

    async def _cancellation_listener(self)''')),
c("zm-loop",('''                    while (
                        forever or has_work or active_tasks
                    ) and not stopping.is_set():
                        await process''','''                    while not stopping.is_set():
                        if not (forever or has_work or active_tasks):
                            break
                        await process''')),
c("zm-run",("            await self.run_until_finished()\n        finally","            await self._run(forever=False)\n        finally")),
]
