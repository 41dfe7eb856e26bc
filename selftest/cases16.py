"""Cancellation of running tasks; adding; run modes."""
W="worker.py"; D="docket.py"
def c(name, *edits, f=W, ids=("C28",)): return (name, f, list(edits), list(ids))
CASES=[
c("y-pat1",('re.sub(r"([*?\\[\\]\\\\])", r"\\\\\\1", self.key("cancel:")) + "*"','self.key("cancel:*")'),f=D),
c("y-pat2",('self.key("cancel:")) + "*"','self.key("cance:")) + "*"'),f=D),
c("y-chan",('return self.key(f"cancel:{task_key}")','return self.key(f"cancelled:{task_key}")'),f=D),
c("y-pub1",('self.cancel_channel(key), key)','self.cancel_channel(key), self.name)'),f=D),
c("y-pub2",('            await self._publish(self.cancel_channel(key), key)\n','            pass\n'),f=D),
c("y-pub3",('            async with self.redis() as redis:\n                await self._cancel(redis, key)\n\n            # Publish cancellation signal for running tasks (best-effort)\n            await self._publish(self.cancel_channel(key), key)\n','            await self._publish(self.cancel_channel(key), key)\n            async with self.redis() as redis:\n                await self._cancel(redis, key)\n'),f=D),
c("y-ready1",('                    session.cancellation_ready.set()\n',''),('                await pubsub.psubscribe','                session.cancellation_ready.set()\n                    await pubsub.psubscribe') if 0 else ('                async with self.docket._pubsub() as pubsub:','                session.cancellation_ready.set()\n                async with self.docket._pubsub() as pubsub:')),
c("y-ready2",('not session.cancellation_ready.is_set()\n                        and not stopping','False\n                        and not stopping')),
c("y-ready3",('not session.cancellation_ready.is_set()\n                        and not stopping','session.cancellation_ready.is_set()\n                        and not stopping')),
c("y-nolisten",('''                    infra.create_task(
                        self._cancellation_listener(),
                        name=f"{self.docket.name} - cancellation listener",
                    )
''','                    session.cancellation_ready.set()\n')),
c("y-err1",('                if await _wait_for_event(session.stopping, 1):\n                    return\n            except Exception:','                return\n            except Exception:')),
c("y-err2",('                    "Error in cancellation listener",\n                    exc_info=True,\n                    extra=log_context,\n                )\n','                    "Error in cancellation listener",\n                    exc_info=True,\n                    extra=log_context,\n                )\n                raise\n')),
c("y-once",('                            await self._handle_cancellation(message)\n','                            await self._handle_cancellation(message)\n                            return\n')),
c("y-type",('message["type"] == "pmessage"','message["type"] == "message"')),
c("y-all",('            task.cancel()\n','            for t in self._tasks_by_key.values():\n                t.cancel()\n')),
c("y-pop",('if task := self._tasks_by_key.get(key):','if task := self._tasks_by_key.get(message["channel"]):')),
c("y-none",('            task.cancel()\n','            pass\n')),
c("y-reg1",('self._tasks_by_key[execution.key] = task','self._tasks_by_key[execution.function_name] = task')),
c("y-reg2",('            self._tasks_by_key[execution.key] = task\n','            if not is_redelivery:\n                self._tasks_by_key[execution.key] = task\n')),
c("y-reg3",('            active_tasks[task] = message_id\n','            await asyncio.sleep(0)\n            active_tasks[task] = message_id\n')),
c("y-reg4",('            task_executions[task] = execution\n            self._tasks_by_key[execution.key] = task\n','            task_executions[task] = execution\n            self._tasks_by_key[execution.key] = task\n            del self._tasks_by_key[execution.key]\n')),
c("y-reg5",('            self._tasks_by_key[execution.key] = task\n','            self._tasks_by_key.setdefault(execution.key, task)\n')),
]
CASES.append(c("y-pat3",('pattern = docket.cancel_pattern','pattern = f"{docket.prefix}:cancel:*"'),f="dependencies/_concurrency.py",ids=["C18"]))
CASES.append(c("y-pat4",('pattern = docket.cancel_pattern','pattern = docket.cancel_channel("")'),f="dependencies/_concurrency.py",ids=["C18"]))
def a(name, *edits): return c(name, *edits, f=D, ids=["C30"])
ADD='''        if when is None:
            when = datetime.now(timezone.utc)
'''
CASES+=[
a("z-noname",("            function_name = function\n            function = self.tasks[function]","            function = self.tasks[function]")),
a("z-fname",("            function_name = function\n            function = self.tasks[function]","            function = self.tasks[function]\n            function_name = function.__name__")),
a("z-noreg",("        else:\n            self.register(function)\n\n        if when","        if when")),
a("z-noreg2",("        else:\n            self.register(function)\n\n        async def","        async def")),
a("z-when",("            when = datetime.now(timezone.utc)\n\n        if key","            when = datetime.fromtimestamp(0, timezone.utc)\n\n        if key")),
a("z-when2",("        if when is None:\n            when = datetime.now","        if True:\n            when = datetime.now")),
a("z-key",("            key = str(uuid7())","            key = function.__name__")),
a("z-key2",("        if key is None:\n            key = str(uuid7())","        if function_name is None:\n            key = str(uuid7())")),
a("z-attempt",("                attempt=1,\n                function_name=function_name,\n            )\n\n            with tracer.start_as_current_span(\n                \"docket.replace","                attempt=2,\n                function_name=function_name,\n            )\n\n            with tracer.start_as_current_span(\n                \"docket.replace")),
a("z-args",("                args,\n                kwargs,\n                key,\n                when,\n                attempt=1,","                args[:1],\n                kwargs,\n                key,\n                when,\n                attempt=1,")),
a("z-kw",("                args,\n                kwargs,\n                key,\n                when,\n                attempt=1,","                args,\n                {},\n                key,\n                when,\n                attempt=1,")),
a("z-reg-order",("        validate_dependencies(function)\n\n        if not names:\n            names = [function.__name__]\n\n        for name in names:\n            self.tasks[name] = function\n","        if not names:\n            names = [function.__name__]\n\n        for name in names:\n            self.tasks[name] = function\n        validate_dependencies(function)\n")),
a("z-reg-setdefault",("            self.tasks[name] = function\n","            self.tasks.setdefault(name, function)\n")),
a("z-reg-both",("        if not names:\n            names = [function.__name__]\n","        names = [function.__name__, *(names or [])]\n")),
a("z-reg-first",("        for name in names:\n            self.tasks[name] = function\n","        self.tasks[names[0]] = function\n")),
a("z-coll",("        for function in collection:\n            self.register(function)\n","        for function in collection:\n            self.register(function)\n            break\n")),
a("z-coll2",("            self.register(function)\n\n    def labels","            self.register(function, names=[member_name])\n\n    def labels")),
a("z-late",("        else:\n            self.register(function)\n\n        if when","        if when"),("                await execution.schedule(replace=False)\n                span","                await execution.schedule(replace=False)\n                self.register(execution.function)\n                span")),
]
def m(name, *edits): return c(name, *edits, ids=["C31"])
CASES+=[
m("m-xlen",("return stream_len > 0 or queue_len > 0","return stream_len > 0 and queue_len > 0")),
m("m-zcard",("return stream_len > 0 or queue_len > 0","return stream_len > 0")),
m("m-one",("return stream_len > 0 or queue_len > 0","return stream_len > 1 or queue_len > 0")),
m("m-two",('''            async with redis.pipeline() as pipeline:
                pipeline.xlen(self.docket.stream_key)
                pipeline.zcard(self.docket.queue_key)
                results: list[int] = await pipeline.execute()
                stream_len = results[0]
                queue_len = results[1]
''','''            if True:
                stream_len = await redis.xlen(self.docket.stream_key)
                queue_len = await redis.zcard(self.docket.queue_key)
''')),
m("m-notx",("async with redis.pipeline() as pipeline:\n                pipeline.xlen","async with redis.pipeline(transaction=False) as pipeline:\n                pipeline.xlen")),
m("m-active",("if not forever and not active_tasks:\n","if not forever:\n"),("forever or has_work or active_tasks","forever or has_work")),
m("m-forever",("                            if not forever and not active_tasks:\n","                            if not active_tasks:\n"),("forever or has_work or active_tasks","has_work or active_tasks")),
m("m-mode",("return await self._run(forever=False)","return await self._run(forever=True)")),
m("m-mode2",("return await self._run(forever=True)","return await self._run()")),
m("m-mode3",("self._worker_loop(redis, forever=forever)","self._worker_loop(redis)")),
m("m-mode4",("self._worker_loop(redis, forever=forever)","self._worker_loop(redis, forever=True)")),
m("m-atmost",("            await self.run_until_finished()\n        finally","            await self.run_forever()\n        finally")),
m("m-ge",("self._execution_counts[key] >= iterations_by_key[key]","self._execution_counts[key] > iterations_by_key[key]")),
m("m-zero",("{key: 0 for key in iterations_by_key}","{key: 1 for key in iterations_by_key}")),
m("m-other",("            if key not in iterations_by_key:\n                return False","            if key not in iterations_by_key:\n                return True")),
m("m-noremove",("            self.docket.strike_list.remove_condition(has_reached_max_iterations)\n            self","            self")),
m("m-nofinally",('''        try:
            await self.run_until_finished()
        finally:
            self.docket.strike_list.remove_condition(has_reached_max_iterations)
            self._execution_counts = {}
''','''        await self.run_until_finished()
        self.docket.strike_list.remove_condition(has_reached_max_iterations)
        self._execution_counts = {}
''')),
m("m-late-add",('''        self.docket.strike_list.add_condition(has_reached_max_iterations)
        try:
            await self.run_until_finished()
''','''        try:
            await self.run_until_finished()
            self.docket.strike_list.add_condition(has_reached_max_iterations)
''')),
m("m-count2",("            self._execution_counts[execution.key] += 1","            self._execution_counts[execution.key] += 2")),
m("m-count0",("        if execution.key in self._execution_counts:\n            self._execution_counts[execution.key] += 1\n","")),
m("m-countred",("        if execution.key in self._execution_counts:\n","        if execution.key in self._execution_counts and not execution.redelivered:\n")),
m("m-countearly",("        if execution.key in self._execution_counts:\n            self._execution_counts[execution.key] += 1\n",""),("        # Atomically check supersession and claim","        if execution.key in self._execution_counts:\n            self._execution_counts[execution.key] += 1\n        # Atomically check supersession and claim")),
m("m-exit1",("        self._worker_stopping.set()\n        await self._worker_done.wait()","        await self._worker_done.wait()")),
m("m-exit2",("        await self._worker_done.wait()\n","")),
m("m-exit3",("        self._worker_stopping.set()\n        await self._worker_done.wait()","        await self._worker_done.wait()\n        self._worker_stopping.set()")),
]
