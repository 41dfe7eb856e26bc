"""Refactorings of opening and closing."""
D="docket.py"; R="_redis.py"; S="_result_store.py"; SL="strikelist.py"; W="worker.py"
def c(name, *edits, f=D): return (name, f, list(edits), [])
OLD_D='''        async with AsyncExitStack() as stack:
            self.strike_list = StrikeList('''
CASES=[
c("oo-local",('        self._stack = AsyncExitStack()\n        await self._stack.__aenter__()\n\n        # Events','        stack = self._stack = AsyncExitStack()\n        await stack.__aenter__()\n\n        # Events'),f=W),
c("oo-aclose",('            await self._stack.__aexit__(exc_type, exc_value, traceback)\n','            await self._stack.aclose()\n'),f=W),
c("oo-aclose-d",('            await self._stack.__aexit__(exc_type, exc_value, traceback)\n','            await self._stack.aclose()\n')),
c("oo-method",('            self._stack = stack.pop_all()\n\n        return self\n','            self._keep(stack)\n\n        return self\n'),('    async def __aexit__(\n','    def _keep(self, stack: AsyncExitStack) -> None:\n        self._stack = stack.pop_all()\n\n    async def __aexit__(\n')),
c("oo-stack-local",('            await self._stack.__aexit__(exc_type, exc_value, traceback)\n','            stack = self._stack\n            await stack.__aexit__(exc_type, exc_value, traceback)\n')),
c("oo-try",('        async with AsyncExitStack() as stack:\n            if self._redis.is_cluster','        stack = AsyncExitStack()\n        try:\n            if self._redis.is_cluster'),('            self._stack = stack.pop_all()\n','            self._stack = stack\n        except BaseException:\n            await stack.aclose()\n            raise\n'),f=S),
c("oo-push",('            stack.push_async_callback(close_resource, self._client, "client")\n' if 0 else '                stack.push_async_callback(close_resource, self._client, "client")\n','                client = self._client\n                stack.push_async_callback(client.aclose)\n'),f=S),
c("oo-setnone",('                stack.callback(lambda: setattr(self, "_connection_pool", None))\n','                stack.callback(setattr, self, "_connection_pool", None)\n'),f=R),
c("oo-def",('                stack.callback(lambda: setattr(self, "_connection_pool", None))\n','                def disconnected() -> None:\n                    self._connection_pool = None\n\n                stack.callback(disconnected)\n'),f=R),
c("oo-early-return",('        if self._redis is None:\n            return self  # No Redis connection needed (local-only mode)\n\n        assert not self._redis.is_connected','        redis = self._redis\n        if redis is None:\n            return self  # No Redis connection needed (local-only mode)\n\n        assert not redis.is_connected'),('        await self._stack.enter_async_context(self._redis)\n','        await self._stack.enter_async_context(redis)\n'),f=SL),
c("oo-order",('            self._stack.callback(lambda: delattr(self, "_worker_done"))\n' if 0 else '        self._execution_counts: dict[str, int] = {}\n        self._stack.callback(lambda: delattr(self, "_execution_counts"))\n        self._tasks_by_key: dict[TaskKey, asyncio.Task[None]] = {}\n        self._stack.callback(lambda: delattr(self, "_tasks_by_key"))\n','        self._tasks_by_key: dict[TaskKey, asyncio.Task[None]] = {}\n        self._stack.callback(lambda: delattr(self, "_tasks_by_key"))\n        self._execution_counts: dict[str, int] = {}\n        self._stack.callback(lambda: delattr(self, "_execution_counts"))\n'),f=W),
c("oo-resetdirect",('        self._stack.callback(lambda: current_worker.reset(self._worker_token))\n','        self._stack.callback(current_worker.reset, self._worker_token)\n'),f=W),
c("oo-task-var",('        self._monitor_task = asyncio.create_task(\n            self._monitor_strikes(), name=f"{self.name} - strike monitor"\n        )\n','        monitor = asyncio.create_task(\n            self._monitor_strikes(), name=f"{self.name} - strike monitor"\n        )\n        self._monitor_task = monitor\n'),('            cancel_task, self._monitor_task, CANCEL_MSG_CLEANUP\n','            cancel_task, monitor, CANCEL_MSG_CLEANUP\n'),f=SL),
c("oo-inline-cancel",('        self._stack.push_async_callback(\n            cancel_task, self._monitor_task, CANCEL_MSG_CLEANUP\n        )\n','        self._stack.push_async_callback(self._stop_following)\n'),('    async def __aexit__(\n','    async def _stop_following(self) -> None:\n        if self._monitor_task is not None:\n            await cancel_task(self._monitor_task, CANCEL_MSG_CLEANUP)\n\n    async def __aexit__(\n'),f=SL),
c("oo-helper",('                self._result_storage = ResultStorage(\n                    self._redis, self.results_collection\n                )\n                await stack.enter_async_context(self._result_storage)\n                stack.callback(lambda: setattr(self, "_result_storage", None))\n                self.result_storage = self._result_storage\n','                await self._open_results(stack)\n'),('    async def __aexit__(\n','    async def _open_results(self, stack: AsyncExitStack) -> None:\n        storage = ResultStorage(self._redis, self.results_collection)\n        self._result_storage = storage\n        await stack.enter_async_context(storage)\n        stack.callback(lambda: setattr(self, "_result_storage", None))\n        self.result_storage = storage\n\n    async def __aexit__(\n')),
]
