"""Edits of retries, perpetuals, crons, timeouts and seeding that change no behaviour."""
R="dependencies/_retry.py"; P="dependencies/_perpetual.py"; C="dependencies/_cron.py"; T="dependencies/_timeout.py"; W="worker.py"
def c(name, *edits, f=R): return (name, f, list(edits), [])
CASES=[
c("rt-remaining",("        if self.attempts is not None and execution.attempt >= self.attempts:\n            return False\n","        if not self._attempts_remain(execution):\n            return False\n"),("    def after(self, delay","    def _attempts_remain(self, execution) -> bool:\n        if self.attempts is None:\n            return True\n        remaining = self.attempts - execution.attempt\n        return remaining > 0\n\n    def after(self, delay")),
c("rt-nested",("        if await execution.is_superseded():\n            return False\n\n        execution.when = datetime.now(timezone.utc) + self.delay\n        execution.attempt += 1\n","        superseded = await execution.is_superseded()\n        if superseded:\n            return False\n\n        now = datetime.now(timezone.utc)\n        execution.attempt = 1 + execution.attempt\n        execution.when = self.delay + now\n")),
c("rt-min",("            try:\n                calculated_delay = self.delay * backoff_factor\n            except OverflowError:\n                # After enough attempts the product no longer fits a timedelta\n                calculated_delay = self.maximum_delay\n\n            if calculated_delay > self.maximum_delay:\n                retry.delay = self.maximum_delay\n            else:\n                retry.delay = calculated_delay\n",
 "            try:\n                retry.delay = min(self.delay * backoff_factor, self.maximum_delay)\n            except OverflowError:\n                retry.delay = self.maximum_delay\n")),
c("rt-shift",("2 ** (execution.attempt - 1)","1 << (execution.attempt - 1)")),
c("rt-order",("if calculated_delay > self.maximum_delay:\n                retry.delay = self.maximum_delay\n            else:\n                retry.delay = calculated_delay","if self.maximum_delay >= calculated_delay:\n                retry.delay = calculated_delay\n            else:\n                retry.delay = self.maximum_delay")),
c("rt-helper",("        if execution.attempt > 1:\n            backoff_factor = 2 ** (execution.attempt - 1)\n            try:\n                calculated_delay = self.delay * backoff_factor\n            except OverflowError:\n                # After enough attempts the product no longer fits a timedelta\n                calculated_delay = self.maximum_delay\n\n            if calculated_delay > self.maximum_delay:\n                retry.delay = self.maximum_delay\n            else:\n                retry.delay = calculated_delay\n\n        return retry",
 "        retry.delay = self._delay_for(execution.attempt)\n        return retry\n\n    def _delay_for(self, attempt: int) -> timedelta:\n        if attempt <= 1:\n            return self.delay\n        try:\n            grown = self.delay * 2 ** (attempt - 1)\n        except OverflowError:\n            return self.maximum_delay\n        return self.maximum_delay if grown > self.maximum_delay else grown")),
c("rt-at-max",("        diff = when - now\n        diff = diff if diff.total_seconds() >= 0 else timedelta(0)\n        self.after(diff)","        self.after(max(when - now, timedelta(0)))")),
c("rt-at-if",("        diff = diff if diff.total_seconds() >= 0 else timedelta(0)\n","        if diff < timedelta(0):\n            diff = timedelta(0)\n")),
c("pp-if-else",("            when = max(now, now + self.every - outcome.duration)","            elapsed = outcome.duration\n            when = now if elapsed > self.every else now + (self.every - elapsed)"),f=P),
c("pp-max0",("            when = max(now, now + self.every - outcome.duration)","            when = now + max(timedelta(0), self.every - outcome.duration)"),f=P),
c("pp-none",("        if self._next_when:\n            when = self._next_when\n        else:\n","        when = self._next_when\n        if when is None:\n"),f=P),
c("pp-helper",("        if self.cancelled:\n            docket = current_docket.get()\n            async with docket.redis() as redis:\n                await docket._cancel(redis, execution.key)\n            return False\n","        if self.cancelled:\n            await self._withdraw(execution)\n            return False\n"),("    async def on_complete(self","    async def _withdraw(self, execution: Execution) -> None:\n        docket = current_docket.get()\n        async with docket.redis() as redis:\n            await docket._cancel(redis, execution.key)\n\n    async def on_complete(self"),f=P),
c("pp-kw",("docket.replace(execution.function, when, execution.key)","docket.replace(execution.function, key=execution.key, when=when)"),f=P),
c("cr-next-when",("        self.at(self.next_time())\n        return","        self._next_when = self.next_time()\n        return"),f=C),
c("cr-in",("        self.expression = VIXIE_KEYWORDS.get(expression, expression)\n","        if expression in VIXIE_KEYWORDS:\n            expression = VIXIE_KEYWORDS[expression]\n        self.expression = expression\n"),f=C),
c("cr-restart",("        self._iterator = CronSim(self.expression, datetime.now(self.tz))\n\n    async","        self._restart()\n\n    def _restart(self) -> None:\n        now = datetime.now(self.tz)\n        self._iterator = CronSim(self.expression, now)\n\n    async"),("        self._iterator = CronSim(self.expression, datetime.now(self.tz))\n        return self.next_time()","        self._restart()\n        return self.next_time()"),f=C),
c("to-loop",("            while not task.done():\n                if self.expired():\n                    timed_out = True\n                    break\n\n                try:\n                    return await asyncio.wait_for(\n                        asyncio.shield(task), timeout=self.remaining().total_seconds()\n                    )\n                except asyncio.TimeoutError:\n                    continue\n            else:\n                # The task finished on its own, possibly by raising a TimeoutError\n                return await task\n",
 "            while True:\n                if task.done():\n                    return await task\n                if self.expired():\n                    timed_out = True\n                    break\n                try:\n                    return await asyncio.wait_for(\n                        asyncio.shield(task), timeout=self.remaining().total_seconds()\n                    )\n                except asyncio.TimeoutError:\n                    pass\n"),f=T),
c("to-deadline",("        return timedelta(seconds=self._deadline - time.monotonic())","        now = time.monotonic()\n        return timedelta(seconds=self._deadline - now)"),("        return time.monotonic() >= self._deadline","        return self._deadline <= time.monotonic()"),f=T),
c("to-expired-remaining",("        return time.monotonic() >= self._deadline","        return self.remaining().total_seconds() <= 0"),f=T),
c("to-extend",("        if by is None:\n            by = self.base\n        self._deadline += by.total_seconds()","        extension = self.base if by is None else by\n        self._deadline = self._deadline + extension.total_seconds()"),f=T),
c("to-wait",("                try:\n                    return await asyncio.wait_for(\n                        asyncio.shield(task), timeout=self.remaining().total_seconds()\n                    )\n                except asyncio.TimeoutError:\n                    continue\n","                await asyncio.wait({task}, timeout=self.remaining().total_seconds())\n"),f=T),
c("au-nolive",("                            if await self._automatic_perpetual_is_live(redis, key):\n                                continue\n",""),f=W),
c("au-guard",("                        if perpetual is not None and perpetual.automatic:\n                            key = task_function.__name__\n","                        if perpetual is None:\n                            continue\n                        if perpetual.automatic:\n                            key = task_function.__name__\n"),f=W),
c("au-live-inline",("        if (await redis.hget(runs_key, \"known\")) is not None:\n            return True\n        return (await redis.hget(runs_key, \"state\")) == b\"running\"","        known = await redis.hget(runs_key, \"known\")\n        if known is None:\n            state = await redis.hget(runs_key, \"state\")\n            return state == b\"running\"\n        return True"),f=W),
c("au-list",("                    for task_function in self.docket.tasks.values():\n","                    for task_function in list(self.docket.tasks.values()):\n"),f=W),
c("au-loop",("        while not session.stopping.is_set():  # pragma: no branch\n            if await _wait_for_event(\n                session.stopping, AUTOMATIC_PERPETUAL_RESEED_INTERVAL_SECONDS\n            ):\n                return\n","        while True:\n            stopped = await _wait_for_event(\n                session.stopping, AUTOMATIC_PERPETUAL_RESEED_INTERVAL_SECONDS\n            )\n            if stopped:\n                break\n"),f=W),
]
