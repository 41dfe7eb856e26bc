"""Retries, perpetuals, crons, timeouts, automatic seeding."""
R="dependencies/_retry.py"; P="dependencies/_perpetual.py"; C="dependencies/_cron.py"; T="dependencies/_timeout.py"; W="worker.py"
def c(name, ids, *edits, f=R): return (name, f, list(edits), ids)
CASES=[
c("rt-off-by-one",["C20"],("execution.attempt >= self.attempts","execution.attempt > self.attempts")),
c("rt-none",["C20"],("if self.attempts is not None and execution","if self.attempts and execution")),
c("rt-nosuper",["C20"],("        if await execution.is_superseded():\n            return False\n","")),
c("rt-noinc",["C20"],("execution.attempt += 1","pass")),
c("rt-when",["C20"],("execution.when = datetime.now(timezone.utc) + self.delay","execution.when = execution.when + self.delay")),
c("rt-noack",["C20"],("reschedule_message=execution.message_id","reschedule_message=None")),
c("rt-false",["C20"],("            execution.call_repr(),\n        )\n\n        return True","            execution.call_repr(),\n        )\n\n        return False")),
c("rt-shared",["C20"],("        retry = Retry(attempts=self.attempts, delay=self.delay)\n","        retry = self\n")),
c("rt-exp-attempts",["C20"],("        retry = ExponentialRetry(\n            attempts=self.attempts,","        retry = ExponentialRetry(\n            attempts=self.attempts or 1,")),
c("rt-exp-factor",["C20"],("2 ** (execution.attempt - 1)","2 ** execution.attempt")),
c("rt-exp-cap",["C20"],("if calculated_delay > self.maximum_delay:","if calculated_delay < self.maximum_delay:")),
c("rt-exp-nocap",["C20"],("                retry.delay = self.maximum_delay\n            else:","                retry.delay = calculated_delay\n            else:")),
c("rt-exp-overflow",["C20"],("            except OverflowError:","            except ValueError:")),
c("rt-exp-from2",["C20"],("if execution.attempt > 1:","if execution.attempt > 2:")),
c("rt-after",["C20"],("        self.delay = delay\n        raise ForcedRetry()","        raise ForcedRetry()")),
c("rt-at-past",["C20"],("diff = diff if diff.total_seconds() >= 0 else timedelta(0)","diff = abs(diff)")),
c("rt-at-sign",["C20"],("diff = when - now","diff = now - when")),
c("rt-forever",["C20"],("        return cls(attempts=None, delay=delay)","        return cls(delay=delay)")),
c("rt-forever-exp",["C20"],("        return cls(attempts=None, minimum_delay=delay","        return cls(attempts=100, minimum_delay=delay")),
c("rt-attempt",["C20"],("        retry = Retry(attempts=self.attempts, delay=self.delay)\n        retry.attempt = execution.attempt\n","        retry = Retry(attempts=self.attempts, delay=self.delay)\n")),
c("pp-add",["C21"],("await docket.replace(function, when, execution.key)","await docket.add(function, when, execution.key)"),f=P),
c("pp-key",["C21"],("await docket.replace(function, when, execution.key)","await docket.replace(function, when, execution.function_name)"),f=P),
c("pp-failed",["C21"],("        if self._next_when:\n","        if outcome.exception:\n            return False\n        if self._next_when:\n"),f=P),
c("pp-notrue",["C21"],("            execution.call_repr(),\n        )\n\n        return True","            execution.call_repr(),\n        )\n\n        return False"),f=P),
c("pp-drift",["C21"],("when = max(now, now + self.every - outcome.duration)","when = now + self.every"),f=P),
c("pp-past",["C21"],("when = max(now, now + self.every - outcome.duration)","when = now + self.every - outcome.duration"),f=P),
c("pp-min",["C21"],("max(now, now + self.every","min(now, now + self.every"),f=P),
c("pp-args",["C21"],("            *self.args,\n            **self.kwargs,","            *execution.args,\n            **execution.kwargs,"),f=P),
c("pp-kwargs",["C21"],("        self.args = args\n        self.kwargs = kwargs\n","        self.args = args\n        self.kwargs = {**self.kwargs, **kwargs}\n"),f=P),
c("pp-cancel-schedules",["C21"],("                await docket._cancel(redis, execution.key)\n            return False","                await docket._cancel(redis, execution.key)"),f=P),
c("pp-cancel-nothing",["C21"],("            async with docket.redis() as redis:\n                await docket._cancel(redis, execution.key)\n            return False","            return False"),f=P),
c("pp-cancel-true",["C21"],("                await docket._cancel(redis, execution.key)\n            return False","                await docket._cancel(redis, execution.key)\n            return True"),f=P),
c("pp-super",["C21"],("if await execution.is_superseded():","if outcome.exception and await execution.is_superseded():"),f=P),
c("pp-super-false",["C21"],("                execution.call_repr(),\n            )\n            return True","                execution.call_repr(),\n            )\n            return False"),f=P),
c("pp-shared",["C21"],("        perpetual = Perpetual(every=self.every, automatic=self.automatic)\n","        perpetual = self\n"),f=P),
c("pp-every",["C21"],("        perpetual = Perpetual(every=self.every, automatic=self.automatic)\n","        perpetual = Perpetual(automatic=self.automatic)\n"),f=P),
c("pp-after",["C21"],("        self._next_when = datetime.now(timezone.utc) + delay","        self.every = delay"),f=P),
c("cr-shared",["C21"],("        cron = Cron(expression=self.expression, automatic=self.automatic, tz=self.tz)","        cron = self"),f=C),
c("cr-notz",["C21"],("CronSim(self.expression, datetime.now(self.tz))\n\n    async","CronSim(self.expression, datetime.now(timezone.utc))\n\n    async"),f=C),
c("cr-initial-notz",["C21"],("        self._iterator = CronSim(self.expression, datetime.now(self.tz))\n        return self.next_time()","        self._iterator = CronSim(self.expression, datetime.now(timezone.utc))\n        return self.next_time()"),f=C),
c("cr-aenter-notz",["C21"],("automatic=self.automatic, tz=self.tz)","automatic=self.automatic)"),f=C),
c("cr-initial",["C21"],("        self._iterator = CronSim(self.expression, datetime.now(self.tz))\n        return self.next_time()","        return self.next_time()"),f=C),
c("cr-weekly",["C21"],('"@weekly": "0 0 * * 0"','"@weekly": "0 0 * * 1"'),f=C),
c("cr-raw",["C21"],("self.expression = VIXIE_KEYWORDS.get(expression, expression)","self.expression = expression"),f=C),
c("cr-complete",["C21"],("        self.at(self.next_time())\n",""),f=C),
c("cr-args",["C21"],("        cron.kwargs = execution.kwargs\n","        cron.kwargs = {}\n"),f=C),
c("to-early",["C37"],("return time.monotonic() >= self._deadline","return time.monotonic() >= self._deadline - 1"),f=T),
c("to-noshield",["C37"],("asyncio.shield(task), timeout","task, timeout"),f=T),
c("to-base",["C37"],("timeout=self.remaining().total_seconds()","timeout=self.base.total_seconds()"),f=T),
c("to-reset",["C37"],("        self._deadline += by.total_seconds()","        self._deadline = time.monotonic() + by.total_seconds()"),f=T),
c("to-extend-none",["C37"],("            by = self.base\n","            return\n"),f=T),
c("to-swallow",["C37"],("                except asyncio.TimeoutError:\n                    continue","                except asyncio.TimeoutError:\n                    timed_out = True\n                    break"),f=T),
c("to-swallow2",["C37"],("                except asyncio.TimeoutError:\n                    continue","                except (asyncio.TimeoutError, asyncio.CancelledError):\n                    continue"),f=T),
c("to-notraise",["C37"],("                if timed_out:  # pragma: no branch\n                    raise asyncio.TimeoutError(timeout_reason)\n",""),f=T),
c("to-alwaysraise",["C37"],("                if timed_out:  # pragma: no branch\n                    raise","                if True:\n                    raise"),f=T),
c("to-nocancel",["C37"],("                await cancel_task(task, timeout_reason)\n",""),f=T),
c("to-noawait",["C37"],("                await cancel_task(task, timeout_reason)\n","                task.cancel(timeout_reason)\n"),f=T),
c("to-nodone",["C37"],("            while not task.done():","            while True:"),f=T),
c("to-shared",["C37"],("        return Timeout(base=self.base)","        return self"),f=T),
c("to-finally",["C37"],("            else:\n                # The task finished on its own, possibly by raising a TimeoutError\n                return await task\n",""),f=T),
c("au-all",["C40"],("if perpetual is not None and perpetual.automatic:","if perpetual is not None:"),f=W),
c("au-when",["C40"],("task_function, when=perpetual.initial_when, key=key","task_function, key=key"),f=W),
c("au-key",["C40"],("task_function, when=perpetual.initial_when, key=key","task_function, when=perpetual.initial_when"),f=W),
c("au-break",["C40"],("                            if await self._automatic_perpetual_is_live(redis, key):\n                                continue","                            if await self._automatic_perpetual_is_live(redis, key):\n                                break"),f=W),
c("au-strikes",["C40"],("        await self.docket.wait_for_strikes_loaded()\n\n        async with self.docket.redis() as redis:\n            try:\n                async with redis.lock","        async with self.docket.redis() as redis:\n            try:\n                async with redis.lock"),f=W),
c("au-lock",["C40"],("            except LockError:  # pragma: no cover\n                return\n","            except ValueError:\n                return\n"),f=W),
c("au-once",["C40"],("                await self._schedule_all_automatic_perpetual_tasks()\n            except Exception:  # pragma: no cover","                await self._schedule_all_automatic_perpetual_tasks()\n                return\n            except Exception:"),f=W),
c("au-raises",["C40"],("            except Exception:  # pragma: no cover\n                logger.exception(\n                    \"Error re-seeding","            except LockError:\n                logger.exception(\n                    \"Error re-seeding"),f=W),
c("au-noreseed",["C40"],("                        infra.create_task(\n                            self._reseed_automatic_perpetual_tasks_loop(),\n                            name=f\"{self.docket.name} - automatic perpetual reseed\",\n                        )\n",""),f=W),
c("au-noseed",["C40"],("                        await self._schedule_all_automatic_perpetual_tasks()\n                        infra","                        infra"),f=W),
c("au-always",["C40"],("                    if self.schedule_automatic_tasks:","                    if self.schedule_automatic_tasks or True:"),f=W),
]
