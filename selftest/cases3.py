S="strikelist.py"; W="worker.py"; D="docket.py"
def c(name, ids, *edits, f=S): return (name, f, list(edits), ids)
CASES=[
c("op-le",["C09"],("return value <= strike_value","return value < strike_value")),
c("op-between",["C09"],("return lower <= value <= upper","return lower <= value < upper")),
c("op-swap",["C09"],("return value > strike_value","return strike_value > value")),
c("op-typeerror",["C09"],("except (ValueError, TypeError):","except ValueError:")),
c("op-typeerror-true",["C09"],("                exc_info=True,\n            )\n            return False","                exc_info=True,\n            )\n            return True")),
c("m-defaults",["C09"],("            bound_args.apply_defaults()\n","")),
c("m-extra",["C09"],("                if k not in bound_args.arguments\n","                if k in bound_args.arguments\n")),
c("m-global",["C09"],("for strike_source in [task_strikes, self.parameter_strikes]:\n                if parameter not in strike_source:\n                    continue","for strike_source in [task_strikes, self.parameter_strikes]:\n                if parameter not in strike_source:\n                    break")),
c("m-first",["C09"],("                    if self._is_match(argument, operator, strike_value):\n                        return True\n\n        return False\n\n    def _is_match","                    return self._is_match(argument, operator, strike_value)\n\n        return False\n\n    def _is_match")),
c("m-bind",["C09"],("            # If we can't make sense of the arguments, just assume the task is fine\n            return False","            # If we can't make sense of the arguments, just assume the task is fine\n            return True")),
c("m-all",["C09"],("return any(condition(target) for condition in self._conditions)","return all(condition(target) for condition in self._conditions)")),
c("m-cond0",["C09"],("self._conditions.insert(0, condition)","self._conditions[0:1] = [condition]")),
c("r-all",["C09"],("                parameter_strikes.remove((restore.operator, restore.value))\n            except KeyError:\n                pass\n\n            if not parameter_strikes:\n                task_strikes.pop","                parameter_strikes.clear()\n            except KeyError:\n                pass\n\n            if not parameter_strikes:\n                task_strikes.pop")),
c("r-entire",["C09"],("            self._entirely_struck.discard(restore.function)\n","            self._entirely_struck.discard(restore.function)\n            self.task_strikes.pop(restore.function, None)\n")),
c("r-popall",["C09"],("                task_strikes.pop(restore.parameter, None)\n                if not task_strikes and","                task_strikes.pop(restore.parameter, None)\n                self._entirely_struck.discard(restore.function)\n                if not task_strikes and")),
c("r-global-pop",["C09"],("            if not parameter_strikes:\n                self.parameter_strikes.pop(restore.parameter, None)","            self.parameter_strikes.pop(restore.parameter, None)")),
c("r-keyerror",["C09"],("            try:\n                parameter_strikes = self.parameter_strikes[restore.parameter]\n            except KeyError:\n                return\n","            parameter_strikes = self.parameter_strikes[restore.parameter]\n")),
c("msg-param",["C09"],("        if self.parameter:\n            message[b\"parameter\"]","        if self.parameter and self.function:\n            message[b\"parameter\"]")),
c("msg-dir",["C09"],("        if direction == \"strike\":","        if direction != \"restore\" and function:")),
c("msg-op",["C09"],("return Restore(function, parameter, operator, value)","return Restore(function, parameter, Operator.EQUAL, value)")),
c("u-hash",["C09"],("        except TypeError:\n            logger.warning(\n                \"Incompatible type for strike condition: %s %r\"","        except ValueError:\n            logger.warning(\n                \"Incompatible type for strike condition: %s %r\"")),
c("d-global",["C09"],("            if parameter not in self.parameter_strikes:\n                continue\n\n            for operator, strike_value in self.parameter_strikes[parameter]:\n                if self._is_match(argument, operator, strike_value):\n                    return True\n","            if parameter not in self.parameter_strikes:\n                return False\n\n            for operator, strike_value in self.parameter_strikes[parameter]:\n                if self._is_match(argument, operator, strike_value):\n                    return True\n")),
c("l-start",["C10"],("last_id = \"0-0\"","last_id = \"$\"")),
c("l-first-batch",["C10"],("        if not streams and not initial_load_complete:","        if not initial_load_complete:")),
c("l-never",["C10"],("            self._strikes_loaded.set()\n","")),
c("l-block",["C10"],("block=60_000 if initial_load_complete else None","block=60_000")),
c("l-reset",["C10"],("            try:\n                async with self._redis.client() as r:\n                    while True:\n                        last_id,","            try:\n                last_id = \"0-0\"\n                async with self._redis.client() as r:\n                    while True:\n                        last_id,")),
c("l-dies",["C10"],("            except Exception:  # pragma: no cover\n                logger.exception(\"Error monitoring strikes\")\n                await asyncio.sleep(1)","            except Exception:  # pragma: no cover\n                logger.exception(\"Error monitoring strikes\")\n                raise")),
c("l-lastid",["C10"],("                last_id = message_id\n                instruction","                instruction")),
c("l-skip",["C10"],("                self.update(instruction)\n                logger","                if initial_load_complete or instruction.direction == \"strike\":\n                    self.update(instruction)\n                logger")),
c("s-noapply",["C10"],("        self.update(instruction)\n\n    async def strike","        if instruction.direction == 'strike':\n            self.update(instruction)\n\n    async def strike")),
c("s-order",["C10"],("        async with self._redis.client() as r:\n            await r.xadd(","        self.update(instruction)\n        async with self._redis.client() as r:\n            await r.xadd("),("  # type: ignore[arg-type]\n\n        self.update(instruction)\n","  # type: ignore[arg-type]\n")),
c("s-wait",["C10"],("        await self._strikes_loaded.wait()","        if not self._monitor_task:\n            await self._strikes_loaded.wait()")),
c("d-name",["C10"],("function_name = function.__name__ if callable(function) else function\n\n        instruction = Restore","function_name = str(function) if callable(function) else function\n\n        instruction = Restore"),f=D),
c("d-nowait",["C10"],("        await self.docket.wait_for_strikes_loaded()\n",""),f=W),
c("d-listname",["C10"],("            url=self.url,\n            name=self.name,\n            enable","            url=self.url,\n            enable"),f=D),
c("g-add",["C08"],("                if self.strike_list.is_stricken(execution):\n                    logger.warning(","                if when is None and self.strike_list.is_stricken(execution):\n                    logger.warning("),f=D),
c("g-after",["C08"],("            # Schedule atomically (includes state record write)","            # Schedule atomically (inc"),("            # Check if task is stricken before scheduling\n            if self.strike_list.is_stricken(execution):","            if execution.attempt == 1 and self.strike_list.is_stricken(execution):"),f=D),
c("g-claim-first",["C08"],("        if self.docket.strike_list.is_stricken(execution):\n            async","        claimed = await execution.claim(self.name)\n        if self.docket.strike_list.is_stricken(execution):\n            async"),("if not await execution.claim(self.name):","if not claimed:"),f=W),
c("g-redelivered",["C08"],("        if self.docket.strike_list.is_stricken(execution):\n            async","        if not execution.redelivered and self.docket.strike_list.is_stricken(execution):\n            async"),f=W),
c("g-noend",["C08"],("            await execution.mark_as_cancelled()\n            logger.warning(\"🗙","            logger.warning(\"🗙"),f=W),
c("g-nokey",["C08"],("            async with self.docket.redis() as redis:\n                await self._delete_known_task(redis, execution)\n\n            await execution.mark","            await execution.mark"),f=W),
c("g-sid",["C08"],("        await redis.hdel(runs_key, \"known\", \"stream_id\")","        await redis.hdel(runs_key, \"known\")"),f=W),
c("g-disp",["C08"],("                    execution.disposition = Disposition.STRUCK\n                    span","                    execution.disposition = Disposition.ALREADY_SCHEDULED\n                    span"),f=D),
]
