W="worker.py"
def c(name, ids, *edits): return (name, W, list(edits), ids)
CASES=[
c("x-runtime-twice",["C07"],("if runtime:\n                        result = await runtime.run(","if runtime:\n                        await execution.function(*execution.args, **final_kwargs)\n                        result = await runtime.run(")),
c("x-no-claim",["C07"],("if not await execution.claim(self.name):","if not await execution.claim(self.name) and execution.attempt == 1:")),
c("x-dep-fail-ignored",["C07"],("                    if dependency_failures:\n","                    if len(dependency_failures) > 1:\n")),
c("x-block-swallowed",["C07"],("                span.set_status(Status(StatusCode.OK))\n                raise\n","                span.set_status(Status(StatusCode.OK))\n                if not execution.redelivered:\n                    raise\n")),
c("x-cancel-nomark",["C07"],("                await execution.mark_as_cancelled()\n                logger.info(\n                    \"✗","                if not execution._acked: pass\n                logger.info(\n                    \"✗")),
c("x-fail-both",["C07"],("                    # Don't mark as failed - task is being retried\n                    pass","                    await execution.mark_as_failed(str(e))")),
c("x-handler-skip",["C07"],("                if failure_handler and await failure_handler.handle_failure(","                if failure_handler and not execution.redelivered and await failure_handler.handle_failure(")),
c("x-complete-handler-nomark",["C07"],("                        await execution.mark_as_completed(result_key=None)","                        pass")),
c("x-workerdeps",["C07"],("                        if not k.startswith(\"__worker_dep__\")","                        if True")),
c("x-args-drop",["C07"],("                        result = await execution.function(\n                            *execution.args, **final_kwargs","                        result = await execution.function(\n                            **final_kwargs")),
c("x-kwargs-order",["C07"],("final_kwargs = {**execution.kwargs, **task_dependencies}","final_kwargs = {**task_dependencies}")),
c("x-cancel-escape",["C07"],("            except asyncio.CancelledError:\n                # Task was cancelled externally via docket.cancel()","            except asyncio.CancelledError:\n                if self._worker_stopping.is_set():\n                    raise\n                # Task was cancelled externally via docket.cancel()")),
c("x-fail-on-cancel",["C07"],("                await execution.mark_as_cancelled()\n                logger.info(\n                    \"✗","                await execution.mark_as_failed('cancelled')\n                logger.info(\n                    \"✗")),
c("x-oncomplete-skips-failed",["C07"],("                        # Handler took responsibility (rescheduled, logged, recorded metrics)\n                        pass","                        return")),

c("l-slots-not-decremented",["C12"],("            available_slots -= 1","            available_slots -= 0 if is_redelivery else 1")),
c("l-no-check",["C12"],("                        if available_slots <= 0:\n                            await asyncio.sleep(","                        if available_slots < 0:\n                            await asyncio.sleep(")),
c("l-no-inner-break",["C12"],("                                if available_slots <= 0:\n                                    break\n","")),
c("l-conc-plus",["C12"],("available_slots = self.concurrency - len(active_tasks)\n                        if","available_slots = self.concurrency - len(active_tasks) + 1\n                        if")),
c("l-count-conc",["C12"],("                        block=int(self.minimum_check_interval.total_seconds() * 1000),\n                        count=available_slots","                        block=int(self.minimum_check_interval.total_seconds() * 1000),\n                        count=self.concurrency")),
c("l-untracked",["C12","C13","C14","C24"],("            active_tasks[task] = message_id\n","            if not is_redelivery:\n                active_tasks[task] = message_id\n")),
c("l-drop-known",["C12"],("                            await start_task(" if False else "                                        await start_task(\n                                            message_id, message, is_redelivery\n                                        )","                                        if len(active_tasks) < 1:\n                                            await start_task(\n                                                message_id, message, is_redelivery\n                                            )")),

c("r-notreclaim",["C13"],("for source in [get_redeliveries, get_new_deliveries]:","for source in [get_new_deliveries, get_redeliveries]:")),
c("r-start",["C13"],("start_id=\"0-0\"","start_id=\"$\"")),
c("r-idle-seconds",["C13"],("self.redelivery_timeout.total_seconds() * 1000","self.redelivery_timeout.total_seconds()")),
c("r-flag",["C13"],("redelivered=is_redelivery,","redelivered=False,")),
c("r-consumer",["C13"],("                        groupname=self.docket.worker_group_name,\n                        consumername=self.name,\n                        min_idle_time=int(","                        groupname=self.docket.worker_group_name,\n                        consumername=self.docket.name,\n                        min_idle_time=int(")),
c("r-renew-slow",["C13"],("self.redelivery_timeout.total_seconds() / 4","self.redelivery_timeout.total_seconds()")),
c("r-renew-one",["C13"],("message_ids = list(active_messages.values())","message_ids = list(active_messages.values())[:1]")),
c("r-renew-dies",["C13"],("            except Exception:\n                logger.warning(\"Failed to renew leases\", exc_info=True)","            except ConnectionError:\n                logger.warning(\"Failed to renew leases\", exc_info=True)")),
c("r-renew-minidle",["C13"],("min_idle_time=0,","min_idle_time=1000,")),
c("r-renew-copy",["C13"],("self._renew_leases(redis, active_tasks)","self._renew_leases(redis, dict(active_tasks))")),
c("r-renew-return",["C13"],("            if not message_ids:\n                continue","            if not message_ids:\n                return")),
c("r-nogroup",["C13"],("                    await self.docket._ensure_stream_and_group()\n                    return await get_redeliveries(redis)","                    return [(b\"__redelivery__\", [])]")),
c("r-nogroup-all",["C13"],("                    return await get_new_deliveries(redis)\n                raise  # pragma: no cover","                    return await get_new_deliveries(redis)\n                return []")),

c("s-nodrain",["C14"],("                await asyncio.gather(*active_tasks, return_exceptions=True)\n","                for t in active_tasks: t.cancel()\n                await asyncio.gather(*active_tasks, return_exceptions=True)\n")),
c("s-noprocess",["C14"],("                await asyncio.gather(*active_tasks, return_exceptions=True)\n                await process_completed_tasks()","                await asyncio.gather(*active_tasks, return_exceptions=True)")),
c("s-gather-raises",["C14"],("                await asyncio.gather(*active_tasks, return_exceptions=True)","                await asyncio.gather(*active_tasks)")),
c("s-order",["C14"],("            await self._remove_heartbeat()\n            if active_tasks:","            if active_tasks and disconnect is not None:\n                return\n            await self._remove_heartbeat()\n            if active_tasks:")),
c("s-reraise",["C14"],("            if disconnect is not None:\n                raise disconnect","            if disconnect is not None and not active_tasks:\n                raise disconnect")),
c("s-noremove",["C14"],("            await self._remove_heartbeat()\n            if active_tasks","            if active_tasks")),
c("s-stopping-unset",["C14"],("                    session.stopping.set()\n\n            # A disconnection","            # A disconnection")),
c("s-cancel-raises",["C14"],("                    extra=log_context,\n                )\n        finally:","                    extra=log_context,\n                )\n            raise\n        finally:")),
c("s-stop-ignored",["C14"],("                        forever or has_work or active_tasks\n                    ) and not stopping.is_set():","                        forever or has_work or active_tasks\n                    ) and not (stopping.is_set() and not has_work):")),

c("k-super",["C24"],("                        if await e.execution.is_superseded():","                        if False:")),
c("k-nodelay",["C24"],("datetime.now(timezone.utc) + delay","datetime.now(timezone.utc)")),
c("k-nomsg",["C24"],("schedule(reschedule_message=message_id)","schedule()")),
c("k-replace",["C24"],("schedule(reschedule_message=message_id)","schedule(replace=True, reschedule_message=message_id)")),
c("k-drop-nothing",["C24"],("                            extra=log_context,\n                        )\n                        await e.execution.mark_as_cancelled()","                            extra=log_context,\n                        )")),
c("k-cancel-dies",["C24"],("                    if not execution._acked:\n                        await execution.mark_as_cancelled()\n","                    raise\n")),
c("k-net-gone",["C24"],("                if not execution._acked:\n                    await execution.mark_as_failed(error=None)","                if not execution._acked and execution.redelivered:\n                    await execution.mark_as_failed(error=None)")),
c("k-net-always",["C24"],("                if not execution._acked:\n                    await execution.mark_as_failed(error=None)","                await execution.mark_as_failed(error=None)")),
c("k-unregister",["C24"],("                if self._tasks_by_key.get(execution.key) is task:\n                    del","                if execution.key in self._tasks_by_key:\n                    del")),
c("k-handled",["C24"],("                    if e.handled:\n","                    if e.handled and e.reschedule:\n")),
c("k-wrongdelay",["C24"],("delay = e.retry_delay or ADMISSION_BLOCKED_RETRY_DELAY","delay = ADMISSION_BLOCKED_RETRY_DELAY")),

c("n-noloop",["C15"],("                    if await _wait_for_event(\n                        stopping, self.reconnection_delay.total_seconds()\n                    ):\n                        return","                    if await _wait_for_event(\n                        stopping, self.reconnection_delay.total_seconds()\n                    ):\n                        return\n                    if not forever:\n                        return")),
c("n-nowait",["C15"],("                        stopping, self.reconnection_delay.total_seconds()","                        stopping, 0")),
c("n-done",["C15"],("        finally:\n            self._worker_done.set()","        except ConnectionError:\n            pass\n        self._worker_done.set()")),
c("n-swallow",["C15"],("                except ConnectionError:\n                    if stopping.is_set():","                except Exception:\n                    if stopping.is_set():")),
c("n-stop",["C15"],("                    ):\n                        return\n        finally","                    ):\n                        stopping.clear()\n        finally")),
c("n-clear",["C15"],("        self._worker_done.clear()\n","")),
c("n-oldconn",["C15"],("            while not stopping.is_set():  # pragma: no branch\n                try:\n                    async with self.docket.redis() as redis:\n                        return await","          async with self.docket.redis() as redis:\n            while not stopping.is_set():  # pragma: no branch\n                try:\n                        return await")),
]
