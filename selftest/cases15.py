"""Edits a systematic search found the checks to miss."""
E="execution.py"
def c(name, *edits, f=E, ids=()): return (name, f, list(edits), list(ids))
CASES=[
c("x-result-noread",('                if result_data and "data" in result_data:','                if result_data and "datax" in result_data:'),ids=["C26"]),
c("x-result-noread2",('            if result_data is not None and "data" in result_data:','            if result_data is not None and "datax" in result_data:'),ids=["C26"]),
c("x-acked-terminal",('        self._acked = True\n\n        with self._maybe','        with self._maybe'),ids=["C24"]),
c("x-acked-claim",('            self._acked = True\n            return False','            return False'),ids=["C24","C07"]),
c("x-acked-resched",('        if reschedule_message and reschedule_message == self.message_id:\n            self._acked = True','        if False:\n            self._acked = True'),ids=["C24"]),
c("x-acked-resched2",('        if reschedule_message and reschedule_message == self.message_id:\n            self._acked = True','        if True:\n            self._acked = True'),ids=["C24"]),
c("x-acked-init",('self._acked: bool = False','self._acked: bool = True'),ids=["C24"]),
#redundant c("x-hdel",("redis.call('HDEL', runs_key, 'worker', 'started_at')\n","\n"),ids=["C02"]),
c("x-publish1",("redis.call('HDEL', runs_key, 'worker', 'started_at')\n\n        redis.call('PUBLISH', state_channel, state_payload)\n","redis.call('HDEL', runs_key, 'worker', 'started_at')\n"),ids=["C02"]),
c("x-publish2",("            'kwargs', kwargs_data\n        )\n    end\n\n    redis.call('PUBLISH', state_channel, state_payload)\n","            'kwargs', kwargs_data\n        )\n    end\n"),ids=["C02"]),
c("x-publish-state",('            ExecutionState.QUEUED.value\n            if is_immediate\n            else ExecutionState.SCHEDULED.value','            ExecutionState.SCHEDULED.value\n            if is_immediate\n            else ExecutionState.QUEUED.value'),ids=["C02"]),
c("x-publish-key",('                "key": key,\n                "state": published_state,\n','                "state": published_state,\n'),ids=["C02"]),
c("x-step3",('for i = extra_fields_start, #ARGV, 2 do','for i = extra_fields_start, #ARGV, 3 do'),ids=["C06"]),
c("x-gone",("        if not current then\n            -- Runs hash was cleaned up (execution_ttl=0 after","        if false then\n            -- Runs hash was cleaned up (execution_ttl=0 after"),ids=["C03"]),
c("x-unknown",('            if fallback_task is None:\n                raise ValueError(\n                    f"Task function {function_name!r} is not registered with the current docket"\n                )\n','            if fallback_task is None:\n                pass\n'),ids=["C11"]),
c("x-noargs",('            args=cloudpickle.loads(message[b"args"]),\n',''),ids=["C11"]),
c("x-completed",('await self._mark_as_terminal(ExecutionState.COMPLETED, result_key=result_key)','await self._mark_as_terminal(ExecutionState.COMPLETED)'),ids=["C26","C06"]),
c("x-failed",('            ExecutionState.FAILED, error=error, result_key=result_key\n','            ExecutionState.FAILED, result_key=result_key\n'),ids=["C06"]),
c("x-failed2",('            ExecutionState.FAILED, error=error, result_key=result_key\n','            ExecutionState.FAILED, error=error\n'),ids=["C26","C06"]),
c("x-resultkey",('        if result_key is not None:\n            self.result_key = result_key\n',''),ids=["C06"]),
c("x-resultkey2",('        if result_key is not None:\n            extra','        if result_key is None:\n            extra'),ids=["C26","C06"]),
c("x-event-state",('                    if message_data["type"] == "state":\n','                    if message_data["type"] == "statex":\n'),ids=["C25"]),
c("x-local-state",('            self.state = ExecutionState.QUEUED\n        else:\n            self.state = ExecutionState.SCHEDULED\n','            self.state = ExecutionState.SCHEDULED\n        else:\n            self.state = ExecutionState.QUEUED\n'),ids=["C02"]),
]
W="worker.py"
CASES += [
c("x-sched-stop",('                    exc_info=True,\n                    extra=log_context,\n                )\n\n            if await _wait_for_event(\n                session.stopping, self.scheduling','                    exc_info=True,\n                    extra=log_context,\n                )\n                return\n\n            if await _wait_for_event(\n                session.stopping, self.scheduling'),f=W,ids=["C04"]),
c("x-sched-narrow",('            except Exception:  # pragma: no cover\n                logger.exception(\n                    "Error in scheduler loop"','            except ConnectionError:  # pragma: no cover\n                logger.exception(\n                    "Error in scheduler loop"'),f=W,ids=["C04"]),
c("x-sched-interval",('session.stopping, self.scheduling_resolution.total_seconds()','session.stopping, self.redelivery_timeout.total_seconds()'),f=W,ids=["C04"]),
c("x-sched-esc",("        s = s:gsub('\"', '\\\\\\\\\"')\n",""),f=W,ids=["C04"]),
c("x-sched-esc2",(".. json_escape(task['key']) ..",".. task['key'] .."),f=W,ids=["C04"]),
c("x-sched-esc3",("        s = s:gsub('\\\\\\\\', '\\\\\\\\\\\\\\\\')\n",""),f=W,ids=["C04"]),
c("x-sched-state",('"state":"queued","when"','"state":"scheduled","when"'),f=W,ids=["C04"]),
c("x-sched-unborn",('                    infra.create_task(\n                        self._scheduler_loop(redis),\n                        name=f"{self.docket.name} - scheduler",\n                    )\n                    infra.create_task(','                    if forever:\n                        infra.create_task(\n                            self._scheduler_loop(redis),\n                        )\n                    infra.create_task('),f=W,ids=["C04"]),
c("x-strike-kwargs",('signature.bind(*execution.args, **execution.kwargs)','signature.bind(*execution.kwargs, **execution.kwargs)'),f="strikelist.py",ids=["C09"]),
c("x-strike-noargs",('signature.bind(*execution.args, **execution.kwargs)','signature.bind_partial(**execution.kwargs)'),f="strikelist.py",ids=["C09"]),
c("x-send-unconnected",('if self._redis is None or not self._redis.is_connected:','if self._redis is None:'),f="strikelist.py",ids=["C10"]),
c("x-cancel-noexpire",('            await redis.expire(task_runs_key, ttl_seconds)\n        else:','            pass\n        else:'),f="docket.py",ids=["C05"]),
c("x-cancel-nodelete",('            # execution_ttl=0 means no observability - delete tombstone immediately\n            await redis.delete(task_runs_key)','            pass'),f="docket.py",ids=["C05"]),
c("x-cancel-expire2",('            ttl_seconds = int(self.execution_ttl.total_seconds())\n            await redis.expire(task_runs_key','            ttl_seconds = int(self.heartbeat_interval.total_seconds())\n            await redis.expire(task_runs_key'),f="docket.py",ids=["C05"]),
c("x-dur0",('duration = log_context["duration"] = time.time() - start','duration = log_context["duration"] = start'),f="worker.py",ids=["C07"]),
c("x-dur1",('                        duration=timedelta(seconds=duration),\n                        result','                        duration=timedelta(0),\n                        result'),f="worker.py",ids=["C07"]),
c("x-dur2",('duration=timedelta(seconds=duration)','duration=timedelta(milliseconds=duration)'),f="worker.py",ids=["C07"]),
c("x-sync",('            await execution.sync()\n\n            return execution','            return execution'),f="docket.py",ids=["C11"]),
]
