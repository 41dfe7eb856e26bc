"""Mutants of following tasks and of results."""
E="execution.py"; W="worker.py"; P="_execution_progress.py"
def c(name, ids, *edits, f=E): return (name, f, list(edits), ids)
SUB='            await pubsub.subscribe(state_channel, progress_channel)\n            if ready is not None:\n                ready.set()\n\n            # First, emit the current state\n            await self.sync()\n'
CASES=[
c("sb-late",["C25"],(SUB,'            await self.sync()\n            await pubsub.subscribe(state_channel, progress_channel)\n            if ready is not None:\n                ready.set()\n')),
c("sb-ready",["C25"],(SUB,'            if ready is not None:\n                ready.set()\n            await pubsub.subscribe(state_channel, progress_channel)\n            await self.sync()\n')),
c("sb-noready",["C25"],('            if ready is not None:\n                ready.set()\n\n            # First','            # First')),
c("sb-nosync",["C25"],('            # First, emit the current state\n            await self.sync()\n','')),
c("sb-onechannel",["C25"],('pubsub.subscribe(state_channel, progress_channel)','pubsub.subscribe(state_channel)')),
c("sb-wrongchannel",["C25"],('        progress_channel = self.docket.key(f"progress:{self.key}")\n        async with','        progress_channel = self.docket.key(f"progress:{self.function_name}")\n        async with')),
c("sb-swap",["C25"],('"started_at": self.started_at.isoformat() if self.started_at else None,\n                "completed_at": (\n                    self.completed_at.isoformat() if self.completed_at else None','"started_at": self.started_at.isoformat() if self.started_at else None,\n                "completed_at": (\n                    self.started_at.isoformat() if self.completed_at else None')),
c("sb-noprogress",["C25"],('            yield progress_event\n','            if self.progress.current:\n                yield progress_event\n')),
c("sb-stateonly",["C25"],('                    if message_data["type"] == "state":\n                        message_data["state"] = ExecutionState(message_data["state"])\n                    yield message_data\n','                    if message_data["type"] == "state":\n                        message_data["state"] = ExecutionState(message_data["state"])\n                        yield message_data\n')),
c("sb-dup",["C25"],('                        message_data["state"] = ExecutionState(message_data["state"])\n                    yield message_data\n','                        message_data["state"] = ExecutionState(message_data["state"])\n                        if message_data["state"] == self.state:\n                            continue\n                    yield message_data\n')),
c("sb-kind",["C25"],('            async for message in pubsub.listen():  # pragma: no cover\n                if message["type"] == "message":\n                    message_data','            async for message in pubsub.listen():  # pragma: no cover\n                if message["type"] != "subscribe":\n                    message_data')),
c("sb-break",["C25"],('                        message_data["state"] = ExecutionState(message_data["state"])\n                    yield message_data\n','                        message_data["state"] = ExecutionState(message_data["state"])\n                    yield message_data\n                    break\n')),
c("sy-worker",["C25"],('data[b"worker"].decode() if b"worker" in data else None','data[b"worker"].decode() if b"worker" in data else self.worker')),
c("sy-started",["C25"],('datetime.fromisoformat(data[b"completed_at"].decode())','datetime.fromisoformat(data[b"started_at"].decode())')),
c("sy-error",["C25"],('                    self.error = data[b"error"].decode() if b"error" in data else None\n','                    if b"error" in data:\n                        self.error = data[b"error"].decode()\n')),
c("sy-reskey",["C25"],('                    self.error = None\n                    self.result_key = None\n\n        # Sync','                    self.error = None\n\n        # Sync')),
c("sy-noprogress",["C25"],('        # Sync progress data\n        await self.progress.sync()\n','')),
c("pp-channel",["C25"],('        channel = self.docket.key(f"progress:{self.key}")\n        async with self.docket._pubsub()','        channel = self.docket.key(f"progress:*")\n        async with self.docket._pubsub()'),f=P),
c("pp-raw",["C25"],('yield json.loads(message["data"])','yield json.loads(message["channel"])'),f=P),
c("gr-both",["C26"],('if timeout is not None and deadline is not None:\n            raise ValueError','if timeout and deadline and timeout == deadline:\n            raise ValueError')),
c("gr-nocancel",["C26"],('            ExecutionState.FAILED,\n            ExecutionState.CANCELLED,\n        )\n','            ExecutionState.FAILED,\n        )\n')),
c("gr-running",["C26"],('        terminal_states = (\n','        terminal_states = (\n            ExecutionState.RUNNING,\n')),
c("gr-nosync",["C26"],('                                # Sync to get latest data including result key\n                                await self.sync()\n                                break','                                self.state = state\n                                break')),
c("gr-syncearly",["C26"],('                            if state in terminal_states:\n                                # Sync to get latest data including result key\n                                await self.sync()\n                                break','                            await self.sync()\n                            if state in terminal_states:\n                                self.state = state\n                                break')),
c("gr-fulltimeout",["C26"],('asyncio.wait_for(wait_for_completion(), timeout=timeout_seconds)','asyncio.wait_for(wait_for_completion(), timeout=None)')),
c("gr-minus",["C26"],('if timeout_seconds <= 0:','if timeout_seconds < -1:')),
c("gr-abs",["C26"],('deadline - datetime.now(timezone.utc)\n                ).total_seconds()','deadline - datetime.now(timezone.utc)\n                ).seconds')),
c("gr-swallow",["C26"],('            except asyncio.TimeoutError:\n                raise TimeoutError(\n                    f"Timeout waiting for execution {self.key} to complete"\n                )\n','            except asyncio.TimeoutError:\n                await self.sync()\n')),
c("gr-cancelnone",["C26"],('        if self.state == ExecutionState.CANCELLED:\n            raise ExecutionCancelled','        if self.state == ExecutionState.CANCELLED and self.error:\n            raise ExecutionCancelled')),
c("gr-failreturn",["C26"],('                    raise exception\n','                    return exception\n')),
c("gr-errgeneric",["C26"],('error_msg = self.error or "Task execution failed"','error_msg = "Task execution failed"')),
c("gr-failnokey",["C26"],('            if self.result_key:\n                # Retrieve serialized exception from result_storage\n                result_data = await self.docket.result_storage.get(self.result_key)','            if self.error is None and self.result_key:\n                # Retrieve serialized exception from result_storage\n                result_data = await self.docket.result_storage.get(self.result_key)')),
c("gr-key",["C26"],('        if self.result_key:\n            result_data = await self.docket.result_storage.get(self.result_key)','        if self.result_key:\n            result_data = await self.docket.result_storage.get(self.function_name)')),
c("gr-nodecode",["C26"],('                pickled_result = base64.b64decode(result_data["data"])','                pickled_result = base64.urlsafe_b64decode(result_data["data"])')),
c("gr-field",["C26"],('"data" in result_data:\n                # Base64-decode and unpickle\n                pickled_result = base64.b64decode(result_data["data"])','"result" in result_data:\n                # Base64-decode and unpickle\n                pickled_result = base64.b64decode(result_data["result"])')),
c("wr-key",["C26"],('                            result_key = execution.key\n                            ttl_seconds','                            result_key = execution.function_name\n                            ttl_seconds'),f=W),
c("wr-falsy",["C26"],('if result is not None and self.docket.execution_ttl:','if result and self.docket.execution_ttl:'),f=W),
c("wr-nottl",["C26"],('                                result_key, {"data": encoded_result}, ttl=ttl_seconds','                                result_key, {"data": encoded_result}'),f=W),
c("wr-ttl60",["C26"],('                                result_key, {"data": encoded_result}, ttl=ttl_seconds','                                result_key, {"data": encoded_result}, ttl=60'),f=W),
c("wr-after",["C26"],('                            await self.docket.result_storage.put(\n                                result_key, {"data": encoded_result}, ttl=ttl_seconds\n                            )\n                        await execution.mark_as_completed(result_key=result_key)\n','                        await execution.mark_as_completed(result_key=result_key)\n                        if result_key is not None:\n                            await self.docket.result_storage.put(\n                                result_key, {"data": encoded_result}, ttl=ttl_seconds\n                            )\n'),f=W),
c("wr-exc-str",["C26"],('pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]','pickled_exception = cloudpickle.dumps(error_msg)'),f=W),
c("wr-nokey",["C26"],('await execution.mark_as_failed(error_msg, result_key=result_key)','await execution.mark_as_failed(error_msg)'),f=W),
c("wr-exc-none",["C26"],('                        except Exception:\n                            # Some exceptions cannot be pickled; the failure must\n                            # still be recorded, so store a description instead\n                            pickled_exception = cloudpickle.dumps(Exception(error_msg))\n','                        except Exception:\n                            pickled_exception = cloudpickle.dumps(None)\n'),f=W),
]
