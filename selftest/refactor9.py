"""Edits of following tasks and of results that change no behaviour."""
E="execution.py"; W="worker.py"; P="_execution_progress.py"
def c(name, *edits, f=E): return (name, f, list(edits), [])
CASES=[
c("sb-two",('            await pubsub.subscribe(state_channel, progress_channel)\n','            await pubsub.subscribe(state_channel)\n            await pubsub.subscribe(progress_channel)\n')),
c("sb-helper",('            yield progress_event\n\n            # Then relay real-time updates\n            async for message in pubsub.listen():  # pragma: no cover\n                if message["type"] == "message":\n                    message_data = json.loads(message["data"])\n                    if message_data["type"] == "state":\n                        message_data["state"] = ExecutionState(message_data["state"])\n                    yield message_data\n','            yield progress_event\n\n            async for message in pubsub.listen():  # pragma: no cover\n                if message["type"] != "message":\n                    continue\n                yield _decoded(message["data"])\n'),('def compact_signature(','def _decoded(data: Any) -> Any:\n    event = json.loads(data)\n    if event["type"] == "state":\n        event["state"] = ExecutionState(event["state"])\n    return event\n\n\ndef compact_signature(')),
c("sb-inlineevents",('            initial_state: StateEvent = {\n','            yield {\n'),('                "error": self.error,\n            }\n\n            yield initial_state\n','                "error": self.error,\n            }\n')),
c("sy-get",('                    self.worker = (\n                        data[b"worker"].decode() if b"worker" in data else None\n                    )\n','                    worker = data.get(b"worker")\n                    self.worker = worker.decode() if worker is not None else None\n')),
c("sy-helper",('                    self.error = data[b"error"].decode() if b"error" in data else None\n                    self.result_key = (\n                        data[b"result_key"].decode() if b"result_key" in data else None\n                    )\n','                    self.error = _text(data, b"error")\n                    self.result_key = _text(data, b"result_key")\n'),('def compact_signature(','def _text(data: Any, name: bytes) -> str | None:\n    value = data.get(name)\n    if value is None:\n        return None\n    return value.decode()\n\n\ndef compact_signature(')),
c("sy-early",('                if data:\n                    # Update state\n                    state_value = data.get(b"state")\n                    if state_value:\n                        self.state = ExecutionState(state_value.decode())\n','                if data:\n                    if b"state" in data:\n                        self.state = ExecutionState(data[b"state"].decode())\n')),
c("gr-seconds",('        # Convert timeout to deadline if provided\n        if timeout is not None:\n            deadline = datetime.now(timezone.utc) + timeout\n\n',''),('            if deadline is not None:\n                timeout_seconds = (\n                    deadline - datetime.now(timezone.utc)\n                ).total_seconds()\n                if timeout_seconds <= 0:\n','            if timeout is not None:\n                timeout_seconds = timeout.total_seconds()\n            elif deadline is not None:\n                timeout_seconds = (\n                    deadline - datetime.now(timezone.utc)\n                ).total_seconds()\n            if timeout_seconds is not None:\n                if timeout_seconds <= 0:\n')),
c("gr-method",('                async def wait_for_completion():\n                    async for event in self.subscribe():  # pragma: no branch\n                        if event["type"] == "state":\n                            state = ExecutionState(event["state"])\n                            if state in terminal_states:\n                                # Sync to get latest data including result key\n                                await self.sync()\n                                break\n\n                # Use asyncio.wait_for to enforce timeout\n                await asyncio.wait_for(wait_for_completion(), timeout=timeout_seconds)\n','                await asyncio.wait_for(\n                    self._finished(terminal_states), timeout_seconds\n                )\n'),('    async def sync(self)','    async def _finished(self, terminal_states: Any) -> None:\n        async for event in self.subscribe():  # pragma: no branch\n            if event["type"] != "state":\n                continue\n            if ExecutionState(event["state"]) in terminal_states:\n                await self.sync()\n                return\n\n    async def sync(self)')),
c("gr-stored",('                result_data = await self.docket.result_storage.get(self.result_key)\n                if result_data and "data" in result_data:\n                    # Base64-decode and unpickle\n                    pickled_exception = base64.b64decode(result_data["data"])\n                    exception = cloudpickle.loads(pickled_exception)\n                    raise exception\n','                stored = await self._stored()\n                if stored is not None:\n                    raise cloudpickle.loads(stored)\n'),
 ('            result_data = await self.docket.result_storage.get(self.result_key)\n            if result_data is not None and "data" in result_data:\n                # Base64-decode and unpickle\n                pickled_result = base64.b64decode(result_data["data"])\n                return cloudpickle.loads(pickled_result)\n','            stored = await self._stored()\n            if stored is not None:\n                return cloudpickle.loads(stored)\n'),
 ('    async def sync(self)','    async def _stored(self) -> bytes | None:\n        result_data = await self.docket.result_storage.get(self.result_key)\n        if not result_data or "data" not in result_data:\n            return None\n        return base64.b64decode(result_data["data"])\n\n    async def sync(self)')),
c("gr-match",('        if self.state == ExecutionState.CANCELLED:\n            raise','        if self.state is ExecutionState.CANCELLED:\n            raise'),('        if self.state == ExecutionState.FAILED:\n','        if self.state is ExecutionState.FAILED:\n')),
c("gr-timeoutcm",('                await asyncio.wait_for(wait_for_completion(), timeout=timeout_seconds)\n','                async with asyncio.timeout(timeout_seconds):\n                    await wait_for_completion()\n')),
c("wr-helper",('                            # Serialize and store result\n                            pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]\n                            # Base64-encode for JSON serialization\n                            encoded_result = base64.b64encode(pickled_result).decode(\n                                "ascii"\n                            )\n                            result_key = execution.key\n                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())\n                            await self.docket.result_storage.put(\n                                result_key, {"data": encoded_result}, ttl=ttl_seconds\n                            )\n','                            result_key = await self._keep(\n                                execution, cloudpickle.dumps(result)\n                            )\n'),
 ('                        # Base64-encode for JSON serialization\n                        encoded_exception = base64.b64encode(pickled_exception).decode(\n                            "ascii"\n                        )\n                        result_key = execution.key\n                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())\n                        await self.docket.result_storage.put(\n                            result_key, {"data": encoded_exception}, ttl=ttl_seconds\n                        )\n','                        result_key = await self._keep(execution, pickled_exception)\n'),
 ('    async def _execute(','    async def _keep(self, execution: Execution, pickled: bytes) -> str:\n        await self.docket.result_storage.put(\n            execution.key,\n            {"data": base64.b64encode(pickled).decode("ascii")},\n            ttl=int(self.docket.execution_ttl.total_seconds()),\n        )\n        return execution.key\n\n    async def _execute('),f=W),
]
