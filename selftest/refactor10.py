"""Edits of messages and of what is read back of them that change no behaviour."""
E="execution.py"; W="worker.py"; D="docket.py"; I="instrumentation.py"
def c(name, *edits, f=E): return (name, f, list(edits), [])
CASES=[
c("ms-build",('        return {\n            b"key": self.key.encode(),\n            b"when": self.when.isoformat().encode(),\n            b"function": self.function_name.encode(),\n            b"args"','        message: Message = {}\n        message[b"key"] = self.key.encode()\n        message[b"when"] = self.when.isoformat().encode()\n        message[b"function"] = self.function_name.encode("utf-8")\n        rest = {\n            b"args"'),('            b"generation": str(self.generation).encode(),\n        }\n','            b"generation": str(self.generation).encode(),\n        }\n        message.update(rest)\n        return message\n')),
c("ms-in",('int(message.get(b"generation", b"0"))','int(message[b"generation"]) if b"generation" in message else 0')),
c("ms-lookup",('        if not (function := docket.tasks.get(function_name)):\n            if fallback_task is None:\n','        function = docket.tasks.get(function_name) or fallback_task\n        if function is None:\n            if True:\n'),('            function = fallback_task\n\n        instance','\n        instance')),
c("ms-in2",('        if not (function := docket.tasks.get(function_name)):\n            if fallback_task is None:\n','        if function_name in docket.tasks:\n            function = docket.tasks[function_name]\n        else:\n            if fallback_task is None:\n')),
c("ms-helper",('            when=datetime.fromisoformat(message[b"when"].decode()),\n','            when=_when(message),\n'),('def compact_signature(','def _when(message: Message) -> datetime:\n    text = message[b"when"].decode()\n    return datetime.fromisoformat(text)\n\n\ndef compact_signature(')),
c("tr-in",('        val = carrier.get(key.encode(), None)\n        if val is None:\n            return None\n        return [val.decode()]','        name = key.encode()\n        if name not in carrier:\n            return None\n        return [carrier[name].decode()]'),f=I),
c("tr-update",('carrier[key.encode()] = value.encode()','carrier.update({key.encode(): value.encode()})'),f=I),
c("dl-inline",('            execution = await Execution.from_message(\n                self.docket,\n                message,\n                redelivered=is_redelivery,\n                fallback_task=self.fallback_task,\n                message_id=message_id,\n            )\n','            execution = await self._read(message_id, message, is_redelivery)\n'),('    async def _execute(','    async def _read(self, message_id: RedisMessageID, message: RedisMessage, again: bool) -> Execution:\n        return await Execution.from_message(\n            self.docket,\n            message,\n            again,\n            self.fallback_task,\n            message_id,\n        )\n\n    async def _execute('),f=W),
c("ge-early",('            if not function_name or not args_data or not kwargs_data:\n                return None\n','            for needed in (function_name, args_data, kwargs_data):\n                if not needed:\n                    return None\n'),f=D),
c("ge-when",('            when_str = data.get(b"when")\n            if not when_str:  # pragma: no cover\n                return None\n            when = datetime.fromtimestamp(float(when_str.decode()), tz=timezone.utc)\n','            if b"when" not in data:\n                return None\n            seconds = float(data[b"when"])\n            when = datetime.fromtimestamp(seconds, timezone.utc)\n'),f=D),
c("ge-nodata",('            data = await redis.hgetall(self.runs_key(key))\n\n            if not data:\n                return None\n','            data = await redis.hgetall(self.runs_key(key))\n'),f=D),
("pp-cond","dependencies/_perpetual.py",[('        function = execution.function\n        if docket.tasks.get(execution.function_name) is function:\n            function = execution.function_name\n','        name = execution.function_name\n        known = name in docket.tasks and docket.tasks[name] is execution.function\n        function = name if known else execution.function\n')],[]),
]
