"""Edits of progress reporting that change no behaviour."""
P="_execution_progress.py"; D="dependencies/_progress.py"
def c(name, *edits, f=P): return (name, f, list(edits), [])
CASES=[
c("pg-event",('        payload: ProgressEvent = {\n            "type": "progress",\n            "key": self.key,\n            "current": self.current if self.current is not None else 0,\n            "total": total,\n            "message": self.message,\n            "updated_at": updated_at,\n        }\n','        payload = self._event(updated_at, total=total)\n'),
 ('        payload: ProgressEvent = {\n            "type": "progress",\n            "key": self.key,\n            "current": self.current if self.current is not None else 0,\n            "total": self.total,\n            "message": message,\n            "updated_at": updated_at,\n        }\n','        payload = self._event(updated_at, message=message)\n'),
 ('    async def sync(self)','    def _event(self, updated_at: str, **changes: Any) -> dict[str, Any]:\n        return {\n            "type": "progress",\n            "key": self.key,\n            "current": self.current or 0,\n            "total": self.total,\n            "message": self.message,\n            "updated_at": updated_at,\n            **changes,\n        }\n\n    async def sync(self)')),
c("pg-check",('        if amount < 1:\n            raise ValueError("Amount must be at least 1")\n','        _at_least_one("Amount", amount)\n'),('        if total < 1:\n            raise ValueError("Total must be at least 1")\n','        _at_least_one("Total", total)\n'),('class ExecutionProgress:','def _at_least_one(what: str, value: int) -> None:\n    if not value >= 1:\n        raise ValueError(f"{what} must be at least 1")\n\n\nclass ExecutionProgress:')),
c("pg-results",('                new_current, _ = await pipe.execute()\n','                results = await pipe.execute()\n                new_current = results[0]\n')),
c("pg-order",('                pipe.hincrby(self._redis_key, "current", amount)\n                pipe.hset(self._redis_key, "updated_at", updated_at)\n                new_current, _ = await pipe.execute()\n','                pipe.hset(self._redis_key, "updated_at", updated_at)\n                pipe.hincrby(self._redis_key, "current", amount)\n                _, new_current = await pipe.execute()\n')),
c("pg-early-sync",('                if data:\n                    self.current = int(data.get(b"current", b"0"))\n                    self.total = int(data.get(b"total", b"100"))\n                    self.message = (\n                        data[b"message"].decode() if b"message" in data else None\n                    )\n','                if data:\n                    self.current = int(data[b"current"]) if b"current" in data else 0\n                    self.total = int(data.get(b"total", 100))\n                    message = data.get(b"message")\n                    self.message = message.decode() if message is not None else None\n')),
c("pg-lua",("    local hset_args = {}\n    for i = fields_start, #ARGV, 2 do\n        hset_args[#hset_args + 1] = ARGV[i]\n        hset_args[#hset_args + 1] = ARGV[i + 1]\n    end\n    if #hset_args > 0 then\n        redis.call('HSET', progress_key, unpack(hset_args))\n    end\n","    for i = fields_start, #ARGV, 2 do\n        redis.call('HSET', progress_key, ARGV[i], ARGV[i + 1])\n    end\n")),
c("pg-fields",('        fields: dict[str, str] = {"updated_at": updated_at}\n        if message is not None:\n            fields["message"] = message\n','        fields = {"updated_at": updated_at}\n        clearing = message is None\n        if not clearing:\n            fields.update(message=message)\n'),('clear_message=message is None','clear_message=clearing')),
c("pg-publish",('        await self._publish({"current": new_current, "updated_at": updated_at})\n','        await self.docket._publish(\n            self._redis_key,\n            json.dumps(\n                {\n                    "type": "progress",\n                    "key": self.key,\n                    "current": new_current,\n                    "total": self.total,\n                    "message": self.message,\n                    "updated_at": updated_at,\n                }\n            ),\n        )\n')),
c("dep-bind",("        progress = Progress()\n        progress._progress = execution.progress\n        return progress\n","        return Progress._of(execution.progress)\n\n    @classmethod\n    def _of(cls, progress: ExecutionProgress) -> Progress:\n        bound = cls()\n        bound._progress = progress\n        return bound\n"),f=D),
]
