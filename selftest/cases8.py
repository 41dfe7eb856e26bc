"""Mutants of progress reporting."""
P="_execution_progress.py"; D="dependencies/_progress.py"
def c(name, *edits, f=P, ids=["C27"]): return (name, f, list(edits), ids)
CASES=[
c("pg-shared",("        progress = Progress()\n        progress._progress = execution.progress\n        return progress\n","        self._progress = execution.progress\n        return self\n"),f=D),
c("pg-cached",("        progress = Progress()\n        progress._progress = execution.progress\n        return progress\n","        if self._progress is None:\n            self._progress = execution.progress\n        progress = Progress()\n        progress._progress = self._progress\n        return progress\n"),f=D),
c("pg-total0",('        if total < 1:\n            raise ValueError("Total','        if total < 0:\n            raise ValueError("Total')),
c("pg-amount0",('        if amount < 1:\n','        if amount == 0:\n')),
c("pg-amount2",('        if amount < 1:\n','        if amount <= 1:\n')),
c("pg-late-check",('        if amount < 1:\n            raise ValueError("Amount must be at least 1")\n\n','') ,('                new_current, _ = await pipe.execute()\n','                new_current, _ = await pipe.execute()\n        if amount < 1:\n            raise ValueError("Amount must be at least 1")\n')),
c("pg-rmw",('                pipe.hincrby(self._redis_key, "current", amount)\n                pipe.hset(self._redis_key, "updated_at", updated_at)\n                new_current, _ = await pipe.execute()\n','                new_current = (self.current or 0) + amount\n                pipe.hset(self._redis_key, "current", str(new_current))\n                pipe.hset(self._redis_key, "updated_at", updated_at)\n                await pipe.execute()\n')),
c("pg-one",('pipe.hincrby(self._redis_key, "current", amount)','pipe.hincrby(self._redis_key, "current", 1)')),
c("pg-notx",('            async with redis.pipeline() as pipe:\n                pipe.hincrby','            async with redis.pipeline(transaction=False) as pipe:\n                pipe.hincrby')),
c("pg-notime",('                pipe.hset(self._redis_key, "updated_at", updated_at)\n                new_current, _ = await','                new_current, *_ = await')),
c("pg-swap",('new_current, _ = await pipe.execute()','_, new_current = await pipe.execute()')),
c("pg-nopublish",('        await self._publish({"current": new_current, "updated_at": updated_at})\n','')),
c("pg-pub-old",('        self.current = new_current\n        self.updated_at = updated_at_dt\n        # Publish update event with new current value\n        await self._publish({"current": new_current, "updated_at": updated_at})\n','        await self._publish({"current": new_current, "updated_at": updated_at})\n        self.current = new_current\n        self.updated_at = updated_at_dt\n')),
c("pg-nolocal",("        self.total = total\n        self.updated_at = updated_at_dt\n","        self.updated_at = updated_at_dt\n")),
c("pg-nolocal-msg",("        self.message = message\n        self.updated_at = updated_at_dt\n","        self.updated_at = updated_at_dt\n")),
c("pg-noclear",("                clear_message=message is None,","                clear_message=False,")),
c("pg-clear-empty",("                clear_message=message is None,","                clear_message=not message,"),("        if message is not None:\n            fields","        if message:\n            fields")),
c("pg-clear-always",("                clear_message=False,","                clear_message=True,")),
c("pg-lua-clear",("    if clear_message then\n        redis.call('HDEL', progress_key, 'message')","    if clear_message then\n        redis.call('DEL', progress_key)")),
c("pg-lua-pub",("    redis.call('PUBLISH', progress_key, payload)\n","")),
c("pg-lua-step",("    for i = fields_start, #ARGV, 2 do","    for i = fields_start + 2, #ARGV, 2 do")),
c("pg-key",('            "type": "progress",\n            "key": self.key,\n            "current": self.current if self.current is not None else 0,\n            "total": total,','            "type": "progress",\n            "key": self._redis_key,\n            "current": self.current if self.current is not None else 0,\n            "total": total,')),
c("pg-current0",('            "current": self.current if self.current is not None else 0,\n            "total": self.total,\n            "message": message,','            "current": 0,\n            "total": self.total,\n            "message": message,')),
c("pg-total-dropped",('            "total": self.total,\n            "message": message,','            "total": 100,\n            "message": message,')),
c("pg-message-lost",('            "total": total,\n            "message": self.message,','            "total": total,\n            "message": None,')),
c("pg-time2",('                fields={"total": str(total), "updated_at": updated_at},','                fields={"total": str(total), "updated_at": datetime.now(timezone.utc).isoformat()},')),
c("pg-both",('                fields={"total": str(total), "updated_at": updated_at},','                fields={"total": str(total), "current": str(self.current or 0), "updated_at": updated_at},')),
c("pg-channel",('channel = self.docket.key(f"progress:{self.key}")\n        payload','channel = self.docket.key(f"state:{self.key}")\n        payload')),
c("pg-sync-swap",('self.current = int(data.get(b"current", b"0"))','self.current = int(data.get(b"total", b"0"))')),
c("pg-sync-msg",('data[b"message"].decode() if b"message" in data else None','data[b"message"].decode() if b"message" in data else self.message')),
c("pg-sync-stale",('                    self.current = None\n                    self.total = 100\n                    self.message = None\n                    self.updated_at = None\n','                    pass\n')),
c("pg-sync-key",('data = await redis.hgetall(self._redis_key)','data = await redis.hgetall(self.docket.runs_key(self.key))')),
c("pg-delegate",("        await self._progress.set_total(total)","        if total > self._progress.total:\n            await self._progress.set_total(total)"),f=D),
c("pg-delegate2",("        await self._progress.increment(amount)","        await self._progress.increment()"),f=D),
]
