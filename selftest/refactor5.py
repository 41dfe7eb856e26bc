"""Edits of rate limits, cooldowns and debounces that change no behaviour."""
R="dependencies/_ratelimit.py"; O="dependencies/_cooldown.py"; B="dependencies/_debounce.py"
def c(name, *edits, f=R): return (name, f, list(edits), [])
CASES=[
c("rl-ge-first",("    if count < limit then\n        -- Under limit: record this execution and set safety TTL\n        redis.call('ZADD', ratelimit_key, now_ms, member)\n        redis.call('PEXPIRE', ratelimit_key, ttl_ms)\n        return {1, 0}\n    end\n\n    -- Over limit: compute when the oldest entry will expire\n    local oldest = redis.call('ZRANGE', ratelimit_key, 0, 0, 'WITHSCORES')\n    local oldest_score = tonumber(oldest[2])\n    local retry_after = oldest_score + window_ms - now_ms\n    if retry_after < 1 then\n        retry_after = 1\n    end\n    return {2, retry_after}\n",
 "    if count >= limit then\n        local oldest = redis.call('ZRANGE', ratelimit_key, 0, 0, 'WITHSCORES')\n        return {2, math.max(1, tonumber(oldest[2]) - now_ms + window_ms)}\n    end\n    redis.call('ZADD', ratelimit_key, now_ms, member)\n    redis.call('PEXPIRE', ratelimit_key, ttl_ms)\n    return {1, 0}\n")),
c("rl-inline-cutoff",("    local cutoff = now_ms - window_ms\n    redis.call('ZREMRANGEBYSCORE', ratelimit_key, '-inf', cutoff)\n","    redis.call('ZREMRANGEBYSCORE', ratelimit_key, '-inf', now_ms - window_ms)\n")),
c("rl-unpack",("        action = result[0]\n        retry_after_ms = result[1]\n","        action, retry_after_ms = result\n")),
c("rl-blocked-first",("        if action == _ACTION_PROCEED:\n            # The default-parameter instance is shared by concurrent executions,\n            # so what this one recorded stays with its own exit stack\n            from ._functional import _Depends\n\n            _Depends.stack.get().push_async_exit(\n                partial(self._withdraw, ratelimit_key, member)\n            )\n            return self\n\n        reason = f\"rate limit ({self.limit}/{self.per}) on {ratelimit_key}\"\n\n        if self.drop:\n            raise AdmissionBlocked(execution, reason=reason, reschedule=False)\n\n        raise AdmissionBlocked(\n            execution,\n            reason=reason,\n            retry_delay=timedelta(milliseconds=retry_after_ms),\n        )\n",
 "        if action != _ACTION_PROCEED:\n            raise AdmissionBlocked(\n                execution,\n                reason=f\"rate limit ({self.limit}/{self.per}) on {ratelimit_key}\",\n                reschedule=not self.drop,\n                retry_delay=None if self.drop else timedelta(milliseconds=retry_after_ms),\n            )\n        from ._functional import _Depends\n\n        _Depends.stack.get().push_async_exit(\n            partial(self._withdraw, ratelimit_key, member)\n        )\n        return self\n")),
c("rl-key-method",("        scope = self.scope or docket.name\n        if self._argument_name is not None:\n            ratelimit_key = (\n                f\"{scope}:ratelimit:{self._argument_name}:{self._argument_value}\"\n            )\n        else:\n            ratelimit_key = f\"{scope}:ratelimit:{execution.function_name}\"\n","        ratelimit_key = self._key(docket, execution)\n"),
 ("    async def __aenter__(self) -> RateLimit:","    def _key(self, docket, execution) -> str:\n        scope = self.scope or docket.name\n        subject = execution.function_name\n        if self._argument_name is not None:\n            subject = f\"{self._argument_name}:{self._argument_value}\"\n        return f\"{scope}:ratelimit:{subject}\"\n\n    async def __aenter__(self) -> RateLimit:")),
c("rl-withdraw-early",("        if exc_type is not None and issubclass(exc_type, AdmissionBlocked):\n            async with current_docket.get().redis() as redis:\n                await redis.zrem(ratelimit_key, member)","        if not isinstance(exc_value, AdmissionBlocked):\n            return\n        docket = current_docket.get()\n        async with docket.redis() as redis:\n            await redis.zrem(ratelimit_key, member)")),
c("rl-time-ms",("        now_ms = int(time.time() * 1000)\n","        now = time.time()\n        now_ms = int(1000 * now)\n")),
c("rl-timedelta-div",("window_ms = int(self.per.total_seconds() * 1000)","window_ms = int(1000 * self.per.total_seconds())")),
c("rl-lambda",("                partial(self._withdraw, ratelimit_key, member)\n","                lambda *exc: self._withdraw(ratelimit_key, member, *exc)\n")),
c("cd-local-key",("        if exc_type is not None and issubclass(exc_type, AdmissionBlocked):\n            async with current_docket.get().redis() as redis:\n                await redis.delete(self._cooldown_key())","        if isinstance(exc_value, AdmissionBlocked):\n            key = self._cooldown_key()\n            async with current_docket.get().redis() as redis:\n                await redis.delete(key)"),f=O),
c("cd-acquired-first",("        if not acquired:\n            raise AdmissionBlocked(\n                execution,\n                reason=f\"cooldown ({self.window}) on {cooldown_key}\",\n                reschedule=False,\n            )\n\n        return self\n","        if acquired:\n            return self\n\n        raise AdmissionBlocked(\n            execution,\n            reason=f\"cooldown ({self.window}) on {cooldown_key}\",\n            reschedule=False,\n        )\n"),f=O),
c("cd-is-none",("        if not acquired:\n","        if acquired is None:\n"),f=O),
c("db-elseif",("    local winner = redis.call('GET', winner_key)\n\n    if not winner then\n","    local winner = redis.call('GET', winner_key)\n\n    if winner == false then\n"),f=B),
c("db-late-first",("    if winner == execution_key then\n","    if winner ~= execution_key then\n        redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)\n        redis.call('PEXPIRE', winner_key, ttl_ms)\n        return {3, 0}\n    end\n\n    if winner == execution_key then\n"),f=B),
c("db-remaining",("        local elapsed = now_ms - last_seen\n\n        if elapsed >= settle_ms then\n","        local remaining = last_seen + settle_ms - now_ms\n\n        if remaining <= 0 then\n"),("            local remaining = settle_ms - elapsed\n",""),f=B),
c("db-dispatch",("        if action == _ACTION_PROCEED:\n            return self\n\n        reason = f\"debounce ({self.settle}) on {base_key}\"\n\n        if action == _ACTION_RESCHEDULE:\n            raise AdmissionBlocked(\n                execution,\n                reason=reason,\n                retry_delay=timedelta(milliseconds=remaining_ms),\n            )\n\n        # DROP\n        raise AdmissionBlocked(execution, reason=reason, reschedule=False)\n","        reason = f\"debounce ({self.settle}) on {base_key}\"\n        match action:\n            case 1:\n                return self\n            case 2:\n                delay = timedelta(milliseconds=remaining_ms)\n                raise AdmissionBlocked(execution, reason, retry_delay=delay)\n            case _:\n                raise AdmissionBlocked(execution, reason, reschedule=False)\n"),f=B),
c("db-del-two",("redis.call('DEL', winner_key, seen_key)","redis.call('DEL', winner_key)\n            redis.call('DEL', seen_key)"),f=B),
c("db-set-expire",("        redis.call('SET', winner_key, execution_key, 'PX', ttl_ms)\n","        redis.call('SET', winner_key, execution_key)\n        redis.call('PEXPIRE', winner_key, ttl_ms)\n"),f=B),
c("db-keys",("        if self._argument_name is not None:\n            hash_tag = f\"{self._argument_name}:{self._argument_value}\"\n            base_key = f\"{scope}:debounce:{hash_tag}\"\n        else:\n            hash_tag = execution.function_name\n            base_key = f\"{scope}:debounce:{hash_tag}\"\n","        hash_tag = (\n            execution.function_name\n            if self._argument_name is None\n            else f\"{self._argument_name}:{self._argument_value}\"\n        )\n        base_key = f\"{scope}:debounce:{hash_tag}\"\n"),f=B),
]
