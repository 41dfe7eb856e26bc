"""Rate limits, cooldowns, debounces."""
R="dependencies/_ratelimit.py"; O="dependencies/_cooldown.py"; B="dependencies/_debounce.py"
def c(name, ids, *edits, f=R): return (name, f, list(edits), ids)
CASES=[
c("rl-le",["C19"],("if count < limit then","if count <= limit then")),
c("rl-noprune",["C19"],("    redis.call('ZREMRANGEBYSCORE', ratelimit_key, '-inf', cutoff)\n","")),
c("rl-prune-now",["C19"],("'-inf', cutoff)","'-inf', now_ms)")),
c("rl-member",["C19"],("member = f\"{execution.key}:{now_ms}\"","member = execution.key")),
c("rl-member2",["C19"],("member = f\"{execution.key}:{now_ms}\"","member = str(now_ms)")),
c("rl-ttl",["C19"],("ttl_ms = window_ms * 2","ttl_ms = window_ms // 2")),
c("rl-expire-unit",["C19"],("redis.call('PEXPIRE', ratelimit_key, ttl_ms)","redis.call('PEXPIRE', ratelimit_key, math.floor(ttl_ms / 1000))")),
c("rl-window-unit",["C19"],("window_ms = int(self.per.total_seconds() * 1000)","window_ms = int(self.per.total_seconds() * 100)")),
c("rl-newest",["C19"],("redis.call('ZRANGE', ratelimit_key, 0, 0, 'WITHSCORES')","redis.call('ZRANGE', ratelimit_key, -1, -1, 'WITHSCORES')")),
c("rl-noclamp",["C19"],("    if retry_after < 1 then\n        retry_after = 1\n    end\n","")),
c("rl-delay-seconds",["C19"],("retry_delay=timedelta(milliseconds=retry_after_ms)","retry_delay=timedelta(seconds=retry_after_ms)")),
c("rl-drop",["C19"],("        if self.drop:\n            raise","        if not self.drop:\n            raise")),
c("rl-withdraw-all",["C19"],("await redis.zrem(ratelimit_key, member)","await redis.delete(ratelimit_key)")),
c("rl-withdraw-any",["C19"],("if exc_type is not None and issubclass(exc_type, AdmissionBlocked):","if exc_type is not None:")),
c("rl-withdraw-exact",["C19"],("if exc_type is not None and issubclass(exc_type, AdmissionBlocked):","if exc_type is AdmissionBlocked:")),
c("rl-nowithdraw",["C19"],("            _Depends.stack.get().push_async_exit(\n                partial(self._withdraw, ratelimit_key, member)\n            )\n","")),
c("rl-bind-drop",["C19"],("RateLimit(self.limit, per=self.per, drop=self.drop, scope=self.scope)","RateLimit(self.limit, per=self.per, scope=self.scope)")),
c("rl-bind-value",["C19"],("        bound._argument_value = value\n","        bound._argument_value = name\n")),
c("rl-self",["C19"],("        reason = f\"rate limit","        self._argument_value = member\n        reason = f\"rate limit")),
c("rl-key-exec",["C19"],("ratelimit_key = f\"{scope}:ratelimit:{execution.function_name}\"","ratelimit_key = f\"{scope}:ratelimit:{execution.key}\"")),
c("rl-key-scope",["C19"],("scope = self.scope or docket.name","scope = docket.name")),
c("rl-add-blocked",["C19"],("    -- Over limit: compute","    redis.call('ZADD', ratelimit_key, now_ms, member)\n    -- Over limit: compute")),
c("cd-nonx",["C41"],("nx=True, px=window_ms","px=window_ms"),f=O),
c("cd-ex",["C41"],("nx=True, px=window_ms","nx=True, ex=window_ms"),f=O),
c("cd-nottl",["C41"],("nx=True, px=window_ms","nx=True"),f=O),
c("cd-resched",["C41"],("                reschedule=False,\n",""),f=O),
c("cd-exit-any",["C41"],("if exc_type is not None and issubclass(exc_type, AdmissionBlocked):","if exc_type is not None:"),f=O),
c("cd-exit-exact",["C41"],("if exc_type is not None and issubclass(exc_type, AdmissionBlocked):","if exc_type is AdmissionBlocked:"),f=O),
c("cd-exit-key",["C41"],("await redis.delete(self._cooldown_key())","await redis.delete(current_execution.get().key)"),f=O),
c("cd-block-del",["C41"],("        if not acquired:\n","        if not acquired:\n            async with docket.redis() as redis:\n                await redis.pexpire(cooldown_key, window_ms)\n"),f=O),
c("cd-value",["C41"],("f\"{scope}:cooldown:{self._argument_name}:{self._argument_value}\"","f\"{scope}:cooldown:{self._argument_name}\""),f=O),
c("db-later-winner",["C42"],("    -- Someone else is the winner: update last_seen and refresh TTLs\n","    redis.call('SET', winner_key, execution_key, 'PX', ttl_ms)\n"),f=B),
c("db-later-noseen",["C42"],("    redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)\n    redis.call('PEXPIRE', winner_key, ttl_ms)\n    return {3, 0}","    redis.call('PEXPIRE', winner_key, ttl_ms)\n    return {3, 0}"),f=B),
c("db-later-nottl",["C42"],("    redis.call('PEXPIRE', winner_key, ttl_ms)\n    return {3, 0}","    return {3, 0}"),f=B),
c("db-nodel",["C42"],("redis.call('DEL', winner_key, seen_key)","redis.call('DEL', seen_key)"),f=B),
c("db-ge",["C42"],("if elapsed >= settle_ms then","if elapsed * 2 >= settle_ms then"),f=B),
c("db-remaining",["C42"],("return {2, remaining}","return {2, settle_ms}"),f=B),
c("db-ttl",["C42"],("ttl_ms = settle_ms * 10","ttl_ms = settle_ms"),f=B),
c("db-winner-seen",["C42"],("            redis.call('PEXPIRE', seen_key, ttl_ms)\n            return {2, remaining}","            redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)\n            return {2, remaining}"),f=B),
c("db-drop-resched",["C42"],("        if action == _ACTION_RESCHEDULE:\n","        if action != _ACTION_DROP and remaining_ms > 1:\n"),f=B),
c("db-first-drop",["C42"],("        return {2, settle_ms}\n","        return {3, settle_ms}\n"),f=B),
c("db-first-run",["C42"],("        return {2, settle_ms}\n","        return {1, settle_ms}\n"),f=B),
c("db-exit",["C42"],("        pass","        async with current_docket.get().redis() as redis:\n            await redis.delete(f\"{self.scope}:debounce\")"),f=B),
c("db-key",["C42"],("seen_key = f\"{base_key}:{{{hash_tag}}}:last_seen\"","seen_key = f\"{base_key}:{{{hash_tag}}}:winner\""),f=B),
c("db-key2",["C42"],("hash_tag = f\"{self._argument_name}:{self._argument_value}\"","hash_tag = f\"{self._argument_name}\""),f=B),
]
