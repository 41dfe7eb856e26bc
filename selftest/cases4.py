"""Concurrency limits."""
F="dependencies/_concurrency.py"
def c(name, ids, *edits, f=F): return (name, f, list(edits), ids)
REL="    redis.call('ZREM', slots_key, task_key)\n\n    local waiters_count = redis.call('XLEN', waiters_stream)\n    if waiters_count > 0 then\n"
CASES=[
c("a-le",["C17"],("redis.call('ZCARD', slots_key) < max_concurrent then","redis.call('ZCARD', slots_key) <= max_concurrent then")),
c("a-own",["C17"],("if is_redelivery and slot_time <= stale_threshold then","if is_redelivery then")),
c("a-own2",["C17"],("if is_redelivery and slot_time <= stale_threshold then","if slot_time <= stale_threshold then")),
c("a-noown",["C17"],("    if slot_time then\n","    if slot_time and is_redelivery then\n")),
c("a-scav-nodrop",["C17"],("            redis.call('ZREM', slots_key, stale_slots[1])\n","")),
c("a-scav-all",["C17"],("'ZRANGEBYSCORE', slots_key, 0, stale_threshold, 'LIMIT', 0, 1)","'ZRANGE', slots_key, 0, 0)")),
c("a-noack",["C17"],("    redis.call('XACK', stream_key, worker_group_name, message_id)\n","")),
c("a-nodel",["C17"],("    redis.call('XDEL', stream_key, message_id)\n","")),
c("a-gen",["C17"],("            field_value = tostring(new_gen)\n        elseif field_name == 'function'","            field_value = field_value\n        elseif field_name == 'function'")),
c("a-known",["C17"],("        'known', current_time,\n        'waiter_stream'","        'waiter_stream'")),
c("a-sid",["C17"],("    redis.call('HDEL', runs_key, 'stream_id')\n\n    redis.call('PUBLISH', state_channel","    redis.call('PUBLISH', state_channel")),
c("a-ttl",["C17"],("int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),\n        )\n\n        # One","int(redelivery_timeout.total_seconds() / LEASE_RENEWAL_FACTOR),\n        )\n\n        # One")),
c("a-key",["C17"],("f\"{scope}:concurrency:{execution.function_name}\"","f\"{scope}:concurrency:{execution.key}\"")),
c("a-key-arg",["C17"],("f\"{scope}:concurrency:{self.argument_name}:{argument_value}\"","f\"{scope}:concurrency:{self.argument_name}\"")),
c("a-scope",["C17"],("scope = f\"{docket.prefix}:{self.scope}\" if self.scope else docket.prefix","scope = docket.prefix")),
c("a-shared",["C17"],("limit = ConcurrencyLimit(self.argument_name, self.max_concurrent, self.scope)","limit = self")),
c("a-bind",["C17"],("            max_concurrent=self.max_concurrent,\n            scope=self.scope,\n        )\n\n    async def","            max_concurrent=self.max_concurrent,\n        )\n\n    async def")),
c("a-handled",["C17"],("reason=reason, handled=True)","reason=reason)")),
c("a-nosafe",["C17"],("when=datetime.now(timezone.utc) + redelivery_timeout,","when=datetime.now(timezone.utc),")),
c("a-cancel-safe",["C17"],("if state != b\"scheduled\":\n                await docket.cancel(safeguard_key)","if state == b\"scheduled\":\n                await docket.cancel(safeguard_key)")),
c("a-order",["C17"],("        stack.push_async_callback(limit._release_and_wake)\n        stack.push_async_callback(cancel_task, limit._renewal_task, CANCEL_MSG_CLEANUP)","        stack.push_async_callback(cancel_task, limit._renewal_task, CANCEL_MSG_CLEANUP)\n        stack.push_async_callback(limit._release_and_wake)")),
c("a-self-release",["C17"],("stack.push_async_callback(limit._release_and_wake)","stack.push_async_callback(self._release_and_wake)")),
c("a-renew-once",["C17"],("                    exc_info=True,\n                )\n\n    @property","                    exc_info=True,\n                )\n                return\n\n    @property")),
c("a-renew-interval",["C17"],("redelivery_timeout.total_seconds() / LEASE_RENEWAL_FACTOR\n","redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR\n")),
c("a-renew-expire",["C17"],("                    await redis.expire(self._concurrency_key, key_ttl)\n","                    await redis.expire(self._concurrency_key, MINIMUM_TTL_SECONDS)\n")),
c("a-inject",["C17"],("        propagate.inject(message, setter=message_setter)\n\n        current_time","        current_time")),
c("a-stale",["C17"],("stale_threshold = current_time - redelivery_timeout.total_seconds()\n        key_ttl","stale_threshold = current_time\n        key_ttl")),
c("a-redel",["C17"],("is_redelivery=execution.redelivered,","is_redelivery=True,")),
c("r-scav-always",[],(REL,REL.replace("if waiters_count > 0","if waiters_count >= 0"))),
c("r-cap",["C18"],("local capacity = max_concurrent - redis.call('ZCARD', slots_key)\n    if capacity > 0 then","local capacity = max_concurrent - redis.call('ZCARD', slots_key)\n    if capacity >= 0 then")),
c("r-count",["C18"],("local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)\n        for","local entries = redis.call('XRANGE', waiters_stream, '-', '+')\n        for")),
c("r-state",["C18"],("if current_state ~= 'scheduled' or current_generation ~= waiter_generation then\n                redis","if current_state ~= 'scheduled' then\n                redis")),
c("r-state2",["C18"],("if current_state ~= 'scheduled' or current_generation ~= waiter_generation then\n                redis","if current_state == 'cancelled' or current_generation ~= waiter_generation then\n                redis")),
c("r-gen",["C18"],("                        fields[i + 1] = tostring(new_gen)\n                    end\n                end\n\n                local","                        fields[i + 1] = fields[i + 1]\n                    end\n                end\n\n                local")),
c("r-xdel",["C18"],("                redis.call('XDEL', waiters_stream, waiter_id)\n                redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)\n                redis.call('HDEL'","                redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)\n                redis.call('HDEL'")),
c("r-sid",["C18"],("redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)\n                redis.call('HDEL'","redis.call('HSET', runs_key, 'state', 'queued')\n                redis.call('HDEL'")),
c("r-hdel",["C18"],("                redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')\n","")),
c("r-safe",["C18"],("                redis.call('ZREM', queue_key, safeguard_key)\n                redis.call('DEL', parked_prefix .. safeguard_key)\n                redis.call('DEL', runs_prefix .. safeguard_key)\n\n                local payload","                local payload")),
c("r-safe-del-runs",["C18"],("                redis.call('DEL', runs_prefix .. safeguard_key)\n\n                local payload","                redis.call('DEL', runs_key)\n\n                local payload")),
c("r-slots-del",["C18"],("    if redis.call('ZCARD', slots_key) == 0 then\n        redis.call('DEL', slots_key)\n    end\n","    if redis.call('XLEN', waiters_stream) == 0 then\n        redis.call('DEL', slots_key)\n    end\n")),
c("r-other",["C18"],("    redis.call('ZREM', slots_key, task_key)\n\n    local waiters_count","    redis.call('DEL', slots_key)\n\n    local waiters_count")),
c("r-nofree",["C18"],("    redis.call('ZREM', slots_key, task_key)\n\n    local waiters_count","    local waiters_count")),
c("r-early",[],(REL,REL.replace("    if waiters_count > 0 then\n","    if waiters_count == 0 then\n        return\n    end\n    if waiters_count > 0 then\n"))),
c("s-noscav",["C18"],("    local stale = redis.call('ZRANGEBYSCORE', slots_key, 0, stale_threshold)\n    for _, s in ipairs(stale) do\n        redis.call('ZREM', slots_key, s)\n    end\n\n    local capacity","    local capacity")),
c("s-thr",["C18"],("        datetime.now(timezone.utc).timestamp() - redelivery_timeout.total_seconds()\n    )","        datetime.now(timezone.utc).timestamp()\n    )")),
c("s-capdel",["C18"],("    if capacity <= 0 then\n        return 0\n    end\n","    if capacity < 0 then\n        return 0\n    end\n")),
c("s-nochk",["C18"],("        if current_state ~= 'scheduled' or current_generation ~= waiter_generation then\n            redis","        if false then\n            redis")),
c("s-known",["C18"],("            redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)\n            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')\n","            redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)\n            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id', 'known')\n")),
c("s-queue",["C18"],("            queue_key=docket.queue_key,\n            max_concurrent=max_concurrent,\n            stale_threshold=stale_threshold,\n            runs_prefix","            queue_key=docket.stream_key,\n            max_concurrent=max_concurrent,\n            stale_threshold=stale_threshold,\n            runs_prefix")),
c("x-all",["C18"],("    redis.call('XDEL', waiters_stream, waiter_entry_id)\n    if","    if")),
c("x-delall",["C18"],("    if redis.call('XLEN', waiters_stream) == 0 then\n        redis.call('DEL', waiters_stream)\n    end\n\n    -- claim()","    redis.call('DEL', waiters_stream)\n\n    -- claim()")),
c("x-hdel",["C18"],("    redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')\n    \"\"\"","    redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id', 'known')\n    \"\"\"")),
c("x-safe",["C18"],("        await docket.cancel(f\"__safeguard__:{task_key}\")\n","")),
c("x-dereg",["C18"],("        docket.register(_safeguard_wake)\n","")),
c("x-pattern",["C18"],("pattern = f\"{docket.prefix}:cancel:*\"","pattern = f\"{docket.prefix}:cancelled:*\"")),
]
