"""Edits of the concurrency limit that change no behaviour."""
F="dependencies/_concurrency.py"
def c(name, *edits, f=F): return (name, f, list(edits), [])
CASES=[
c("acq-helper",("            redis.call('ZADD', slots_key, current_time, task_key)\n            redis.call('EXPIRE', slots_key, key_ttl)\n            return 1\n        end\n    else\n        if redis.call('ZCARD', slots_key) < max_concurrent then\n            redis.call('ZADD', slots_key, current_time, task_key)\n            redis.call('EXPIRE', slots_key, key_ttl)\n            return 1\n",
 "            return take()\n        end\n    else\n        if redis.call('ZCARD', slots_key) < max_concurrent then\n            return take()\n"),
 ("    local slot_time = redis.call('ZSCORE', slots_key, task_key)\n","    local function take()\n        redis.call('ZADD', slots_key, current_time, task_key)\n        redis.call('EXPIRE', slots_key, key_ttl)\n        return 1\n    end\n\n    local slot_time = redis.call('ZSCORE', slots_key, task_key)\n")),
c("acq-count-local",("        if redis.call('ZCARD', slots_key) < max_concurrent then","        local taken = redis.call('ZCARD', slots_key)\n        if max_concurrent > taken then")),
c("acq-stale-first",("        local stale_slots = redis.call('ZRANGEBYSCORE', slots_key, 0, stale_threshold, 'LIMIT', 0, 1)\n        if #stale_slots > 0 then\n            redis.call('ZREM', slots_key, stale_slots[1])\n","        local stale_slot = redis.call('ZRANGEBYSCORE', slots_key, 0, stale_threshold, 'LIMIT', 0, 1)[1]\n        if stale_slot then\n            redis.call('ZREM', slots_key, stale_slot)\n")),
c("acq-loop-find",("        message[#message + 1] = field_name\n        message[#message + 1] = field_value\n","        table.insert(message, field_name)\n        table.insert(message, field_value)\n")),
c("acq-xack-order",("    redis.call('XACK', stream_key, worker_group_name, message_id)\n    redis.call('XDEL', stream_key, message_id)\n","    redis.call('XDEL', stream_key, message_id)\n    redis.call('XACK', stream_key, worker_group_name, message_id)\n")),
c("acq-two-hset",("        'known', current_time,\n        'waiter_stream', waiters_stream,\n","        'known', current_time\n    )\n    redis.call('HSET', runs_key,\n        'waiter_stream', waiters_stream,\n")),
c("rel-decode-helper",("            local waiter_task_key, waiter_generation\n            for i = 1, #fields, 2 do\n                if fields[i] == 'key' then\n                    waiter_task_key = fields[i + 1]\n                elseif fields[i] == 'generation' then\n                    waiter_generation = fields[i + 1]\n                end\n            end\n","            local function field(name)\n                for i = 1, #fields, 2 do\n                    if fields[i] == name then\n                        return fields[i + 1]\n                    end\n                end\n            end\n            local waiter_task_key = field('key')\n            local waiter_generation = field('generation')\n")),
c("rel-hmget",("            local current_state = redis.call('HGET', runs_key, 'state')\n            local current_generation = redis.call('HGET', runs_key, 'generation')\n","            local current = redis.call('HMGET', runs_key, 'state', 'generation')\n            local current_state, current_generation = current[1], current[2]\n")),
c("rel-drop-safeguard",("            if current_state ~= 'scheduled' or current_generation ~= waiter_generation then\n                redis.call('XDEL', waiters_stream, waiter_id)\n                -- Cancelled/superseded waiter: drop its safeguard backstop too.\n                redis.call('ZREM', queue_key, safeguard_key)\n                redis.call('DEL', parked_prefix .. safeguard_key)\n                redis.call('DEL', runs_prefix .. safeguard_key)\n            else","            redis.call('XDEL', waiters_stream, waiter_id)\n            redis.call('ZREM', queue_key, safeguard_key)\n            redis.call('DEL', parked_prefix .. safeguard_key, runs_prefix .. safeguard_key)\n            if current_state == 'scheduled' and current_generation == waiter_generation then"),
 ("                redis.call('XDEL', waiters_stream, waiter_id)\n                redis.call('HSET'","                redis.call('HSET'"),
 ("                -- Cancel the safeguard task this waiter scheduled on park.\n                -- It's no longer needed; leaving it in the future queue would\n                -- keep the worker awake for one redelivery_timeout for nothing.\n                redis.call('ZREM', queue_key, safeguard_key)\n                redis.call('DEL', parked_prefix .. safeguard_key)\n                redis.call('DEL', runs_prefix .. safeguard_key)\n","")),
c("rel-remrangebyscore",("        local stale = redis.call('ZRANGEBYSCORE', slots_key, 0, stale_threshold)\n        for _, s in ipairs(stale) do\n            redis.call('ZREM', slots_key, s)\n        end\n    end","        redis.call('ZREMRANGEBYSCORE', slots_key, '-inf', stale_threshold)\n    end")),
c("rel-guard-return",("    local capacity = max_concurrent - redis.call('ZCARD', slots_key)\n    if capacity > 0 then\n        local entries","    local taken = redis.call('ZCARD', slots_key)\n    if taken < max_concurrent then\n        local capacity = max_concurrent - taken\n        local entries")),
c("rel-no-escape-local",("                local payload = '{\"type\":\"state\",\"key\":\"' .. json_escape(waiter_task_key) .. '\",\"state\":\"queued\"}'\n                redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)\n            end","                redis.call('PUBLISH', state_prefix .. waiter_task_key, '{\"type\":\"state\",\"key\":\"' .. json_escape(waiter_task_key) .. '\",\"state\":\"queued\"}')\n            end")),
c("sweep-early",("    if waiters_count == 0 then\n        redis.call('DEL', waiters_stream)\n        return 0\n    end\n","    if not (waiters_count > 0) then\n        redis.call('DEL', waiters_stream)\n        return 0\n    end\n")),
c("enter-helpers",("        current_time = datetime.now(timezone.utc).timestamp()\n        stale_threshold = current_time - redelivery_timeout.total_seconds()\n        key_ttl = max(\n            MINIMUM_TTL_SECONDS,\n            int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),\n        )\n\n        # One","        current_time, stale_threshold, key_ttl = _timing(redelivery_timeout)\n\n        # One"),
 ("class ConcurrencyBlocked(","def _timing(redelivery_timeout: timedelta) -> tuple[float, float, int]:\n    period = redelivery_timeout.total_seconds()\n    now = datetime.now(timezone.utc).timestamp()\n    return now, now - period, max(MINIMUM_TTL_SECONDS, int(period * LEASE_RENEWAL_FACTOR))\n\n\nclass ConcurrencyBlocked(")),
c("enter-key-method",("        scope = f\"{docket.prefix}:{self.scope}\" if self.scope else docket.prefix\n        if self.argument_name is not None:\n            try:","        scope = docket.prefix\n        if self.scope:\n            scope = f\"{scope}:{self.scope}\"\n        if self.argument_name is not None:\n            try:")),
c("enter-acquired-first",("        if not bool(result):  # pragma: no branch\n","        acquired = bool(result)\n        if not acquired:\n")),
c("enter-safeguard-method",("            safeguard_key = f\"__safeguard__:{execution.key}\"\n            await docket.add(\n                _safeguard_wake,\n                when=datetime.now(timezone.utc) + redelivery_timeout,\n                key=safeguard_key,\n            )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)\n","            safeguard_key = f\"__safeguard__:{execution.key}\"\n            schedule = docket.add(\n                _safeguard_wake,\n                when=datetime.now(timezone.utc) + redelivery_timeout,\n                key=safeguard_key,\n            )\n            await schedule(waiters_stream, self.max_concurrent)\n")),
c("enter-cls",("limit = ConcurrencyLimit(self.argument_name, self.max_concurrent, self.scope)","limit = type(self)(self.argument_name, self.max_concurrent, self.scope)")),
c("renew-pipeline-local",("                    current_time = datetime.now(timezone.utc).timestamp()\n                    await redis.zadd(\n                        self._concurrency_key,\n                        {self._task_key: current_time},\n                    )\n","                    slot = {self._task_key: datetime.now(timezone.utc).timestamp()}\n                    await redis.zadd(self._concurrency_key, slot)\n")),
c("cleanup-early",("            if not waiter_stream_b or not waiter_entry_id_b:\n                return\n            waiter_stream = waiter_stream_b.decode()\n            waiter_entry_id = waiter_entry_id_b.decode()\n            await _cancel_cleanup(\n                redis,\n                waiters_stream=waiter_stream,\n                progress_key=f\"{docket.prefix}:progress:{task_key}\",\n                runs_key=runs_key,\n                waiter_entry_id=waiter_entry_id,\n            )\n","            if not (waiter_stream_b and waiter_entry_id_b):\n                return\n            await _cancel_cleanup(\n                redis,\n                waiters_stream=waiter_stream_b.decode(),\n                progress_key=docket.key(f\"progress:{task_key}\"),\n                runs_key=runs_key,\n                waiter_entry_id=waiter_entry_id_b.decode(),\n            )\n")),
c("subscriber-flat",("                    if isinstance(data, bytes):\n                        task_key = data.decode()\n                    elif isinstance(data, str):\n                        task_key = data\n                    else:  # pragma: no cover\n                        continue\n                    if not task_key:  # pragma: no cover\n                        continue\n                    await cls._cleanup_cancelled_waiter(docket, task_key)","                    task_key = data.decode() if isinstance(data, bytes) else data\n                    if task_key:\n                        await cls._cleanup_cancelled_waiter(docket, task_key)")),
c("lifecycle-gather",("        try:\n            yield\n        finally:\n            cancel_task_handle.cancel()\n            await asyncio.gather(cancel_task_handle, return_exceptions=True)","        try:\n            yield\n        finally:\n            await cancel_task(cancel_task_handle, CANCEL_MSG_CLEANUP)")),
c("wake-removesuffix",("    concurrency_key = waiter_stream[: -len(\":waiters\")]","    concurrency_key = waiter_stream.removesuffix(\":waiters\")")),
]
