E_="execution.py"; D="docket.py"; W="worker.py"
CASES=[
("terminal-helper",E_,[("""    -- Check supersession (generation 0 = pre-tracking, always write).  Two""","""    local function settle()
        if message_id ~= '' then
            redis.call('XACK', stream_key, worker_group_name, message_id)
            redis.call('XDEL', stream_key, message_id)
        end
    end
    local function superseded()
        if generation <= 0 then return false end
        local cur = redis.call('HGET', runs_key, 'generation')
        return (not cur) or tonumber(cur) > generation
    end
    -- Check supersession (generation 0 = pre-tracking, always write).  Two"""),("""    if generation > 0 then
        local current = redis.call('HGET', runs_key, 'generation')
        if not current or tonumber(current) > generation then
            redis.call('PUBLISH', state_channel, state_payload)""","""    do
        if superseded() then
            redis.call('PUBLISH', state_channel, state_payload)"""),("""            if message_id ~= '' then
                redis.call('XACK', stream_key, worker_group_name, message_id)
                redis.call('XDEL', stream_key, message_id)
            end
            return 'SUPERSEDED'
        end
    end

    -- Build""","""            settle()
            return 'SUPERSEDED'
        end
    end

    -- Build"""),("""    if message_id ~= '' then
        redis.call('XACK', stream_key, worker_group_name, message_id)
        redis.call('XDEL', stream_key, message_id)
    end

    return 'OK'
    \"\"\"
    ...


def get_sig""","""    settle()

    return 'OK'
    \"\"\"
    ...


def get_sig""")],[]),
("py-helper-terminal",E_,[("""        # Pre-build the terminal-state payload; the Lua publishes it on both
        # the success and supersession paths.
        state_payload_data: dict[str, str] = {
            "type": "state",
            "key": self.key,
            "state": state.value,
            "completed_at": completed_at,
        }
        if error:
            state_payload_data["error"] = error
        state_payload = json.dumps(state_payload_data)
""","""        state_payload = self._payload(state, completed_at, error)
"""),("""    async def mark_as_completed(self""","""    def _payload(self, state: ExecutionState, at: str, error: str | None) -> str:
        data: dict[str, str] = {"type": "state", "key": self.key, "state": state.value}
        data["completed_at"] = at
        if error:
            data = {**data, "error": error}
        return json.dumps(data)

    async def mark_as_completed(self""")],[]),
("sched-reorder",E_,[("""        redis.call('ZREM', queue_key, task_key)
        redis.call('DEL', parked_key)

        -- TODO""","""        redis.call('DEL', parked_key)
        redis.call('ZREM', queue_key, task_key)

        -- TODO"""),("""            redis.call('XDEL', stream_key, existing_message_id)
        end

""","""            local gone = existing_message_id
            redis.call('XDEL', stream_key, gone)
        end

""")],[]),
("mover-loop",W,[("        for i, key in ipairs(tasks) do\n            local hash_key","        for i = 1, #tasks do\n            local key = tasks[i]\n            local hash_key")],[]),
("mover-helper",W,[("""                local run_key = docket_prefix .. ":runs:" .. task['key']
                redis.call('HSET', run_key, 'state', 'queued', 'stream_id', message_id)
""","""                local run_key = docket_prefix .. ":runs:" .. task['key']
                redis.call('HSET', run_key, 'stream_id', message_id)
                redis.call('HSET', run_key, 'state', 'queued')
"""),("""                redis.call('DEL', hash_key)

                -- Set run""","""                -- Set run"""),("""                due_work = due_work + 1
""","""                redis.call('DEL', hash_key)
                due_work = due_work + 1
""")],[]),
("claim-merge",E_,[("""        if not current then
            -- Runs hash was cleaned up (execution_ttl=0 after
            -- a newer generation completed).  This message is stale.
            if message_id ~= '' then
                redis.call('XACK', stream_key, worker_group_name, message_id)
                redis.call('XDEL', stream_key, message_id)
            end
            return 'SUPERSEDED'
        end
        if tonumber(current) > generation then""","""        if (not current) or generation < tonumber(current) then""")],[]),
("cancel-table",D,[("""    if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then""","""    local finished = {completed = true, failed = true, cancelled = true}
    if not (current_state and finished[current_state]) then""")],[]),
("cancel-invert",D,[("""    if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then""","""    local finished = current_state == 'completed' or current_state == 'failed' or current_state == 'cancelled'
    if not finished then""")],[]),
("py-claim-invert",E_,[("""        if result == b"SUPERSEDED":
            # The `_claim`""","""        claimed = result != b"SUPERSEDED"
        if not claimed:
            # The `_claim`""")],[]),
("is-super",E_,[("""        current_gen = int(current) if current is not None else 0
        return current_gen > self._generation""","""        if current is None:
            return False
        return self._generation < int(current)""")],[]),
("sched-if",E_,[("""        if known_exists then
            return 'EXISTS'
        end
    end
""","""        if not known_exists then
            -- fall through
        else
            return 'EXISTS'
        end
    end
""")],[]),
("sched-state",E_,[("""            local state = redis.call('HGET', runs_key, 'state')
            if state == 'running' then
                return 'EXISTS'
            end
            -- TODO: Remove in next breaking release (v0.14.0) - check legacy location
            known_exists = redis.call('EXISTS', known_key) == 1""","""            known_exists = redis.call('EXISTS', known_key) == 1 or redis.call('HGET', runs_key, 'state') == 'running'""")],[]),
("hmget",E_,[("""        local known_exists = redis.call('HEXISTS', runs_key, 'known') == 1""","""        local known_exists = redis.call('HGET', runs_key, 'known') ~= false""")],[]),
("cancel-py-const",D,[("""        await self._publish""","""        await self._publish""")],[]) ,
]
