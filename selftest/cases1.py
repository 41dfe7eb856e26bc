E_="execution.py"; D="docket.py"; W="worker.py"
CASES=[
("add-running",E_,[("if state == 'running' then\n                return 'EXISTS'","if state == 'running_' then\n                return 'EXISTS'")],["C01"]),
("add-legacy",E_,[("known_exists = redis.call('EXISTS', known_key) == 1","known_exists = redis.call('EXISTS', known_key) == 2")],["C01"]),
("add-known-dup",E_,[("        if known_exists then\n            return 'EXISTS'","        if known_exists and is_immediate then\n            return 'EXISTS'")],["C01"]),
("replace-nodel-stream",E_,[("            redis.call('XDEL', stream_key, existing_message_id)\n","")],["C02"]),
("replace-nozrem",E_,[("        redis.call('ZREM', queue_key, task_key)\n        redis.call('DEL', parked_key)\n","        redis.call('DEL', parked_key)\n")],["C02"]),
("resched-noack",E_,[("        redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)\n        redis.call('XDEL', stream_key, reschedule_message_id)\n","        redis.call('XDEL', stream_key, reschedule_message_id)\n")],["C02"]),
("resched-noknown",E_,[("                'when', when_timestamp,\n                'known', when_timestamp,\n                'stream_id', new_message_id,","                'when', when_timestamp,\n                'stream_id', new_message_id,")],["C02"]),
("no-gen-message",E_,[("    if generation_index then\n        message[generation_index] = tostring(new_gen)\n    end\n\n    if is_immediate then\n        -- Add to","    if generation_index and is_immediate then\n        message[generation_index] = tostring(new_gen)\n    end\n\n    if is_immediate then\n        -- Add to")],["C02","C03"]),
("claim-ge",E_,[("if tonumber(current) > generation then","if tonumber(current) > generation + 1 then")],["C03"]),
("claim-missing",E_,[("        if not current then\n            -- Runs hash was","        if not current and message_id == '' then\n            -- Runs hash was")],["C03"]),
("claim-super-noack",E_,[("            if message_id ~= '' then\n                redis.call('XACK', stream_key, worker_group_name, message_id)\n                redis.call('XDEL', stream_key, message_id)\n            end\n            return 'SUPERSEDED'\n        end\n    end","            return 'SUPERSEDED'\n        end\n    end")],["C03"]),
("term-progress",E_,[("if not progress_gen or tonumber(progress_gen) <= generation then","if not progress_gen or tonumber(progress_gen) >= generation then")],["C03"]),
("term-nopub",E_,[("            redis.call('PUBLISH', state_channel, state_payload)\n            -- Only DEL","            -- Only DEL")],["C03"]),
("term-gone",E_,[("if not current or tonumber(current) > generation then","if current and tonumber(current) > generation then")],["C03"]),
("super-ge",E_,[("return current_gen > self._generation","return current_gen >= self._generation")],["C03"]),
("mover-noclear",W,[("                redis.call('DEL', hash_key)\n","")],["C04"]),
("mover-score",W,[("redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp)","redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp + 1)")],["C04"]),
("mover-rem",W,[("redis.call('ZREMRANGEBYSCORE', queue_key, 0, now_timestamp)","redis.call('ZREMRANGEBYSCORE', queue_key, '-inf', '+inf')")],["C04"]),
("mover-nosid",W,[("'state', 'queued', 'stream_id', message_id)","'state', 'queued')")],["C04"]),
("cancel-legacy",D,[("            message_id = redis.call('GET', stream_id_key)","        message_id = message_id")],["C05"]) if False else
("cancel-nosid",D,[("    redis.call('HDEL', runs_key, 'known', 'stream_id')\n\n    -- Only set","    redis.call('HDEL', runs_key, 'known')\n\n    -- Only set")],["C05"]),
("cancel-term",D,[("current_state ~= 'completed' and current_state ~= 'failed'","current_state ~= 'completed'")],["C05"]),
("cancel-noprog",D,[("    redis.call('DEL', progress_key)\n","")],["C05"]),
("cancel-chan",D,[('self.cancel_channel(key)','self.cancel_channel(self.name)')],["C05"]),
("claim-noknown",E_,[("    redis.call('HDEL', runs_key, 'known', 'stream_id')\n\n    -- TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup\n    redis.call('DEL', known_key","    redis.call('HDEL', runs_key, 'stream_id')\n\n    -- TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup\n    redis.call('DEL', known_key")],["C06"]),
("term-ttl",E_,[("    if ttl_seconds > 0 then\n        redis.call('EXPIRE', runs_key, ttl_seconds)","    if ttl_seconds > 0 then\n        if state ~= 'cancelled' then redis.call('EXPIRE', runs_key, ttl_seconds) end")],["C06"]),
("term-error",E_,[('if error:\n            extra_fields.extend(["error", error])','if error and not result_key:\n            extra_fields.extend(["error", error])')],["C06"]),
("term-xdel",E_,[("        redis.call('XACK', stream_key, worker_group_name, message_id)\n        redis.call('XDEL', stream_key, message_id)\n    end\n\n    return 'OK'","        redis.call('XACK', stream_key, worker_group_name, message_id)\n    end\n\n    return 'OK'")],["C06"]),
]
