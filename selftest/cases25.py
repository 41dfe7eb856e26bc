"""Further bugs across the dependencies, the strikes and the progress."""
CASES=[
("s-cooldown-error","dependencies/_cooldown.py",[("if exc_type is not None and issubclass(exc_type, AdmissionBlocked):","if exc_type is not None:")],["C41"]),
("s-cooldown-not-own","dependencies/_cooldown.py",[("            acquired = await redis.set(cooldown_key, 1, nx=True, px=window_ms)\n","            acquired = await redis.set(cooldown_key, 1, nx=True, px=window_ms)\n            if not acquired and execution.attempt > 1:\n                acquired = True\n")],["C41"]),
("s-cooldown-extends","dependencies/_cooldown.py",[("        if not acquired:\n            raise","        if not acquired:\n            async with docket.redis() as redis:\n                await redis.pexpire(cooldown_key, window_ms)\n            raise")],["C41"]),
("s-debounce-short-ttl","dependencies/_debounce.py",[("ttl_ms = settle_ms * 10","ttl_ms = max(1, settle_ms // 2)")],["C42"]),
("s-debounce-winner-refreshes","dependencies/_debounce.py",[("            redis.call('PEXPIRE', winner_key, ttl_ms)\n            redis.call('PEXPIRE', seen_key, ttl_ms)\n","            redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)\n            redis.call('PEXPIRE', winner_key, ttl_ms)\n")],["C42"]),
("s-debounce-loser-quiet","dependencies/_debounce.py",[("    redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)\n    redis.call('PEXPIRE', winner_key, ttl_ms)\n","    redis.call('PEXPIRE', winner_key, ttl_ms)\n")],["C42"]),
("s-timeout-done-late","dependencies/_timeout.py",[("                if self.expired():\n                    timed_out = True\n                    break\n","                if self.remaining() < timedelta(milliseconds=5):\n                    timed_out = True\n                    break\n")],["C37"]),
("s-timeout-extend-absolute","dependencies/_timeout.py",[("        self._deadline += by.total_seconds()","        self._deadline = time.monotonic() + by.total_seconds()")],["C37"]),
("s-timeout-shared","dependencies/_timeout.py",[("        return Timeout(base=self.base)\n","        return self\n")],["C37"]),
("s-strikes-last-per-batch","strikelist.py",[("                last_id = message_id\n                instruction","                instruction"),("        return last_id, initial_load_complete\n\n","        return last_id, initial_load_complete\n\n")],["C10"]),
("s-strikes-loaded-early","strikelist.py",[("        for _, messages in streams:\n            for message_id, message in messages:\n                last_id","        if not initial_load_complete:\n            initial_load_complete = True\n            assert self._strikes_loaded is not None\n            self._strikes_loaded.set()\n        for _, messages in streams:\n            for message_id, message in messages:\n                last_id")],["C10"]),
("s-strikes-first-stream","strikelist.py",[("            for message_id, message in messages:\n                last_id = message_id","            for message_id, message in messages[:50]:\n                last_id = messages[-1][0]")],["C10"]),
("s-reseed-once","worker.py",[("                logger.exception(\n                    \"Error re-seeding automatic perpetual tasks\",\n                    extra=log_context,\n                )\n","                logger.exception(\n                    \"Error re-seeding automatic perpetual tasks\",\n                    extra=log_context,\n                )\n                return\n")],["C40"]),
("s-progress-total-kept","_execution_progress.py",[("        self.total = total\n        self.updated_at = updated_at_dt","        self.total = max(self.total, total)\n        self.updated_at = updated_at_dt")],["C27"]),
("s-progress-message-empty","_execution_progress.py",[("        if message is not None:\n            fields","        if message:\n            fields")],["C27"]),
("s-progress-sync-stale","_execution_progress.py",[("                        data[b\"message\"].decode() if b\"message\" in data else None","                        data[b\"message\"].decode() if b\"message\" in data else self.message")],["C27"]),
("s-progress-increment-local","_execution_progress.py",[("        self.current = new_current\n","        self.current = (self.current or 0) + amount\n")],["C27"]),
("s-depth-prefix","worker.py",[("                        min_idle_time=int(\n                            self.redelivery_timeout.total_seconds() * 1000\n                        ),","                        min_idle_time=self.redelivery_timeout.seconds * 1000,")],["C13"]),
("s-slots-batch","worker.py",[("            nonlocal available_slots\n            available_slots -= 1","            nonlocal available_slots\n            if not is_redelivery:\n                available_slots -= 1")],["C12"]),
]
