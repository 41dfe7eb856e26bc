"""Edits of clearing that change no behaviour."""
D="docket.py"
def c(name, *edits, f=D): return (name, f, list(edits), [])
T1='''                        # Clear scheduling markers so add() can reschedule this key
                        task_runs_key = self.runs_key(task_key)
                        pipeline.hdel(task_runs_key, "known", "stream_id")

                        # Handle runs hash: set TTL or delete based on execution_ttl
                        if self.execution_ttl:
                            ttl_seconds = int(self.execution_ttl.total_seconds())
                            pipeline.expire(task_runs_key, ttl_seconds)
                        else:
                            pipeline.delete(task_runs_key)
'''
T2='''                        task_runs_key = self.runs_key(task_key)
                        pipeline.hdel(task_runs_key, "known", "stream_id")
                        if self.execution_ttl:
                            ttl_seconds = int(self.execution_ttl.total_seconds())
                            pipeline.expire(task_runs_key, ttl_seconds)
                        else:
                            pipeline.delete(task_runs_key)
'''
CASES=[
c("helper",(T1,'                        self._forget(pipeline, task_key)\n'),(T2,'                        self._forget(pipeline, task_key)\n'),('    async def clear(self)','''    def _forget(self, pipeline: Any, task_key: str) -> None:
        task_runs_key = self.runs_key(task_key)
        pipeline.hdel(task_runs_key, "known", "stream_id")
        if self.execution_ttl:
            pipeline.expire(task_runs_key, int(self.execution_ttl.total_seconds()))
        else:
            pipeline.delete(task_runs_key)

    async def clear(self)''')),
c("merge",(T1,''),(T2,T2),('''                    for task_key in stream_keys:
''','''                    for task_key in [k.decode() for k in scheduled_keys] + stream_keys:
''')),
c("split",('total_cleared = len(message_ids) + queue_count\n                    return total_cleared','return queue_count + len(message_ids)')),
c("multi",('''                        pipeline.delete(self.parked_task_key(task_key))
                        pipeline.delete(self.known_task_key(task_key))
                        pipeline.delete(self.stream_id_key(task_key))
''','''                        pipeline.delete(
                            self.parked_task_key(task_key),
                            self.known_task_key(task_key),
                            self.stream_id_key(task_key),
                        )
''')),
c("running",('''                            if state == ExecutionState.RUNNING.value.encode():
                                continue
                            stream_keys.append(task_key)
                        message_ids.append(message_id)
''','''                            if state != ExecutionState.RUNNING.value.encode():
                                stream_keys.append(task_key)
                                message_ids.append(message_id)
                        else:
                            message_ids.append(message_id)
''')),
c("guard",('''                if stream_count > 0:
                    # Read''','''                if stream_count:
                    # Read''')),
c("nottl",('''                        if self.execution_ttl:
                            ttl_seconds = int(self.execution_ttl.total_seconds())
                            pipeline.expire(task_runs_key, ttl_seconds)
                        else:
                            pipeline.delete(task_runs_key)

                    await''','''                        if not self.execution_ttl:
                            pipeline.delete(task_runs_key)
                            continue
                        pipeline.expire(task_runs_key, int(self.execution_ttl.total_seconds()))

                    await''')),
c("decode",('''state = await redis.hget(self.runs_key(task_key), "state")
                            if state == ExecutionState.RUNNING.value.encode():''','''state = await redis.hget(self.runs_key(task_key), "state")
                            if state and state.decode() == ExecutionState.RUNNING:''')),
c("always",('                    if message_ids:\n                        pipeline.xdel','                    if len(message_ids) > 0:\n                        pipeline.xdel')),
]
