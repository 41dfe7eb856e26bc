"""Mutants of clearing a docket."""
D="docket.py"
def c(name, *edits, f=D, ids=("C39",)): return (name, f, list(edits), list(ids))
CASES=[
c("cl-trim",('                        pipeline.xdel(self.stream_key, *message_ids)','                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)')),
c("cl-nocheck",('                            if state == ExecutionState.RUNNING.value.encode():\n                                continue\n','')),
c("cl-wrongstate",('if state == ExecutionState.RUNNING.value.encode():','if state == ExecutionState.QUEUED.value.encode():')),
c("cl-noknown",('                        pipeline.hdel(task_runs_key, "known", "stream_id")\n\n','')),
c("cl-noknown2",('                        pipeline.hdel(task_runs_key, "known", "stream_id")\n                        if','                        if')),
c("cl-noparked",('                        pipeline.delete(self.parked_task_key(task_key))\n','')),
c("cl-noqueue",('                    pipeline.delete(self.queue_key)\n','')),
c("cl-part",('                    messages = await redis.xrange(self.stream_key, "-", "+")','                    messages = await redis.xrange(self.stream_key, "-", "+", count=100)')),
c("cl-part2",('pipeline.zrange(self.queue_key, 0, -1)\n\n                    stream','pipeline.zrange(self.queue_key, 0, 99)\n\n                    stream')),
c("cl-count",('total_cleared = len(message_ids) + queue_count','total_cleared = stream_count + queue_count')),
c("cl-count2",('total_cleared = len(message_ids) + queue_count','total_cleared = len(message_ids)')),
c("cl-count3",('total_cleared = len(message_ids) + queue_count','total_cleared = len(stream_keys) + queue_count')),
c("cl-ttl",('                            ttl_seconds = int(self.execution_ttl.total_seconds())\n                            pipeline.expire(task_runs_key, ttl_seconds)\n                        else:\n                            pipeline.delete(task_runs_key)\n\n                    # Handle','                            pass\n                        else:\n                            pipeline.delete(task_runs_key)\n\n                    # Handle')),
c("cl-ttl2",('                        else:\n                            pipeline.delete(task_runs_key)\n\n                    await','\n                    await')),
c("cl-del",('                        if self.execution_ttl:\n                            ttl_seconds = int(self.execution_ttl.total_seconds())\n                            pipeline.expire(task_runs_key, ttl_seconds)\n                        else:\n                            pipeline.delete(task_runs_key)\n\n                    await','                        pipeline.delete(task_runs_key)\n\n                    await')),
c("cl-strikes",('                    pipeline.delete(self.queue_key)\n','                    pipeline.delete(self.queue_key)\n                    pipeline.delete(self.key("strikes"))\n')),
c("cl-split",('                    pipeline.delete(self.queue_key)\n','                    pipeline.delete(self.queue_key)\n                    await pipeline.execute()\n')),
c("cl-keep",('                        message_ids.append(message_id)\n','                            message_ids.append(message_id)\n')),
c("cl-break",('                                continue\n                            stream_keys','                                break\n                            stream_keys')),
c("cl-streamonly",('                    if message_ids:\n                        pipeline.xdel','                    if stream_keys and scheduled_keys:\n                        pipeline.xdel')),
c("cl-wrongkey",('                        pipeline.delete(self.parked_task_key(task_key))\n','                        pipeline.delete(self.known_task_key(task_key))\n')),
c("cl-first",('                    if message_ids:\n                        pipeline.xdel(self.stream_key, *message_ids)','                    if message_ids:\n                        pipeline.xdel(self.stream_key, message_ids[0])')),
c("cl-noexec",('                    await pipeline.execute()\n\n                    total_cleared','                    total_cleared')),
c("cl-notx",('                async with redis.pipeline() as pipeline:\n                    # Clear all','                async with redis.pipeline(transaction=False) as pipeline:\n                    # Clear all')),
]
