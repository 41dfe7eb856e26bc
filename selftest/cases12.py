"""Mutants of snapshots."""
S="_docket_snapshot.py"
def c(name, *edits, f=S, ids=("C33",)): return (name, f, list(edits), list(ids))
CASES=[
c("sn-total",('total_tasks = total_stream_messages + total_schedule_messages','total_tasks = total_stream_messages + len(queued_messages)')),
c("sn-total2",('total_tasks = total_stream_messages + total_schedule_messages','total_tasks = len(stream_messages) + total_schedule_messages')),
c("sn-notx",('async with r.pipeline() as pipeline:','async with r.pipeline(transaction=False) as pipeline:')),
c("sn-parked",('pipeline.hgetall(self.parked_task_key(task_key.decode()))','pipeline.hgetall(self.key(f"runs:{task_key.decode()}"))')),
c("sn-empty",('m for m in await pipeline.execute() if m\n','m for m in await pipeline.execute()\n')),
c("sn-swap",('            if message_id in pending_lookup:','            if message_id not in pending_lookup:')),
c("sn-both",('            else:\n                future.append(execution)  # pragma: no cover','            future.append(execution)  # pragma: no cover')),
c("sn-drop",('            else:\n                future.append(execution)  # pragma: no cover\n','')),
c("sn-idle",('milliseconds=pending_lookup[message_id]["time_since_delivered"]','seconds=pending_lookup[message_id]["time_since_delivered"]')),
c("sn-idle2",('milliseconds=pending_lookup[message_id]["time_since_delivered"]','milliseconds=pending_lookup[message_id]["times_delivered"]')),
c("sn-consumer",('worker_name = pending_lookup[message_id]["consumer"].decode()','worker_name = pending_messages[0]["consumer"].decode()')),
c("sn-count",('                    count=1000,\n                )\n\n                pipeline.xrange','                    count=100,\n                )\n\n                pipeline.xrange')),
c("sn-count2",('pipeline.xrange(self.stream_key, "-", "+", count=1000)','pipeline.xrange(self.stream_key, "-", "+", count=50)')),
c("sn-queue",('pipeline.zrange(self.queue_key, 0, -1)','pipeline.zrange(self.queue_key, 0, 100)')),
c("sn-queue2",('pipeline.zrange(self.queue_key, 0, -1)','pipeline.zrangebyscore(self.queue_key, now.timestamp(), "+inf")'),('                total_stream_messages: int\n','                total_stream_messages: int\n')),
c("sn-group",('                    if "NOGROUP" in error_str or "XPENDING" in error_str:\n                        await self._ensure_stream_and_group()\n                        return await self.snapshot()\n','                    if "NOGROUP" in error_str or "XPENDING" in error_str:\n                        return DocketSnapshot(now, 0, [], [], await self.workers())\n')),
c("sn-group2",('                    if "NOGROUP" in error_str or "XPENDING" in error_str:\n                        await','                    if True:\n                        await')),
c("sn-xlen",('pipeline.zcard(self.queue_key)','pipeline.zcount(self.queue_key, 0, datetime.now(timezone.utc).timestamp())')),
c("sn-workers",('        workers = await self.workers()\n','        workers: Collection[WorkerInfo] = [WorkerInfo(e.worker, e.started, set()) for e in running]\n')),
c("re-name",('            function_name=execution.function_name,\n','')),
c("re-attempt",('            attempt=execution.attempt,\n','')),
c("re-state",('self.state: ExecutionState = execution.state','self.state: ExecutionState = ExecutionState.RUNNING')),
c("re-redel",('            redelivered=execution.redelivered,\n','')),
c("re-started",('self.started_at: datetime | None = execution.started_at','self.started_at: datetime | None = started')),
c("re-worker",('self.worker = worker','self.worker = execution.docket.name')),
c("sn-two",('                pipeline.zcard(self.queue_key)\n','                pipeline.zcard(self.queue_key)\n                first = await pipeline.execute()\n'),('                    (\n                        total_stream_messages,\n                        total_schedule_messages,\n                        pending','                    total_stream_messages, total_schedule_messages = first\n                    (\n                        pending')),
c("sn-msg",('            if message_id in pending_lookup:\n','            if message in pending_lookup:\n')),
]
