"""Edits of snapshots that change no behaviour."""
S="_docket_snapshot.py"
def c(name, *edits, f=S): return (name, f, list(edits), [])
LOOK='''        pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
            pending["message_id"]: pending for pending in pending_messages
        }
'''
STREAM=''' in stream_messages:
            execution = await Execution.from_message(docket, message)
            if message_id in pending_lookup:
                worker_name = pending_lookup[message_id]["consumer"].decode()
                started = now - timedelta(
                    milliseconds=pending_lookup[message_id]["time_since_delivered"]
                )
                running.append(RunningExecution(execution, worker_name, started))
            else:
                future.append(execution)  # pragma: no cover
'''
CASES=[
c("get",(STREAM,''' in stream_messages:
            execution = await Execution.from_message(docket, message)
            delivery = pending_lookup.get(message_id)
            if delivery is None:
                future.append(execution)
                continue
            idle = timedelta(milliseconds=delivery["time_since_delivered"])
            running.append(
                RunningExecution(
                    execution, worker=delivery["consumer"].decode(), started=now - idle
                )
            )
''')),
c("loopdict",(LOOK,'''        pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {}
        for pending in pending_messages:
            pending_lookup[pending["message_id"]] = pending
''')),
c("helper",(LOOK,'''        pending_lookup = self._pending_by_id(pending_messages)
'''),('    async def workers(self)','''    @staticmethod
    def _pending_by_id(pending_messages):
        return {pending["message_id"]: pending for pending in pending_messages}

    async def workers(self)''')),
c("queueloop",('''                queued_messages: list[RedisMessage] = [
                    m for m in await pipeline.execute() if m
                ]
''','''                queued_messages: list[RedisMessage] = []
                for m in await pipeline.execute():
                    if m:
                        queued_messages.append(m)
''')),
c("direct",('''                for task_key in scheduled_task_keys:
                    pipeline.hgetall(self.parked_task_key(task_key.decode()))
''','''                parked_keys = [self.parked_task_key(k.decode()) for k in scheduled_task_keys]
                for parked_key in parked_keys:
                    pipeline.hgetall(parked_key)
''')),
c("kw",('return DocketSnapshot(now, total_tasks, future, running, workers)','''return DocketSnapshot(
            taken=now,
            total_tasks=total_tasks,
            running=running,
            future=future,
            workers=workers,
        )''')),
c("split",('        total_tasks = total_stream_messages + total_schedule_messages\n\n',''),('return DocketSnapshot(now, total_tasks,','return DocketSnapshot(now, total_schedule_messages + total_stream_messages,')),
c("comp",('''        for message in queued_messages:
            execution = await Execution.from_message(docket, message)
            future.append(execution)
''','''        future.extend(
            [await Execution.from_message(docket, message) for message in queued_messages]
        )
''')),
c("fields",('''            docket=execution.docket,
            function=execution.function,
            args=execution.args,
''','''            execution.docket,
            execution.function,
            execution.args,
''')),
c("loopread",('''        for message_id, message in stream_messages:''','''        for entry in stream_messages:
            message_id, message = entry''')),
c("ids",('''            if message_id in pending_lookup:
                worker_name = pending_lookup[message_id]["consumer"].decode()
                started = now - timedelta(
                    milliseconds=pending_lookup[message_id]["time_since_delivered"]
                )
''','''            delivery = pending_lookup.get(message_id)
            if delivery:
                worker_name = delivery["consumer"].decode()
                started = now - timedelta(
                    seconds=delivery["time_since_delivered"] / 1000
                )
''')),
]
