From 0a2a3d76f19ade1455def6da8a675bb794c77649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 01/30] fix: start a fresh run record when a key is scheduled
 again

A finished (or cancelled, or cleared) run of a key leaves its outcome fields
and an execution_ttl expiration on the runs hash.  Scheduling the key again
kept both: a task due later than the TTL lost its record and was dropped as
superseded when claimed, and a run returning None reported the previous
run's result.
---
 src/docket/execution.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index eeded38..3afe232 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -117,6 +117,12 @@ async def _schedule(
 
         -- Increment generation counter
         local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+
+        -- Only the generation survives into the new attempt's record; the
+        -- previous one's outcome fields and expiration do not describe it.
+        redis.call('DEL', runs_key)
+        redis.call('HSET', runs_key, 'generation', new_gen)
+
         if generation_index then
             message[generation_index] = tostring(new_gen)
         end
@@ -198,6 +204,15 @@ async def _schedule(
 
     -- Increment generation counter
     local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+
+    -- A finished run of this key leaves its outcome on the runs hash along
+    -- with an execution_ttl expiration.  Only the generation survives into the
+    -- new run's record: otherwise the record of a pending task may expire
+    -- before the task is due (and look superseded when it is claimed), and the
+    -- previous run's result would be reported as this one's.
+    redis.call('DEL', runs_key)
+    redis.call('HSET', runs_key, 'generation', new_gen)
+
     if generation_index then
         message[generation_index] = tostring(new_gen)
     end
-- 
2.43.0


From d898583b567d4b24295ca363ab566c2d3a14e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 02/30] fix: record the stream message of a due task moved to
 the stream

The mover did not record the new message's ID on the run record, so
cancelling or replacing a task between the move and the claim left the
message on the stream and a cancelled task still ran.
---
 src/docket/worker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 567f714..929533e 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,7 +192,7 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                redis.call('XADD', stream_key, '*',
+                local message_id = redis.call('XADD', stream_key, '*',
                     'key', task['key'],
                     'when', task['when'],
                     'function', task['function'],
@@ -203,9 +203,10 @@ async def _stream_due_tasks(
                 )
                 redis.call('DEL', hash_key)
 
-                -- Set run state to queued
+                -- Set run state to queued, recording where the message went so
+                -- that it can still be cancelled or replaced before it is claimed
                 local run_key = docket_prefix .. ":runs:" .. task['key']
-                redis.call('HSET', run_key, 'state', 'queued')
+                redis.call('HSET', run_key, 'state', 'queued', 'stream_id', message_id)
 
                 -- Publish state change event to pub/sub
                 local channel = docket_prefix .. ":state:" .. task['key']
-- 
2.43.0


From c2a282019a00b707adff1c548ebcf20c4a3332d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 03/30] fix: do not retry an execution that has been superseded

A failing run whose key was replaced while it ran rescheduled itself over
the replacement: the replacement was lost and the old call ran again.
---
 src/docket/dependencies/_retry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 6f3592b..2dd14aa 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -103,6 +103,11 @@ class Retry(FailureHandler["Retry"]):
         if self.attempts is not None and execution.attempt >= self.attempts:
             return False
 
+        # A newer schedule for this key (e.g. docket.replace()) owns the task
+        # now; retrying would supersede it and revive the old call.
+        if await execution.is_superseded():
+            return False
+
         execution.when = datetime.now(timezone.utc) + self.delay
         execution.attempt += 1
         # Pass both replace=True and the original message_id.  The reschedule
-- 
2.43.0


From 2cc187578d832fe1e21a52881ac89393939bd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 04/30] fix: scavenging an over-subscribed concurrency limit
 wakes nobody

With more live slots than the limit (e.g. after lowering max_concurrent)
the capacity is negative; the safeguard passed it on as an XRANGE COUNT and
failed with a script error, where the release path treats it as full.
---
 src/docket/dependencies/_concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 30ffa6c..8ccc884 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -315,7 +315,7 @@ async def _scavenge_and_wake(
     end
 
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity == 0 then
+    if capacity <= 0 then
         return 0
     end
 
-- 
2.43.0


From 00cae812758e6b2e665acc40e6909a3a50400fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 05/30] fix: announce the cancellation of a pending task

Cancelling a task that had not started wrote its cancelled state but never
published it, so get_result() and subscribers waiting on it hung.
---
 src/docket/docket.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad8e775..b6d5992 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,4 +1,5 @@
 import importlib
+import json
 import logging
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
@@ -42,6 +43,7 @@ from ._uuid7 import uuid7
 from .execution import (
     Disposition,
     Execution,
+    ExecutionState,
     TaskFunction,
 )
 from .instrumentation import (
@@ -74,8 +76,10 @@ async def _cancel_task(
     stream_id_key: Key[str],
     runs_key: Key[str],
     progress_key: Key[str],
+    state_channel: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    state_payload: Arg[str],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -111,6 +115,12 @@ async def _cancel_task(
     local current_state = redis.call('HGET', runs_key, 'state')
     if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+
+        -- A pending task has no worker to announce its end, so tell anyone
+        -- waiting on it here; a running one is announced by its worker.
+        if current_state and current_state ~= 'running' then
+            redis.call('PUBLISH', state_channel, state_payload)
+        end
     end
 
     return 'OK'
@@ -764,8 +774,17 @@ class Docket(DocketSnapshotMixin):
             stream_id_key=self.stream_id_key(key),
             runs_key=task_runs_key,
             progress_key=self.key(f"progress:{key}"),
+            state_channel=self.key(f"state:{key}"),
             task_key=key,
             completed_at=completed_at,
+            state_payload=json.dumps(
+                {
+                    "type": "state",
+                    "key": key,
+                    "state": ExecutionState.CANCELLED.value,
+                    "completed_at": completed_at,
+                }
+            ),
         )
 
         # Apply TTL or delete tombstone based on execution_ttl
-- 
2.43.0


From ad4fd7fc99729ad8238fb555de56ebe9fbe10b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 06/30] fix: subscribe before reading the current state

Execution.subscribe() read the state first and subscribed afterwards; a
completion landing in between was lost, and get_result() waited forever.
---
 src/docket/execution.py | 70 ++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 3afe232..f97788b 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1129,45 +1129,49 @@ class Execution:
             - For state events: type="state", state, worker, timestamps, error
             - For progress events: type="progress", current, total, message, updated_at
         """
-        # First, emit the current state
-        await self.sync()
-
-        # Build initial state event from current attributes
-        initial_state: StateEvent = {
-            "type": "state",
-            "key": self.key,
-            "state": self.state,
-            "when": self.when.isoformat(),
-            "worker": self.worker,
-            "started_at": self.started_at.isoformat() if self.started_at else None,
-            "completed_at": (
-                self.completed_at.isoformat() if self.completed_at else None
-            ),
-            "error": self.error,
-        }
-
-        yield initial_state
-
-        progress_event: ProgressEvent = {
-            "type": "progress",
-            "key": self.key,
-            "current": self.progress.current,
-            "total": self.progress.total,
-            "message": self.progress.message,
-            "updated_at": self.progress.updated_at.isoformat()
-            if self.progress.updated_at
-            else None,
-        }
-
-        yield progress_event
-
-        # Then subscribe to real-time updates
         state_channel = self.docket.key(f"state:{self.key}")
         progress_channel = self.docket.key(f"progress:{self.key}")
         async with self.docket._pubsub() as pubsub:
+            # Subscribe before reading the current state: a transition between
+            # the two would otherwise be neither read nor received, leaving the
+            # subscriber waiting for an event that has already been published.
             await pubsub.subscribe(state_channel, progress_channel)
             if ready is not None:
                 ready.set()
+
+            # First, emit the current state
+            await self.sync()
+
+            # Build initial state event from current attributes
+            initial_state: StateEvent = {
+                "type": "state",
+                "key": self.key,
+                "state": self.state,
+                "when": self.when.isoformat(),
+                "worker": self.worker,
+                "started_at": self.started_at.isoformat() if self.started_at else None,
+                "completed_at": (
+                    self.completed_at.isoformat() if self.completed_at else None
+                ),
+                "error": self.error,
+            }
+
+            yield initial_state
+
+            progress_event: ProgressEvent = {
+                "type": "progress",
+                "key": self.key,
+                "current": self.progress.current,
+                "total": self.progress.total,
+                "message": self.progress.message,
+                "updated_at": self.progress.updated_at.isoformat()
+                if self.progress.updated_at
+                else None,
+            }
+
+            yield progress_event
+
+            # Then relay real-time updates
             async for message in pubsub.listen():  # pragma: no cover
                 if message["type"] == "message":
                     message_data = json.loads(message["data"])
-- 
2.43.0


From 966f0f6c8744347dc76017adf5d72064ee5eba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 07/30] fix: clear() leaves the cleared keys schedulable

Clearing left the dedup marker on each cleared task's run record, so adding
the same key again was silently a no-op until the record expired.
---
 src/docket/docket.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index b6d5992..e02d604 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -903,8 +903,11 @@ class Docket(DocketSnapshotMixin):
                         pipeline.delete(self.known_task_key(task_key))
                         pipeline.delete(self.stream_id_key(task_key))
 
-                        # Handle runs hash: set TTL or delete based on execution_ttl
+                        # Clear scheduling markers so add() can reschedule this key
                         task_runs_key = self.runs_key(task_key)
+                        pipeline.hdel(task_runs_key, "known", "stream_id")
+
+                        # Handle runs hash: set TTL or delete based on execution_ttl
                         if self.execution_ttl:
                             ttl_seconds = int(self.execution_ttl.total_seconds())
                             pipeline.expire(task_runs_key, ttl_seconds)
@@ -914,6 +917,7 @@ class Docket(DocketSnapshotMixin):
                     # Handle runs hash for immediate tasks from stream
                     for task_key in stream_keys:
                         task_runs_key = self.runs_key(task_key)
+                        pipeline.hdel(task_runs_key, "known", "stream_id")
                         if self.execution_ttl:
                             ttl_seconds = int(self.execution_ttl.total_seconds())
                             pipeline.expire(task_runs_key, ttl_seconds)
-- 
2.43.0


From 39478c36a287891af4dc47ea5ece2a460e5de985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 08/30] fix: a parked task is still the pending schedule of its
 key

A task parked on a concurrency limit was not known to add(), which
scheduled it a second time, and replacing it (or cancelling and adding it
again) left the old waiter entry to be woken, superseding the replacement.
---
 src/docket/dependencies/_concurrency.py | 27 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 8ccc884..9a90678 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -128,8 +128,11 @@ async def _acquire_or_park(
 
     -- Record the waiter's location so the dependency's cancel subscriber can
     -- find and XDEL the waiter entry when the task transitions to 'cancelled'.
+    -- Claiming cleared 'known'; a parked task is pending again, so adding its
+    -- key must be a no-op until it runs.
     redis.call('HSET', runs_key,
         'state', 'scheduled',
+        'known', current_time,
         'waiter_stream', waiters_stream,
         'waiter_entry_id', waiter_entry_id,
         'function', function_name,
@@ -206,11 +209,12 @@ async def _release_and_wake(
 
             -- Pull out the waiter's task_key so we can address its runs hash and
             -- its state-change pubsub channel.
-            local waiter_task_key
+            local waiter_task_key, waiter_generation
             for i = 1, #fields, 2 do
                 if fields[i] == 'key' then
                     waiter_task_key = fields[i + 1]
-                    break
+                elseif fields[i] == 'generation' then
+                    waiter_generation = fields[i + 1]
                 end
             end
 
@@ -218,12 +222,15 @@ async def _release_and_wake(
 
             -- Forward only if the task is still in the parked state.  Anything
             -- else -- 'cancelled', a missing runs hash (DELed by a cancel with
-            -- execution_ttl=0), or any other terminal state -- means the task
-            -- has been superseded and must not be revived.  Drop the waiter
-            -- entry without forwarding.
+            -- execution_ttl=0), any other terminal state, or a newer
+            -- generation (the key was replaced, or cancelled and added again,
+            -- after this entry was parked) -- means the task has been
+            -- superseded and must not be revived.  Drop the waiter entry
+            -- without forwarding.
             local current_state = redis.call('HGET', runs_key, 'state')
+            local current_generation = redis.call('HGET', runs_key, 'generation')
             local safeguard_key = '__safeguard__:' .. waiter_task_key
-            if current_state ~= 'scheduled' then
+            if current_state ~= 'scheduled' or current_generation ~= waiter_generation then
                 redis.call('XDEL', waiters_stream, waiter_id)
                 -- Cancelled/superseded waiter: drop its safeguard backstop too.
                 redis.call('ZREM', queue_key, safeguard_key)
@@ -325,11 +332,12 @@ async def _scavenge_and_wake(
         local waiter_id = entry[1]
         local fields = entry[2]
 
-        local waiter_task_key
+        local waiter_task_key, waiter_generation
         for i = 1, #fields, 2 do
             if fields[i] == 'key' then
                 waiter_task_key = fields[i + 1]
-                break
+            elseif fields[i] == 'generation' then
+                waiter_generation = fields[i + 1]
             end
         end
 
@@ -337,8 +345,9 @@ async def _scavenge_and_wake(
 
         -- Skip cancelled/superseded waiters: drop the entry without forwarding.
         local current_state = redis.call('HGET', runs_key, 'state')
+        local current_generation = redis.call('HGET', runs_key, 'generation')
         local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' then
+        if current_state ~= 'scheduled' or current_generation ~= waiter_generation then
             redis.call('XDEL', waiters_stream, waiter_id)
             redis.call('ZREM', queue_key, safeguard_key)
             redis.call('DEL', parked_prefix .. safeguard_key)
-- 
2.43.0


From deb551422b4ffedeb7e6209586e1087e689bd129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 09/30] fix: keep the trace context of tasks scheduled for the
 future

The mover copied a fixed list of fields onto the stream and dropped the
propagated trace context that immediate tasks keep.
---
 src/docket/worker.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 929533e..4fb7843 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,15 +192,8 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                local message_id = redis.call('XADD', stream_key, '*',
-                    'key', task['key'],
-                    'when', task['when'],
-                    'function', task['function'],
-                    'args', task['args'],
-                    'kwargs', task['kwargs'],
-                    'attempt', task['attempt'],
-                    'generation', task['generation'] or '0'
-                )
+                -- Forward every field, including the trace context
+                local message_id = redis.call('XADD', stream_key, '*', unpack(task_data))
                 redis.call('DEL', hash_key)
 
                 -- Set run state to queued, recording where the message went so
-- 
2.43.0


From 12719d2cc295c3aaf13cb68df171352cdd2f0fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 10/30] fix: keep the successor of a finished task cancellable

When a replaced task finishes while its successor is running on the same
worker, forget the finished task only, so that cancelling the key still
reaches the successor.
---
 src/docket/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 4fb7843..331d119 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -689,7 +689,9 @@ class Worker:
             for task in completed_tasks:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
-                self._tasks_by_key.pop(execution.key, None)
+                # A successor of the same key may already be running here
+                if self._tasks_by_key.get(execution.key) is task:
+                    del self._tasks_by_key[execution.key]
                 try:
                     await task
                 except AdmissionBlocked as e:
-- 
2.43.0


From 8e5a81fcce6b0fffbe7852376f2c312a068a000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 11/30] fix: do not reschedule a blocked execution that has
 been superseded

A task replaced while it waits at an admission gate must not overwrite its
replacement when the gate turns it away.
---
 src/docket/worker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 331d119..b11d211 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -707,8 +707,11 @@ class Worker:
                             e.execution.key,
                             extra=log_context,
                         )
-                        e.execution.when = datetime.now(timezone.utc) + delay
-                        await e.execution.schedule(reschedule_message=message_id)
+                        if await e.execution.is_superseded():
+                            await e.execution.mark_as_cancelled()
+                        else:
+                            e.execution.when = datetime.now(timezone.utc) + delay
+                            await e.execution.schedule(reschedule_message=message_id)
                     else:
                         logger.debug(
                             "⏭ Task %s blocked by admission control, dropping",
-- 
2.43.0


From a88c018b7c52c450db46ed9d2ab430cae4366dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 12/30] fix: cancelling a task never stops its worker

A cancellation that reaches a task before it is claimed, or while its outcome
is being recorded, surfaced in the worker loop as a request to shut down.
---
 src/docket/worker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index b11d211..a8f28e7 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -719,6 +719,12 @@ class Worker:
                             extra=log_context,
                         )
                         await e.execution.mark_as_cancelled()
+                except asyncio.CancelledError:
+                    # The task is done, so this is its own cancellation (via
+                    # docket.cancel()) arriving outside of what _execute guards,
+                    # not a request for this worker to shut down.
+                    if not execution._acked:
+                        await execution.mark_as_cancelled()
 
                 # Safety net: if nothing inside _execute or these except
                 # handlers acked the stream message (e.g. a custom
-- 
2.43.0


From df86f5381b8faeef77d0feeb014ece4ed384349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 13/30] fix: striking a task and one of its parameters are
 independent

A task struck entirely stayed struck only until one of its parameters was
struck too (or was never struck at all when one already was), and restoring
that parameter's strike lifted the strike of the whole task.
---
 src/docket/strikelist.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8d9c477..13098a5 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -169,6 +169,7 @@ class StrikeList:
 
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
+    _entirely_struck: set[str]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
@@ -196,6 +197,7 @@ class StrikeList:
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.task_strikes = {}
         self.parameter_strikes = {}
+        self._entirely_struck = set()
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
@@ -385,7 +387,7 @@ class StrikeList:
 
         # Check if the entire task is stricken (without parameter conditions)
         task_strikes = self.task_strikes.get(function_name, {})
-        if function_name in self.task_strikes and not task_strikes:
+        if function_name in self._entirely_struck:
             return True
 
         signature = get_signature(execution.function)
@@ -481,10 +483,8 @@ class StrikeList:
             parameter_strikes.add((strike.operator, strike.value))
 
         elif strike.function:
-            try:
-                task_strikes = self.task_strikes[strike.function]
-            except KeyError:
-                task_strikes = self.task_strikes[strike.function] = {}
+            self._entirely_struck.add(strike.function)
+            self.task_strikes.setdefault(strike.function, {})
 
         elif strike.parameter:  # pragma: no branch
             try:
@@ -514,16 +514,17 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes:
+                if not task_strikes and restore.function not in self._entirely_struck:
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
+            self._entirely_struck.discard(restore.function)
             try:
                 task_strikes = self.task_strikes[restore.function]
             except KeyError:
                 return
 
-            # If there are no parameter strikes, this was a full task strike
+            # Strikes of individual parameters stay in effect
             if not task_strikes:
                 self.task_strikes.pop(restore.function, None)
 
-- 
2.43.0


From 0047d30737e50b244c4695294843d4f8c398fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 14/30] fix: record the failure of a task whose exception
 cannot be pickled

Pickling the exception for the result storage raised out of the execution and
stopped the worker, leaving the task to do the same to the next one.
---
 src/docket/worker.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index a8f28e7..a16c30e 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1217,10 +1217,17 @@ class Worker:
                             extra=log_context,
                         )
 
+                    error_msg = f"{type(e).__name__}: {str(e)}"
+
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
                     if self.docket.execution_ttl:
-                        pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                        try:
+                            pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                        except Exception:
+                            # Some exceptions cannot be pickled; the failure must
+                            # still be recorded, so store a description instead
+                            pickled_exception = cloudpickle.dumps(Exception(error_msg))
                         # Base64-encode for JSON serialization
                         encoded_exception = base64.b64encode(pickled_exception).decode(
                             "ascii"
@@ -1232,7 +1239,6 @@ class Worker:
                         )
 
                     # Mark execution as failed with error message
-                    error_msg = f"{type(e).__name__}: {str(e)}"
                     await execution.mark_as_failed(error_msg, result_key=result_key)
             finally:
                 TASKS_RUNNING.add(-1, counter_labels)
-- 
2.43.0


From 2d72e65a66dea2f28205429fc6479bca5ca1bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 15/30] fix: a TimeoutError raised by the task itself is a
 failure, not a completion

---
 src/docket/dependencies/_timeout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_timeout.py b/src/docket/dependencies/_timeout.py
index a9b4906..ac34dff 100644
--- a/src/docket/dependencies/_timeout.py
+++ b/src/docket/dependencies/_timeout.py
@@ -80,7 +80,7 @@ class Timeout(Runtime["Timeout"]):
 
         timed_out = False
         try:
-            while not task.done():  # pragma: no branch
+            while not task.done():
                 if self.expired():
                     timed_out = True
                     break
@@ -91,6 +91,9 @@ class Timeout(Runtime["Timeout"]):
                     )
                 except asyncio.TimeoutError:
                     continue
+            else:
+                # The task finished on its own, possibly by raising a TimeoutError
+                return await task
         finally:
             if not task.done():
                 timeout_reason = (
-- 
2.43.0


From 291edd23765b83cdaf53d699a3372c7eeaf7513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 16/30] fix: a task blocked by another gate does not start its
 own cooldown

---
 src/docket/dependencies/_cooldown.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index b72d22c..e86506c 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -44,18 +44,16 @@ class Cooldown(Dependency["Cooldown"]):
         bound._argument_value = value
         return bound
 
+    def _cooldown_key(self) -> str:
+        scope = self.scope or current_docket.get().name
+        if self._argument_name is not None:
+            return f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"
+        return f"{scope}:cooldown:{current_execution.get().function_name}"
+
     async def __aenter__(self) -> Cooldown:
         execution = current_execution.get()
         docket = current_docket.get()
-
-        scope = self.scope or docket.name
-        if self._argument_name is not None:
-            cooldown_key = (
-                f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"
-            )
-        else:
-            cooldown_key = f"{scope}:cooldown:{execution.function_name}"
-
+        cooldown_key = self._cooldown_key()
         window_ms = int(self.window.total_seconds() * 1000)
 
         async with docket.redis() as redis:
@@ -76,4 +74,8 @@ class Cooldown(Dependency["Cooldown"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        pass
+        # Another gate blocked the task after this one admitted it, so it never
+        # started and must not find itself in its own window when it comes back
+        if exc_type is not None and issubclass(exc_type, AdmissionBlocked):
+            async with current_docket.get().redis() as redis:
+                await redis.delete(self._cooldown_key())
-- 
2.43.0


From fde65b0e8f1a35b4531bf878bd5d371c24100a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 17/30] fix: a blocked execution withdraws its own rate limit
 entry, not another's

---
 src/docket/dependencies/_ratelimit.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 33b5905..cc3558a 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 import time
 from datetime import timedelta
+from functools import partial
 from types import TracebackType
 from typing import Any
 
@@ -100,8 +101,6 @@ class RateLimit(Dependency["RateLimit"]):
         self.scope = scope
         self._argument_name: str | None = None
         self._argument_value: Any = None
-        self._ratelimit_key: str | None = None
-        self._member: str | None = None
 
     def bind_to_parameter(self, name: str, value: Any) -> RateLimit:
         bound = RateLimit(self.limit, per=self.per, drop=self.drop, scope=self.scope)
@@ -141,8 +140,13 @@ class RateLimit(Dependency["RateLimit"]):
         retry_after_ms = result[1]
 
         if action == _ACTION_PROCEED:
-            self._ratelimit_key = ratelimit_key
-            self._member = member
+            # The default-parameter instance is shared by concurrent executions,
+            # so what this one recorded stays with its own exit stack
+            from ._functional import _Depends
+
+            _Depends.stack.get().push_async_exit(
+                partial(self._withdraw, ratelimit_key, member)
+            )
             return self
 
         reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
@@ -156,15 +160,15 @@ class RateLimit(Dependency["RateLimit"]):
             retry_delay=timedelta(milliseconds=retry_after_ms),
         )
 
-    async def __aexit__(
+    async def _withdraw(
         self,
+        ratelimit_key: str,
+        member: str,
         exc_type: type[BaseException] | None,
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        if exc_type is not None and self._member is not None:
-            if issubclass(exc_type, AdmissionBlocked):
-                assert self._ratelimit_key is not None
-                docket = current_docket.get()
-                async with docket.redis() as redis:
-                    await redis.zrem(self._ratelimit_key, self._member)
+        """Give the entry back when another gate blocked the execution."""
+        if exc_type is not None and issubclass(exc_type, AdmissionBlocked):
+            async with current_docket.get().redis() as redis:
+                await redis.zrem(ratelimit_key, member)
-- 
2.43.0


From 5957b755966164cbd0f21a6c8c68a04e331198cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 18/30] fix: keep exponential retries going once the backoff
 overflows a timedelta

From about the 48th attempt with a one second minimum delay, the doubled
delay no longer fits a timedelta; the OverflowError failed the dependency
and with it the task, although its attempts were not used up.
---
 src/docket/dependencies/_retry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 2dd14aa..3cbc150 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -210,7 +210,11 @@ class ExponentialRetry(Retry):
 
         if execution.attempt > 1:
             backoff_factor = 2 ** (execution.attempt - 1)
-            calculated_delay = self.delay * backoff_factor
+            try:
+                calculated_delay = self.delay * backoff_factor
+            except OverflowError:
+                # After enough attempts the product no longer fits a timedelta
+                calculated_delay = self.maximum_delay
 
             if calculated_delay > self.maximum_delay:
                 retry.delay = self.maximum_delay
-- 
2.43.0


From 00876dc7f83d6208954892326c1a5ec049a214cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 19/30] fix: seed an automatic cron from the current time

initial_when took the next time of the iterator in the task's signature,
which starts when the module is imported and moves on with every reseed: a
cron that was struck, and reseeded meanwhile, came back many periods late,
and one whose chain broke long after startup came back in the past.
---
 src/docket/dependencies/_cron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/docket/dependencies/_cron.py b/src/docket/dependencies/_cron.py
index abb99c8..d92258f 100644
--- a/src/docket/dependencies/_cron.py
+++ b/src/docket/dependencies/_cron.py
@@ -105,6 +105,10 @@ class Cron(Perpetual):
     @property
     def initial_when(self) -> datetime:
         """Return the next cron time for initial scheduling."""
+        # This is asked of the dependency in the task's signature, which lives as
+        # long as the process and may be asked again on every reseed: count from
+        # now rather than from wherever its iterator was left.
+        self._iterator = CronSim(self.expression, datetime.now(self.tz))
         return self.next_time()
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
-- 
2.43.0


From 8a1ec42482cbf45dba9e4afe2d0893fd9abb777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 20/30] fix: bind annotated dependencies to arguments given by
 position

An annotated rate limit, cooldown or debounce saw None for an argument passed
positionally, so every such call shared one window whatever its value.
---
 src/docket/dependencies/_resolution.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index e8e28d3..93b9ab7 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -9,6 +9,7 @@ from typing import TYPE_CHECKING, Any, AsyncGenerator, TypeVar
 from uncalled_for import (
     FailedDependency,
     get_annotation_dependencies,
+    get_signature,
 )
 
 from ._base import (
@@ -207,10 +208,15 @@ async def resolved_dependencies(
                         arguments[parameter] = FailedDependency(parameter, error)
 
                 annotations = get_annotation_dependencies(execution.function)
+                positional = dict(
+                    zip(get_signature(execution.function).parameters, execution.args)
+                )
                 for parameter_name, dependencies in annotations.items():
-                    argument_value = execution.kwargs.get(
-                        parameter_name, arguments.get(parameter_name)
-                    )
+                    argument_value = {
+                        **arguments,
+                        **positional,
+                        **execution.kwargs,
+                    }.get(parameter_name)
                     for dependency in dependencies:
                         bound = dependency.bind_to_parameter(
                             parameter_name, argument_value
-- 
2.43.0


From 8bee250b5ddb170fcb20fdf2d1c59bf8f9169302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 21/30] fix: give each run its own Progress

The Progress in a task's signature was bound to whichever run entered it last,
so concurrent runs of one task reported their progress under one key.
---
 src/docket/dependencies/_progress.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_progress.py b/src/docket/dependencies/_progress.py
index 01daed8..6167ea0 100644
--- a/src/docket/dependencies/_progress.py
+++ b/src/docket/dependencies/_progress.py
@@ -34,8 +34,12 @@ class Progress(Dependency["Progress"]):
 
     async def __aenter__(self) -> Progress:
         execution = current_execution.get()
-        self._progress = execution.progress
-        return self
+        # Create a NEW instance for this run.  The original (the default
+        # parameter value) is shared across all calls, so binding it to one
+        # execution would redirect the progress of concurrent runs.
+        progress = Progress()
+        progress._progress = execution.progress
+        return progress
 
     @property
     def current(self) -> int | None:
-- 
2.43.0


From 85c1a1a88674ccea787eede3e8c49eebfbcd2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 22/30] fix: report a looked up task under the name it was
 scheduled with

---
 src/docket/docket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index e02d604..f0cb7d4 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -691,6 +691,7 @@ class Docket(DocketSnapshotMixin):
                 key=key,
                 when=when,
                 attempt=1,
+                function_name=function_name_str,
             )
 
             # Sync with current state from Redis
-- 
2.43.0


From ee9c6e7599724bf0293ef1fd85b024c087185ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 23/30] fix: keep a perpetual task under the name it was
 scheduled with

---
 src/docket/dependencies/_perpetual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7e885ed..3e2f545 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -132,7 +132,12 @@ class Perpetual(CompletionHandler["Perpetual"]):
             now = datetime.now(timezone.utc)
             when = max(now, now + self.every - outcome.duration)
 
-        await docket.replace(execution.function, when, execution.key)(
+        # Stay under the name this run was scheduled as, which may be an alias
+        function = execution.function
+        if docket.tasks.get(execution.function_name) is function:
+            function = execution.function_name
+
+        await docket.replace(function, when, execution.key)(
             *self.args,
             **self.kwargs,
         )
-- 
2.43.0


From 8115ac7b06d49080fea9a606f5d56add44d8b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 24/30] fix: report a running task under the name it was
 scheduled with

---
 src/docket/_docket_snapshot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index f78497b..d410633 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -41,6 +41,7 @@ class RunningExecution(Execution):
             attempt=execution.attempt,
             trace_context=execution.trace_context,
             redelivered=execution.redelivered,
+            function_name=execution.function_name,
         )
         self.state: ExecutionState = execution.state
         self.started_at: datetime | None = execution.started_at
-- 
2.43.0


From 7894241085541c143e579502321126651e948d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 25/30] fix: scatter tasks added by name under that name

---
 src/docket/agenda.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/docket/agenda.py b/src/docket/agenda.py
index 2b95f98..d4d27f1 100644
--- a/src/docket/agenda.py
+++ b/src/docket/agenda.py
@@ -189,7 +189,7 @@ class Agenda:
         # Validate and resolve every task first, so an unregistered name fails
         # before we schedule anything.
         planned: list[
-            tuple[TaskFunction, tuple[Any, ...], dict[str, Any], str, datetime]
+            tuple[TaskFunction | str, tuple[Any, ...], dict[str, Any], str, datetime]
         ] = []
         for (task_func, args, kwargs, explicit_key), schedule_time in zip(
             self._tasks, schedule_times
@@ -197,19 +197,17 @@ class Agenda:
             if isinstance(task_func, str):
                 if task_func not in docket.tasks:
                     raise KeyError(f"Task '{task_func}' is not registered")
-                resolved_func = docket.tasks[task_func]
             else:
                 if task_func not in docket.tasks.values():
                     docket.register(task_func)
-                resolved_func = task_func
 
             key = explicit_key if explicit_key is not None else str(uuid7())
-            planned.append((resolved_func, args, kwargs, key, schedule_time))
+            planned.append((task_func, args, kwargs, key, schedule_time))
 
         # Schedule each task; if one fails partway, earlier ones stay scheduled.
         executions: list[Execution] = []
-        for resolved_func, args, kwargs, key, schedule_time in planned:
-            scheduler = docket.add(resolved_func, when=schedule_time, key=key)
+        for task_func, args, kwargs, key, schedule_time in planned:
+            scheduler = docket.add(task_func, when=schedule_time, key=key)
             executions.append(await scheduler(*args, **kwargs))
 
         return executions
-- 
2.43.0


From e9ce674d8f0a4fd980958d2abd1a0b12b7d2619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 26/30] fix: clear() leaves running tasks alone

---
 src/docket/docket.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index f0cb7d4..316e336 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -882,19 +882,26 @@ class Docket(DocketSnapshotMixin):
 
                 # Get keys from stream messages before trimming
                 stream_keys: list[str] = []
+                message_ids: list[bytes] = []
                 if stream_count > 0:
                     # Read all messages from the stream
                     messages = await redis.xrange(self.stream_key, "-", "+")
                     for message_id, fields in messages:
                         # Extract the key field from the message
                         if b"key" in fields:  # pragma: no branch
-                            stream_keys.append(fields[b"key"].decode())
+                            task_key = fields[b"key"].decode()
+                            # Running tasks keep their message and their record
+                            state = await redis.hget(self.runs_key(task_key), "state")
+                            if state == ExecutionState.RUNNING.value.encode():
+                                continue
+                            stream_keys.append(task_key)
+                        message_ids.append(message_id)
 
                 async with redis.pipeline() as pipeline:
                     # Clear all data
-                    # Trim stream to 0 messages instead of deleting it to preserve consumer group
-                    if stream_count > 0:
-                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)
+                    # Delete messages instead of the stream to preserve consumer group
+                    if message_ids:
+                        pipeline.xdel(self.stream_key, *message_ids)
                     pipeline.delete(self.queue_key)
 
                     # Clear parked task data and known task keys for scheduled tasks
@@ -927,5 +934,5 @@ class Docket(DocketSnapshotMixin):
 
                     await pipeline.execute()
 
-                    total_cleared = stream_count + queue_count
+                    total_cleared = len(message_ids) + queue_count
                     return total_cleared
-- 
2.43.0


From 4fa4b80e81a3b852cc697aab0fc938fd5f931aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:05 +0000
Subject: [PATCH 27/30] fix: take the docket's name literally when listening
 for cancellations

---
 src/docket/dependencies/_concurrency.py | 2 +-
 src/docket/docket.py                    | 9 +++++++++
 src/docket/worker.py                    | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 9a90678..fd5ecff 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -701,7 +701,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
-        pattern = f"{docket.prefix}:cancel:*"
+        pattern = docket.cancel_pattern
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
             try:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index 316e336..f71e6ab 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,6 +1,7 @@
 import importlib
 import json
 import logging
+import re
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -724,6 +725,14 @@ class Docket(DocketSnapshotMixin):
         """Return the Redis pub/sub channel for cancellation signals for a task."""
         return self.key(f"cancel:{task_key}")
 
+    @property
+    def cancel_pattern(self) -> str:
+        """Return the pub/sub pattern matching this docket's cancellation signals.
+
+        The docket's own name is matched literally, whatever it contains.
+        """
+        return re.sub(r"([*?\[\]\\])", r"\\\1", self.key("cancel:")) + "*"
+
     @property
     def results_collection(self) -> str:
         """Return the collection name for result storage."""
diff --git a/src/docket/worker.py b/src/docket/worker.py
index a16c30e..9294be9 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1351,7 +1351,7 @@ class Worker:
         if session is None:
             return  # pragma: no cover
 
-        cancel_pattern = self.docket.key("cancel:*")
+        cancel_pattern = self.docket.cancel_pattern
         log_context = self._log_context()
         while not session.stopping.is_set():
             try:
-- 
2.43.0


From b76a2c2e7576d19e6526095a722eea306bb57181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:27 +0000
Subject: [PATCH 28/30] fix: keep cooldowns, rate limits and debounces under
 the docket's prefix

By default their keys began with the docket's bare name.  In a cluster every
other key begins with the hash-tagged prefix, so these were stored elsewhere
and outside the key pattern the documentation grants a restricted user.
---
 src/docket/dependencies/_cooldown.py  | 2 +-
 src/docket/dependencies/_debounce.py  | 2 +-
 src/docket/dependencies/_ratelimit.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index e86506c..3a6ca9c 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -45,7 +45,7 @@ class Cooldown(Dependency["Cooldown"]):
         return bound
 
     def _cooldown_key(self) -> str:
-        scope = self.scope or current_docket.get().name
+        scope = self.scope or current_docket.get().prefix
         if self._argument_name is not None:
             return f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"
         return f"{scope}:cooldown:{current_execution.get().function_name}"
diff --git a/src/docket/dependencies/_debounce.py b/src/docket/dependencies/_debounce.py
index 3c10695..02ceaed 100644
--- a/src/docket/dependencies/_debounce.py
+++ b/src/docket/dependencies/_debounce.py
@@ -110,7 +110,7 @@ class Debounce(Dependency["Debounce"]):
         execution = current_execution.get()
         docket = current_docket.get()
 
-        scope = self.scope or docket.name
+        scope = self.scope or docket.prefix
         if self._argument_name is not None:
             hash_tag = f"{self._argument_name}:{self._argument_value}"
             base_key = f"{scope}:debounce:{hash_tag}"
diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index cc3558a..5ada86c 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -112,7 +112,7 @@ class RateLimit(Dependency["RateLimit"]):
         execution = current_execution.get()
         docket = current_docket.get()
 
-        scope = self.scope or docket.name
+        scope = self.scope or docket.prefix
         if self._argument_name is not None:
             ratelimit_key = (
                 f"{scope}:ratelimit:{self._argument_name}:{self._argument_value}"
-- 
2.43.0


From a895e1fca082cd10c40c53bc6038364cfbe9df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:18 +0000
Subject: [PATCH 29/30] fix: close what entering a docket opened when a later
 step of entering fails

---
 src/docket/_redis.py        | 47 ++++++++++++-------------
 src/docket/_result_store.py | 70 +++++++++++++++++++------------------
 src/docket/docket.py        | 52 ++++++++++++++-------------
 3 files changed, 87 insertions(+), 82 deletions(-)

diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index 1d15c66..4766a35 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -661,30 +661,29 @@ class RedisConnection:
         """Connect to Redis when entering the context."""
         assert not self.is_connected, "RedisConnection is not reentrant"
 
-        self._stack = AsyncExitStack()
-        await self._stack.__aenter__()
-
-        if self.is_cluster:  # pragma: no cover
-            self._cluster_client = await self._create_cluster_client()
-            self._stack.callback(lambda: setattr(self, "_cluster_client", None))
-            self._stack.push_async_callback(
-                close_resource, self._cluster_client, "cluster client"
-            )
-
-            self._node_pool = self._create_node_pool()
-            self._stack.callback(lambda: setattr(self, "_node_pool", None))
-            self._stack.push_async_callback(
-                close_resource, self._node_pool, "node pool"
-            )
-        elif self.is_memory:
-            self._memory_client = await self._get_or_create_memory_client()
-            self._stack.callback(lambda: setattr(self, "_memory_client", None))
-        else:
-            self._connection_pool = await self._connection_pool_from_url()
-            self._stack.callback(lambda: setattr(self, "_connection_pool", None))
-            self._stack.push_async_callback(
-                close_resource, self._connection_pool, "connection pool"
-            )
+        async with AsyncExitStack() as stack:
+            if self.is_cluster:  # pragma: no cover
+                self._cluster_client = await self._create_cluster_client()
+                stack.callback(lambda: setattr(self, "_cluster_client", None))
+                stack.push_async_callback(
+                    close_resource, self._cluster_client, "cluster client"
+                )
+
+                self._node_pool = self._create_node_pool()
+                stack.callback(lambda: setattr(self, "_node_pool", None))
+                stack.push_async_callback(close_resource, self._node_pool, "node pool")
+            elif self.is_memory:
+                self._memory_client = await self._get_or_create_memory_client()
+                stack.callback(lambda: setattr(self, "_memory_client", None))
+            else:
+                self._connection_pool = await self._connection_pool_from_url()
+                stack.callback(lambda: setattr(self, "_connection_pool", None))
+                stack.push_async_callback(
+                    close_resource, self._connection_pool, "connection pool"
+                )
+
+            # Closed on leaving, or right here if any of this fails
+            self._stack = stack.pop_all()
 
         return self
 
diff --git a/src/docket/_result_store.py b/src/docket/_result_store.py
index 44ec221..a23d0fb 100644
--- a/src/docket/_result_store.py
+++ b/src/docket/_result_store.py
@@ -195,40 +195,42 @@ class ResultStorage:
         self._default_collection = default_collection
 
     async def __aenter__(self) -> Self:
-        self._stack = AsyncExitStack()
-        await self._stack.__aenter__()
-
-        if self._redis.is_cluster:  # pragma: no cover
-            if self._redis.cluster_client is None:
-                raise ValueError("RedisConnection not connected in cluster mode")
-            self._store = ClusterKeyValueStore(
-                client=self._redis.cluster_client,
-                default_collection=self._default_collection,
-            )
-        elif self._redis.is_memory:
-            if self._redis.memory_client is None:
-                raise ValueError("RedisConnection not connected in memory mode")
-            self._store = ClusterKeyValueStore(
-                client=self._redis.memory_client,
-                default_collection=self._default_collection,
-            )
-        else:
-            # Create a separate pool with decode_responses=True for result storage
-            self._pool = await self._redis._connection_pool_from_url(
-                decode_responses=True
-            )
-            self._stack.callback(lambda: delattr(self, "_pool"))
-            self._stack.push_async_callback(close_resource, self._pool, "pool")
-
-            self._client = Redis(connection_pool=self._pool)
-            self._stack.callback(lambda: delattr(self, "_client"))
-            self._stack.push_async_callback(close_resource, self._client, "client")
-
-            self._store = RedisStore(
-                client=self._client, default_collection=self._default_collection
-            )
-
-        await self._store.setup()
+        async with AsyncExitStack() as stack:
+            if self._redis.is_cluster:  # pragma: no cover
+                if self._redis.cluster_client is None:
+                    raise ValueError("RedisConnection not connected in cluster mode")
+                self._store = ClusterKeyValueStore(
+                    client=self._redis.cluster_client,
+                    default_collection=self._default_collection,
+                )
+            elif self._redis.is_memory:
+                if self._redis.memory_client is None:
+                    raise ValueError("RedisConnection not connected in memory mode")
+                self._store = ClusterKeyValueStore(
+                    client=self._redis.memory_client,
+                    default_collection=self._default_collection,
+                )
+            else:
+                # Create a separate pool with decode_responses=True for result storage
+                self._pool = await self._redis._connection_pool_from_url(
+                    decode_responses=True
+                )
+                stack.callback(lambda: delattr(self, "_pool"))
+                stack.push_async_callback(close_resource, self._pool, "pool")
+
+                self._client = Redis(connection_pool=self._pool)
+                stack.callback(lambda: delattr(self, "_client"))
+                stack.push_async_callback(close_resource, self._client, "client")
+
+                self._store = RedisStore(
+                    client=self._client, default_collection=self._default_collection
+                )
+
+            await self._store.setup()
+
+            # Closed on leaving, or right here if any of this fails
+            self._stack = stack.pop_all()
+
         return self
 
     async def __aexit__(
diff --git a/src/docket/docket.py b/src/docket/docket.py
index f71e6ab..9514f6d 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -228,33 +228,37 @@ class Docket(DocketSnapshotMixin):
         return f"{self.prefix}:{suffix}"
 
     async def __aenter__(self) -> Self:
-        self._stack = AsyncExitStack()
-        await self._stack.__aenter__()
-
-        self.strike_list = StrikeList(
-            url=self.url,
-            name=self.name,
-            enable_internal_instrumentation=self.enable_internal_instrumentation,
-        )
+        async with AsyncExitStack() as stack:
+            self.strike_list = StrikeList(
+                url=self.url,
+                name=self.name,
+                enable_internal_instrumentation=self.enable_internal_instrumentation,
+            )
 
-        # Connect to Redis (handles cluster vs standalone)
-        await self._stack.enter_async_context(self._redis)
+            # Connect to Redis (handles cluster vs standalone)
+            await stack.enter_async_context(self._redis)
+
+            # Connect the strike list to Redis and start monitoring
+            await stack.enter_async_context(self.strike_list)
+
+            # Initialize result storage
+            if self._user_result_storage is not None:
+                self.result_storage: AsyncKeyValue = self._user_result_storage
+                self._result_storage = None
+                # User-provided storage should handle its own initialization
+                if hasattr(self.result_storage, "setup"):
+                    await self.result_storage.setup()  # type: ignore[union-attr]
+            else:
+                self._result_storage = ResultStorage(
+                    self._redis, self.results_collection
+                )
+                await stack.enter_async_context(self._result_storage)
+                stack.callback(lambda: setattr(self, "_result_storage", None))
+                self.result_storage = self._result_storage
 
-        # Connect the strike list to Redis and start monitoring
-        await self._stack.enter_async_context(self.strike_list)
+            # Closed on leaving, or right here if any of this fails
+            self._stack = stack.pop_all()
 
-        # Initialize result storage
-        if self._user_result_storage is not None:
-            self.result_storage: AsyncKeyValue = self._user_result_storage
-            self._result_storage = None
-            # User-provided storage should handle its own initialization
-            if hasattr(self.result_storage, "setup"):
-                await self.result_storage.setup()  # type: ignore[union-attr]
-        else:
-            self._result_storage = ResultStorage(self._redis, self.results_collection)
-            await self._stack.enter_async_context(self._result_storage)
-            self._stack.callback(lambda: setattr(self, "_result_storage", None))
-            self.result_storage = self._result_storage
         return self
 
     async def __aexit__(
-- 
2.43.0


From 1079aa514ca366e2a2bd523915eeb1a1ceca1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:18 +0000
Subject: [PATCH 30/30] fix: look for conflicting dependencies on every
 execution

---
 src/docket/worker.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 9294be9..5ed2033 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -244,7 +244,6 @@ class Worker:
     enable_internal_instrumentation: bool
     fallback_task: TaskFunction
     dependencies: dict[str, Dependency[Any]]
-    _single_conflicts: dict[TaskFunction, dict[str, FailedDependency]]
 
     def __init__(
         self,
@@ -271,7 +270,6 @@ class Worker:
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.fallback_task = fallback_task or default_fallback_task
         self.dependencies = validate_worker_dependencies(dependencies)
-        self._single_conflicts = {}
 
     @contextmanager
     def _maybe_suppress_instrumentation(self) -> Generator[None, None, None]:
@@ -353,16 +351,12 @@ class Worker:
 
         Task-only conflicts are caught at registration by
         ``validate_dependencies``; only the task-vs-worker cross-check runs
-        here.  Result is stable per ``(worker, function)``, so memoize and
-        reuse on subsequent executions.
+        here, on every execution: an argument given explicitly takes the place
+        of the dependency its parameter declares.
         """
         if not self.dependencies:
             return {}
-        conflicts = self._single_conflicts.get(function)
-        if conflicts is None:
-            conflicts = detect_single_conflicts(arguments, annotations)
-            self._single_conflicts[function] = conflicts
-        return conflicts
+        return detect_single_conflicts(arguments, annotations)
 
     def labels(self) -> Mapping[str, str]:
         return {
-- 
2.43.0

