"""Mutants of the registry of workers and of snapshots."""
W="worker.py"; S="_docket_snapshot.py"
def c(name, *edits, f=W, ids=("C16",)): return (name, f, list(edits), list(ids))
ZR='await r.zremrangebyscore(self.workers_set, 0, oldest)'
CASES=[
c("hb-notask",('                                pipeline.zadd(task_workers_set, {self.name: now})\n','')),
c("hb-first",('                            for task_name in task_names:\n                                task_workers_set','                            for task_name in task_names[:1]:\n                                task_workers_set')),
c("hb-once",('        while not session.stopping.is_set():  # pragma: no branch\n            try:\n                now = datetime','        task_names: list[str] = []\n        while not session.stopping.is_set():  # pragma: no branch\n            try:\n                now = datetime'),('                task_names = list(self.docket.tasks)\n','                task_names = task_names or list(self.docket.tasks)\n')),
c("hb-purge",('oldest = now - maximum_age.total_seconds()','oldest = now - self.docket.heartbeat_interval.total_seconds()')),
c("hb-purgeall",('pipeline.zremrangebyscore(task_workers_set, 0, oldest)','pipeline.zremrangebyscore(task_workers_set, 0, now)')),
c("hb-oldest",('pipeline.zadd(self.workers_set, {self.name: now})','pipeline.zadd(self.workers_set, {self.name: oldest})')),
c("hb-ttl",('                                max(\n                                    maximum_age, timedelta(seconds=MINIMUM_TTL_SECONDS)\n                                ),','                                maximum_age,')),
c("hb-ttl2",('                                max(\n                                    maximum_age, timedelta(seconds=MINIMUM_TTL_SECONDS)\n                                ),','                                max(\n                                    self.docket.heartbeat_interval, timedelta(seconds=MINIMUM_TTL_SECONDS)\n                                ),')),
c("hb-die",('            except Exception:  # pragma: no cover\n                logger.exception(\n                    "Error sending worker heartbeat",\n                    exc_info=True,\n                    extra=self._log_context(),\n                )\n\n            if await','            if await')),
c("hb-return",('            except ConnectionError:\n                REDIS_DISRUPTIONS.add(1, self.labels())\n                logger.exception(\n                    "Error sending worker heartbeat"','            except ConnectionError:\n                REDIS_DISRUPTIONS.add(1, self.labels())\n                return\n                logger.exception(\n                    "Error sending worker heartbeat"')),
c("hb-tight",('session.stopping, self.docket.heartbeat_interval.total_seconds()','session.stopping, self.docket.heartbeat_interval.total_seconds() * self.docket.missed_heartbeats')),
c("hb-noexec",('                            await pipeline.execute()\n\n                        async with r.pipeline() as pipeline:\n                            pipeline.xlen','                        async with r.pipeline() as pipeline:\n                            pipeline.xlen')),
c("hb-split",('                            pipeline.zadd(self.workers_set, {self.name: now})\n','                            pipeline.zadd(self.workers_set, {self.name: now})\n                            await pipeline.execute()\n')),
c("hb-notx",('                        async with r.pipeline() as pipeline:\n                            pipeline.zremrange','                        async with r.pipeline(transaction=False) as pipeline:\n                            pipeline.zremrange')),
c("hb-wrongname",('pipeline.sadd(self.worker_tasks_set(self.name), *task_names)','pipeline.sadd(self.worker_tasks_set(self.docket.name), *task_names)')),
c("rm-tasks",('                for task_name in self.docket.tasks:\n                    pipeline.zrem(self.task_workers_set(task_name), self.name)\n','')),
c("rm-names",('                pipeline.delete(self.worker_tasks_set(self.name))\n','')),
c("rm-all",('pipeline.zrem(self.workers_set, self.name)','pipeline.delete(self.workers_set)')),
c("rm-raise",('        except Exception:\n            logger.exception(\n                "Error clearing worker heartbeat"','        except ValueError:\n            logger.exception(\n                "Error clearing worker heartbeat"')),
c("rm-noexec",('                pipeline.delete(self.worker_tasks_set(self.name))\n                await pipeline.execute()','                pipeline.delete(self.worker_tasks_set(self.name))')),
c("ls-nopurge",('            '+ZR+'\n',''),f=S),
c("ls-purge",(ZR,'await r.zremrangebyscore(self.workers_set, oldest, "+inf")'),f=S),
c("ls-purge2",('await r.zremrangebyscore(self.task_workers_set(task_name), 0, oldest)','await r.zremrangebyscore(self.workers_set, 0, oldest)'),f=S),
c("ls-all",('                self.task_workers_set(task_name), 0, -1, withscores=True','                self.task_workers_set(task_name), 0, 100, withscores=True'),f=S),
c("ls-set",('                self.task_workers_set(task_name), 0, -1','                self.workers_set, 0, -1'),f=S),
c("ls-missed",('self.heartbeat_interval.total_seconds() * self.missed_heartbeats\n        )\n\n        async with self.redis() as r:\n            await r.zremrangebyscore(self.workers_set','self.heartbeat_interval.total_seconds() + self.missed_heartbeats\n        )\n\n        async with self.redis() as r:\n            await r.zremrangebyscore(self.workers_set'),f=S),
c("ls-utc",('                last_seen = datetime.fromtimestamp(last_seen_timestamp, timezone.utc)\n\n                task_names: set[str] = {\n                    task_name_bytes.decode()\n                    for task_name_bytes in await r.smembers(\n                        self.worker_tasks_set(worker_name)\n                    )\n                }\n\n                workers.append(WorkerInfo(worker_name, last_seen, task_names))\n\n        return workers\n\n    async def task','                last_seen = datetime.fromtimestamp(last_seen_timestamp)\n\n                task_names: set[str] = {\n                    task_name_bytes.decode()\n                    for task_name_bytes in await r.smembers(\n                        self.worker_tasks_set(worker_name)\n                    )\n                }\n\n                workers.append(WorkerInfo(worker_name, last_seen, task_names))\n\n        return workers\n\n    async def task'),f=S),
c("ls-notasks",('                workers.append(WorkerInfo(worker_name, last_seen, task_names))\n\n        return workers\n\n    async def task','                if task_names:\n                    workers.append(WorkerInfo(worker_name, last_seen, task_names))\n\n        return workers\n\n    async def task'),f=S),
c("ls-shared",('                task_names: set[str] = {\n                    task_name_bytes.decode()\n                    for task_name_bytes in await r.smembers(\n                        self.worker_tasks_set(worker_name)\n                    )\n                }\n\n                workers.append(WorkerInfo(worker_name, last_seen, task_names))\n\n        return workers\n\n\n','                workers.append(WorkerInfo(worker_name, last_seen, {task_name}))\n\n        return workers\n\n\n'),f=S),
c("st-late",('                    self._heartbeat_task = asyncio.create_task(\n                        self._heartbeat(),\n                        name=f"{self.docket.name} - heartbeat",\n                    )\n                    has_work','                    has_work'),('                        await process_completed_tasks()\n                        available_slots = self','                        await process_completed_tasks()\n                        if active_tasks and self._heartbeat_task is None:\n                            self._heartbeat_task = asyncio.create_task(self._heartbeat())\n                        available_slots = self')),
]
