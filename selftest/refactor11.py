"""Edits of the registry of workers and of snapshots that change no behaviour."""
W="worker.py"; S="_docket_snapshot.py"
def c(name, *edits, f=W): return (name, f, list(edits), [])
CASES=[
c("hb-helper",('                            pipeline.zremrangebyscore(self.workers_set, 0, oldest)\n                            pipeline.zadd(self.workers_set, {self.name: now})\n\n                            for task_name in task_names:\n                                task_workers_set = self.task_workers_set(task_name)\n                                pipeline.zremrangebyscore(task_workers_set, 0, oldest)\n                                pipeline.zadd(task_workers_set, {self.name: now})\n','                            self._seen(pipeline, self.workers_set, oldest, now)\n                            for name in task_names:\n                                self._seen(pipeline, self.task_workers_set(name), oldest, now)\n'),('    async def _heartbeat(self)','    def _seen(self, pipeline: Any, registry: str, oldest: float, now: float) -> None:\n        pipeline.zremrangebyscore(registry, "-inf", oldest)\n        pipeline.zadd(registry, {self.name: now})\n\n    async def _heartbeat(self)')),
c("hb-tasks",('                task_names = list(self.docket.tasks)\n','                task_names = [*self.docket.tasks.keys()]\n')),
c("hb-wait",('            if await _wait_for_event(\n                session.stopping, self.docket.heartbeat_interval.total_seconds()\n            ):\n                return\n\n    async def _cancellation','            interval = self.docket.heartbeat_interval\n            if await _wait_for_event(session.stopping, interval.total_seconds()):\n                break\n\n    async def _cancellation')),
c("hb-each",('                            pipeline.sadd(self.worker_tasks_set(self.name), *task_names)\n','                            for task_name in task_names:\n                                pipeline.sadd(self.worker_tasks_set(self.name), task_name)\n')),
c("hb-one",('            except ConnectionError:\n                REDIS_DISRUPTIONS.add(1, self.labels())\n                logger.exception(\n                    "Error sending worker heartbeat",\n                    exc_info=True,\n                    extra=self._log_context(),\n                )\n            except Exception:  # pragma: no cover\n                logger.exception(\n                    "Error sending','            except Exception as error:  # pragma: no cover\n                if isinstance(error, ConnectionError):\n                    REDIS_DISRUPTIONS.add(1, self.labels())\n                logger.exception(\n                    "Error sending')),
c("rm-del",('                pipeline.delete(self.worker_tasks_set(self.name))\n                await','                pipeline.unlink(self.worker_tasks_set(self.name))\n                await')),
c("ls-comp",('                task_names: set[str] = {\n                    task_name_bytes.decode()\n                    for task_name_bytes in await r.smembers(\n                        self.worker_tasks_set(worker_name)\n                    )\n                }\n\n                workers.append(WorkerInfo(worker_name, last_seen, task_names))\n\n        return workers\n\n    async def task','                members = await r.smembers(self.worker_tasks_set(worker_name))\n                workers.append(\n                    WorkerInfo(\n                        name=worker_name,\n                        last_seen=last_seen,\n                        tasks={member.decode() for member in members},\n                    )\n                )\n\n        return workers\n\n    async def task'),f=S),
c("ls-shared",('        workers: list[WorkerInfo] = []\n\n        oldest = datetime','        return await self._registered(self.workers_set)\n\n    async def _registered(self, registry: str) -> Collection[WorkerInfo]:\n        workers: list[WorkerInfo] = []\n\n        oldest = datetime'),('await r.zremrangebyscore(self.workers_set, 0, oldest)','await r.zremrangebyscore(registry, 0, oldest)'),('                self.workers_set, 0, -1, withscores=True','                registry, 0, -1, withscores=True'),f=S),
c("ls-age",('        oldest = datetime.now(timezone.utc).timestamp() - (\n            self.heartbeat_interval.total_seconds() * self.missed_heartbeats\n        )\n\n        async with self.redis() as r:\n            await r.zremrangebyscore(self.workers','        silent = self.missed_heartbeats * self.heartbeat_interval\n        oldest = (datetime.now(timezone.utc) - silent).timestamp()\n\n        async with self.redis() as r:\n            await r.zremrangebyscore(self.workers'),f=S),
]
