"""Refactorings of how keys are built."""
W="worker.py"; D="docket.py"; C="dependencies/_concurrency.py"
def c(name, *edits, f=D): return (name, f, list(edits), [])
CASES=[
c("zk-join",('return f"{self.prefix}:{suffix}"','return ":".join([self.prefix, suffix])')),
c("zk-plus",('return f"{self.prefix}:{suffix}"','return self.prefix + ":" + suffix')),
c("zk-helper",('docket_prefix=self.docket.prefix','docket_prefix=self.docket.key("")[:-1]') if 0 else ('runs_key = f"{docket.prefix}:runs:{task_key}"','runs_key = docket.runs_key(task_key)'),f=C),
c("zk-key",('runs_prefix=f"{docket.prefix}:runs:"','runs_prefix=docket.key("runs:")'),f=C),
c("zk-rate",("        scope = self.scope or docket.prefix\n","        scope = docket.prefix if not self.scope else self.scope\n"),f="dependencies/_ratelimit.py"),
c("zk-deb",("        scope = self.scope or docket.prefix\n","        scope = docket.prefix\n        if self.scope:\n            scope = self.scope\n"),f="dependencies/_debounce.py"),
c("zk-conc",('scope = f"{docket.prefix}:{self.scope}" if self.scope else docket.prefix','scope = docket.key(self.scope) if self.scope else docket.prefix'),f=C),
c("zk-cluster",("        if self.is_cluster:\n            return f\"{{{name}}}\"\n        return name","        return f\"{{{name}}}\" if self.is_cluster else name"),f="_redis.py"),
c("zk-cluster2",("        if self.is_cluster:\n            return f\"{{{name}}}\"\n        return name","        if not self.is_cluster:\n            return name\n        return \"{\" + name + \"}\""),f="_redis.py"),
c("zk-local",('                        docket_prefix=self.docket.prefix,','                        docket_prefix=prefix,'),('    async def _scheduler_loop(self, redis: Redis) -> None:\n','    async def _scheduler_loop(self, redis: Redis) -> None:\n        prefix = self.docket.prefix\n'),f=W),
]
