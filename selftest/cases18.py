"""Keys under the docket's prefix."""
W="worker.py"; D="docket.py"; S="_docket_snapshot.py"; C="dependencies/_concurrency.py"; P="_execution_progress.py"; X="execution.py"; K="strikelist.py"; R="dependencies/_ratelimit.py"
def c(name, *edits, f=D, ids=("C34",)): return (name, f, list(edits), list(ids))
CASES=[
c("k-prefix",("return self._redis.prefix(self.name)","return self.name")),
c("k-key",('return f"{self.prefix}:{suffix}"','return f"{self.name}:{suffix}"')),
c("k-colon",('return f"{self.prefix}:{suffix}"','return f"{self.prefix}{suffix}"')),
c("k-braces",('return f"{{{name}}}"','return f"{{{name}"'),f="_redis.py"),
c("k-cluster",("        if self.is_cluster:\n            return f\"{{{name}}}\"\n        return name","        return name"),f="_redis.py"),
c("k-always",("        if self.is_cluster:\n            return f\"{{{name}}}\"\n        return name","        return f\"{{{name}}}\""),f="_redis.py"),
c("k-prog",('self.docket.key(f"progress:','f"{self.docket.name}:progress:') if 0 else ('f"{docket.prefix}:progress:{task_key}"','f"{docket.name}:progress:{task_key}"'),f=C),
c("k-conc",('else docket.prefix\n','else docket.name\n'),f=C),
c("k-conc2",('f"{docket.prefix}:{self.scope}" if self.scope','self.scope if self.scope'),f=C),
c("k-rate",('self.scope or docket.prefix','self.scope or docket.name'),f=R),
c("k-sched",("docket_prefix=self.docket.prefix","docket_prefix=self.docket.name"),f=W),
c("k-strike",('return f"{self.prefix}:strikes"','return f"{self.name}:strikes"'),f=K),
c("k-lock",('redis.lock(f"{known_task_key}:lock"','redis.lock(f"{key}:lock"'),f=X),
c("k-lock2",("                async with redis.lock(\n                    self.docket.key(","                async with redis.lock(\n                    str("),f=W),
c("k-chan",('state_channel=f"{docket.prefix}:state','state_channel=f"state'),f=C),
c("k-parked",('parked_prefix=f"{docket.prefix}:"','parked_prefix=f"{docket.name}:"'),f=C),
c("k-lua",('docket_prefix .. ":runs:" .. task','"runs:" .. task'),f=W),
c("k-lua2",('docket_prefix .. ":state:" .. task','docket_prefix .. "state:" .. task'),f=W),
c("k-deb",(':{{{hash_tag}}}:winner',':winner'),f="dependencies/_debounce.py"),
c("k-deb2",(':{{{hash_tag}}}:winner',':{{{hash_tag}:winner}}'),f="dependencies/_debounce.py"),
]
