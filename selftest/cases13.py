"""Mutants of agendas."""
A="agenda.py"
def c(name, *edits, f=A, ids=("C36",)): return (name, f, list(edits), list(ids))
CASES=[
c("ag-zero",('if over.total_seconds() <= 0:','if over.total_seconds() < 0:')),
c("ag-mid",('schedule_times = [start + over / 2]','schedule_times = [start]')),
c("ag-step",('interval = over / (task_count - 1)','interval = over / task_count')),
c("ag-order",('schedule_times = [start + interval * i for i in range(task_count)]','schedule_times = [start + interval * (task_count - 1 - i) for i in range(task_count)]')),
c("ag-jit",('-jitter.total_seconds(), jitter.total_seconds()','0, 2 * jitter.total_seconds()')),
c("ag-clamp",('jittered_time = max(schedule_time + offset, start)','jittered_time = schedule_time + offset')),
c("ag-clamp2",('jittered_time = max(schedule_time + offset, start)','jittered_time = min(schedule_time + offset, start)')),
c("ag-alias",('planned.append((task_func, args','planned.append((docket.tasks[task_func] if isinstance(task_func, str) else task_func, args')),
c("ag-late",('''                if task_func not in docket.tasks:
                    raise KeyError(f"Task '{task_func}' is not registered")
''','''                pass
''')),
c("ag-oneloop",('''        # Schedule each task; if one fails partway, earlier ones stay scheduled.
        executions: list[Execution] = []
        for task_func, args, kwargs, key, schedule_time in planned:
            scheduler = docket.add(task_func, when=schedule_time, key=key)
            executions.append(await scheduler(*args, **kwargs))

''',''),('''            planned.append((task_func, args, kwargs, key, schedule_time))
''','''            scheduler = docket.add(task_func, when=schedule_time, key=key)
            executions.append(await scheduler(*args, **kwargs))
'''),('        planned: list[\n            tuple[','        executions: list[Execution] = []\n        planned: list[\n            tuple[')),
c("ag-key",('key = explicit_key if explicit_key is not None else str(uuid7())','key = str(uuid7())')),
c("ag-key2",('key = explicit_key if explicit_key is not None else str(uuid7())','key = explicit_key or str(uuid7())')),
c("ag-key3",('''            key = explicit_key if explicit_key is not None else str(uuid7())
''','''            key = explicit_key if explicit_key is not None else fallback_key
'''),('        planned: list[','        fallback_key = str(uuid7())\n        planned: list[')),
c("ag-args",('self._tasks.append((function, args, kwargs, key))','self._tasks.append((function, args, {}, key))')),
c("ag-pop",('''        return executions''','''        self._tasks.clear()
        return executions''')),
c("ag-swallow",('''            executions.append(await scheduler(*args, **kwargs))
''','''            try:
                executions.append(await scheduler(*args, **kwargs))
            except Exception:
                continue
''')),
c("ag-noreg",('''                if task_func not in docket.tasks.values():
                    docket.register(task_func)
''','''                pass
''')),
c("ag-dup",('executions.append(await scheduler(*args, **kwargs))','executions.append(await scheduler(*args, **kwargs))\n            await scheduler(*args, **kwargs)')),
c("ag-when",('docket.add(task_func, when=schedule_time, key=key)','docket.add(task_func, when=start, key=key)')),
c("ag-start",('''        if start is None:
            start = datetime''','''        if start is None or start < datetime.now(timezone.utc):
            start = datetime''')),
]
