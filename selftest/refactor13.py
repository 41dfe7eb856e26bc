"""Edits of agendas that change no behaviour."""
A="agenda.py"
def c(name, *edits, f=A): return (name, f, list(edits), [])
CASES=[
c("uniform",('''                offset = timedelta(
                    seconds=random.uniform(
                        -jitter.total_seconds(), jitter.total_seconds()
                    )
                )
''','''                spread = jitter.total_seconds()
                offset = timedelta(seconds=random.uniform(-spread, spread))
''')),
c("clamp",('''                jittered_time = max(schedule_time + offset, start)
''','''                jittered_time = schedule_time + offset
                if jittered_time < start:
                    jittered_time = start
''')),
c("comp",('''            jittered_times: list[datetime] = []
            for schedule_time in schedule_times:
                # Random offset between -jitter and +jitter
                offset = timedelta(
                    seconds=random.uniform(
                        -jitter.total_seconds(), jitter.total_seconds()
                    )
                )
                # Ensure the jittered time doesn't go before start
                jittered_time = max(schedule_time + offset, start)
                jittered_times.append(jittered_time)
            schedule_times = jittered_times
''','''            schedule_times = [
                max(
                    at
                    + timedelta(
                        seconds=random.uniform(
                            -jitter.total_seconds(), jitter.total_seconds()
                        )
                    ),
                    start,
                )
                for at in schedule_times
            ]
''')),
c("helper",('''        # Calculate even distribution over the time period
        task_count = len(self._tasks)

        if task_count == 1:
            # Single task goes in the middle of the window
            schedule_times = [start + over / 2]
        else:
            # Distribute tasks evenly across the window
            # For n tasks, we want n points from start to start+over inclusive
            interval = over / (task_count - 1)
            schedule_times = [start + interval * i for i in range(task_count)]
''','''        schedule_times = self._spread(start, over)
'''),('''    async def scatter(''','''    def _spread(self, start: datetime, over: timedelta) -> list[datetime]:
        count = len(self._tasks)
        if count == 1:
            return [start + over / 2]
        step = over / (count - 1)
        times = []
        for i in range(count):
            times.append(start + i * step)
        return times

    async def scatter(''')),
c("index",('''        for (task_func, args, kwargs, explicit_key), schedule_time in zip(
            self._tasks, schedule_times
        ):
''','''        for i, (task_func, args, kwargs, explicit_key) in enumerate(self._tasks):
            schedule_time = schedule_times[i]
''')),
c("td",('if over.total_seconds() <= 0:','if over <= timedelta(0):')),
c("empty",('        if not self._tasks:','        if len(self._tasks) == 0:')),
c("keynone",('''            key = explicit_key if explicit_key is not None else str(uuid7())
''','''            if explicit_key is None:
                key = str(uuid7())
            else:
                key = explicit_key
''')),
c("plan",('''        for task_func, args, kwargs, key, schedule_time in planned:
            scheduler = docket.add(task_func, when=schedule_time, key=key)
            executions.append(await scheduler(*args, **kwargs))
''','''        for task_func, args, kwargs, key, schedule_time in planned:
            execution = await docket.add(task_func, schedule_time, key)(*args, **kwargs)
            executions.append(execution)
''')),
c("starting",('''        if start is None:
            start = datetime.now(timezone.utc)
''','''        start = start if start is not None else datetime.now(timezone.utc)
''')),
]
