"""The command line and Worker.run."""
W="worker.py"; C="cli/__init__.py"
I=["C38"]
CASES=[
("o-swap",C,[("            reconnection_delay=reconnection_delay,\n            minimum","            reconnection_delay=redelivery_timeout,\n            minimum")],I),
("o-drop",C,[("            enable_internal_instrumentation=enable_internal_instrumentation,\n            until","            until")],I),
("o-ports",C,[("healthcheck_port=healthcheck_port","healthcheck_port=metrics_port")],I),
("o-not",C,[("until_finished=until_finished","until_finished=not until_finished")],I),
("o-wdrop",W,[("                        schedule_automatic_tasks=schedule_automatic_tasks,\n                        enable","                        enable")],I),
("o-wswap",W,[("                        minimum_check_interval=minimum_check_interval,\n                        scheduling_resolution=scheduling_resolution","                        minimum_check_interval=scheduling_resolution,\n                        scheduling_resolution=scheduling_resolution")],I),
("o-durl",W,[("                name=docket_name,\n                url=url,","                name=docket_name,")],I),
("o-first",W,[("                for task_path in tasks:\n","                for task_path in tasks[:1]:\n")],I),
("o-forever",W,[("                        if until_finished:","                        if until_finished or not tasks:")],[]),
("o-forever2",W,[("                                worker.run_until_finished(),\n                                name","                                worker.run_forever(),\n                                name")],I),
("o-term",W,[('signal.SIGTERM, lambda: handle','signal.SIGHUP, lambda: handle')],I),
("o-nocancel",W,[("                            run_task.cancel()\n","                            run_task.done()\n")],I),
("o-raise",W,[("                    except asyncio.CancelledError:  # pragma: no cover\n                        pass\n                    finally","                    finally")],I),
("o-swallow",W,[("                    except asyncio.CancelledError:  # pragma: no cover\n                        pass\n                    finally","                    except BaseException:  # pragma: no cover\n                        pass\n                    finally")],I),
("o-nowait",W,[("                        await run_task\n","                        pass\n")],I),
("o-fallback",W,[("fallback_task=resolved_fallback_task","fallback_task=None")],I),
("o-restore",C,[("            await docket.restore(function, parameter, operator, value_)","            await docket.restore(function, parameter, operator, value)")],I),
("o-restore2",C,[("            await docket.restore(function, parameter, operator, value_)","            await docket.restore(function, parameter, value=value_)")],I),
("o-strikefn",C,[("            await docket.strike(function, parameter, operator, value_)","            await docket.strike(function if not parameter else None, parameter, operator, value_)")],I),
("o-clearurl",C,[("        async with Docket(name=docket_, url=url) as docket:\n            cleared","        async with Docket(name=docket_) as docket:\n            cleared")],I),
("o-delay",C,[("            when = datetime.now(timezone.utc) + delay\n            execution = await docket.add(tasks.fail","            when = datetime.now(timezone.utc)\n            execution = await docket.add(tasks.fail")],I),
("o-wrongtask",C,[("docket.add(tasks.sleep, when)","docket.add(tasks.trace, when)")],I),
("o-message",C,[("docket.add(tasks.fail, when)(message)","docket.add(tasks.fail, when)('')")],I),
("o-snap",C,[("            for task_path in tasks:\n                docket.register_collection(task_path)\n","")],I),
("o-task",C,[("docket.task_workers(task)","docket.task_workers(docket_)")],I),
("o-wild",C,[("callback=handle_strike_wildcard,\n        ),\n    ] = \"*\",\n    operator","),\n    ] = \"*\",\n    operator")],I),
("o-parser",C,[('''            parser=duration,
            help="The delay before the task is added to the docket",
        ),
    ] = timedelta(seconds=0),
) -> None:
    async def run() -> None:
        async with Docket(name=docket_, url=url) as docket:
            when = datetime.now(timezone.utc) + delay
            execution = await docket.add(tasks.trace''','''            help="The delay before the task is added to the docket",
        ),
    ] = timedelta(seconds=0),
) -> None:
    async def run() -> None:
        async with Docket(name=docket_, url=url) as docket:
            when = datetime.now(timezone.utc) + delay
            execution = await docket.add(tasks.trace''')],I),
("o-keep",W,[("self.minimum_check_interval = minimum_check_interval","self.minimum_check_interval = scheduling_resolution")],I),
("o-sched",W,[("self.schedule_automatic_tasks = schedule_automatic_tasks","self.schedule_automatic_tasks = schedule_automatic_tasks or docket.result_storage_ttl is None")],I),
("o-watch",C,[("        async with Docket(docket_name, url) as docket:","        async with Docket(docket_name) as docket:")],I),
]
