"""Refactorings of the command line and Worker.run."""
W="worker.py"; C="cli/__init__.py"
def c(name, *edits, f=W): return (name, f, list(edits), [])
CASES=[
c("oo-kw",("                    Worker(  # pragma: no branch - context manager exit varies across interpreters\n                        docket=docket,\n                        name=name,\n                        concurrency=concurrency,","                    Worker(  # pragma: no branch - context manager exit varies across interpreters\n                        docket,\n                        name,\n                        concurrency,")),
c("oo-settings",('''            async with Docket(
                name=docket_name,
                url=url,
                enable_internal_instrumentation=enable_internal_instrumentation,
            ) as docket:''','''            settings: dict[str, Any] = {"name": docket_name, "url": url}
            settings["enable_internal_instrumentation"] = enable_internal_instrumentation
            async with Docket(**settings) as docket:''')),
c("oo-main",('''                        if until_finished:
                            run_task = asyncio.create_task(
                                worker.run_until_finished(),
                                name=f"{docket_name} - worker",
                            )
                        else:
                            run_task = asyncio.create_task(
                                worker.run_forever(),
                                name=f"{docket_name} - worker",
                            )  # pragma: no cover
''','''                        main = (
                            worker.run_until_finished
                            if until_finished
                            else worker.run_forever
                        )
                        run_task = asyncio.create_task(
                            main(), name=f"{docket_name} - worker"
                        )
''')),
c("oo-signals",('''                        loop.add_signal_handler(
                            signal.SIGTERM, lambda: handle_shutdown("SIGTERM")
                        )
                        loop.add_signal_handler(
                            signal.SIGINT, lambda: handle_shutdown("SIGINT")
                        )
''','''                        for sig in (signal.SIGTERM, signal.SIGINT):
                            loop.add_signal_handler(sig, handle_shutdown, sig.name)
''')),
c("oo-fallback",('''        resolved_fallback_task: TaskFunction | None = None
        if fallback_task:
            module_name, _, member_name = fallback_task.rpartition(":")
            module = importlib.import_module(module_name)
            resolved_fallback_task = getattr(module, member_name)
''','''        resolved_fallback_task = cls._import_task(fallback_task)
'''),("    @classmethod\n    async def run(\n","    @classmethod\n    def _import_task(cls, path: str | None) -> TaskFunction | None:\n        if not path:\n            return None\n        module_name, _, member_name = path.rpartition(\":\")\n        return getattr(importlib.import_module(module_name), member_name)\n\n    @classmethod\n    async def run(\n")),
c("oo-suppress",('''                    try:
                        if until_finished:
                            run_task''','''                    try:
                        if not until_finished:
                            run_task = asyncio.create_task(
                                worker.run_forever(),
                                name=f"{docket_name} - worker",
                            )
                        else:
                            run_task'''),('''                        else:
                            run_task = asyncio.create_task(
                                worker.run_forever(),
                                name=f"{docket_name} - worker",
                            )  # pragma: no cover
''','')),
c("oo-guard",("                        if run_task and not run_task.done():\n                            run_task.cancel()","                        if run_task is None or run_task.done():\n                            return\n                        run_task.cancel()")),
c("oo-cli-kw",("            await docket.strike(function, parameter, operator, value_)","            await docket.strike(\n                function=function,\n                parameter=parameter,\n                operator=operator,\n                value=value_,\n            )"),f=C),
c("oo-cli-open",('''    async def run() -> None:
        async with Docket(name=docket_, url=url) as docket:
            cleared_count = await docket.clear()
            print(f"Cleared {cleared_count} tasks from docket '{docket_}'")

    asyncio.run(run())
''','''    asyncio.run(_clear(docket_, url))


async def _clear(docket_name: str, url: str) -> None:
    async with Docket(docket_name, url) as docket:
        cleared_count = await docket.clear()
    print(f"Cleared {cleared_count} tasks from docket '{docket_name}'")
'''),f=C),
c("oo-cli-add",('''            when = datetime.now(timezone.utc) + delay
            execution = await docket.add(tasks.trace, when)(message)
''','''            add_trace = docket.add(tasks.trace, when=datetime.now(timezone.utc) + delay)
            execution = await add_trace(message)
'''),f=C),
c("oo-cli-snap",('''            for task_path in tasks:
                docket.register_collection(task_path)

            return await docket.snapshot()
''','''            _ = [docket.register_collection(path) for path in tasks]
            taken = await docket.snapshot()
        return taken
'''),f=C),
c("oo-cli-value",('''    value_ = interpret_python_value(value)
    if parameter:
        function_name = f"{function or '(all tasks)'}"
        print(f"Striking''','''    value_ = None if value is None else interpret_python_value(value)
    if parameter:
        function_name = f"{function or '(all tasks)'}"
        print(f"Striking'''),f=C),
c("oo-inner",('''                        if until_finished:
                            run_task = asyncio.create_task(
                                worker.run_until_finished(),
                                name=f"{docket_name} - worker",
                            )
                        else:
                            run_task = asyncio.create_task(
                                worker.run_forever(),
                                name=f"{docket_name} - worker",
                            )  # pragma: no cover
''','''                        async def main() -> None:
                            if until_finished:
                                await worker.run_until_finished()
                            else:
                                await worker.run_forever()

                        run_task = asyncio.create_task(
                            main(), name=f"{docket_name} - worker"
                        )
''')),
c("oo-coro",('''                        if until_finished:
                            run_task = asyncio.create_task(
                                worker.run_until_finished(),
                                name=f"{docket_name} - worker",
                            )
                        else:
                            run_task = asyncio.create_task(
                                worker.run_forever(),
                                name=f"{docket_name} - worker",
                            )  # pragma: no cover
''','''                        coroutine = (
                            worker.run_until_finished()
                            if until_finished
                            else worker.run_forever()
                        )
                        run_task = loop.create_task(
                            coroutine, name=f"{docket_name} - worker"
                        )
''')),
c("oo-signal-helper",('''                    try:  # pragma: no cover
                        loop.add_signal_handler(
                            signal.SIGTERM, lambda: handle_shutdown("SIGTERM")
                        )
                        loop.add_signal_handler(
                            signal.SIGINT, lambda: handle_shutdown("SIGINT")
                        )
                    except NotImplementedError:  # pragma: no cover
                        pass  # Windows doesn't support loop signal handlers
''','''                    _install_signal_handlers(loop, handle_shutdown)
'''),('''class Worker:
''','''def _install_signal_handlers(loop: Any, handler: Callable[[str], None]) -> None:
    try:
        for sig in (signal.SIGTERM, signal.SIGINT):
            loop.add_signal_handler(sig, functools.partial(handler, sig.name))
    except NotImplementedError:
        pass


class Worker:
'''),("import importlib\n","import functools\nimport importlib\n")),
c("oo-cli-docket",('''        async with Docket(name=docket_, url=url) as docket:
            await docket.strike(function, parameter, operator, value_)
''','''        async with _docket(docket_, url) as docket:
            await docket.strike(function, parameter, operator, value_)
'''),("def strike(","def _strike_placeholder() -> None: ...\n\n\n@app.command(help=\"Strikes a task or parameters from the docket\")\ndef strike("),("@app.command(help=\"Strikes a task or parameters from the docket\")\ndef _strike_placeholder() -> None: ...","def _docket(name: str, url: str) -> Docket:\n    return Docket(name=name, url=url)"),f=C),
c("oo-cli-run",('''    async def run() -> None:
        async with Docket(name=docket_, url=url) as docket:
            await docket.restore(function, parameter, operator, value_)

    asyncio.run(run())
''','''    _with_docket(
        docket_, url, lambda d: d.restore(function, parameter, operator, value_)
    )


def _with_docket(name: str, url: str, action: Any) -> None:
    async def run() -> None:
        async with Docket(name=name, url=url) as docket:
            await action(docket)

    asyncio.run(run())
'''),f=C),
]
