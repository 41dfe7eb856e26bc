"""Edits of dependency resolution and contexts that change no behaviour."""
R="dependencies/_resolution.py"; F="dependencies/_functional.py"; X="dependencies/_contextual.py"; W="worker.py"
def c(name, *edits, f=R): return (name, f, list(edits), [])
CASES=[
c("rs-helper",("                    try:\n                        arguments[parameter] = await stack.enter_async_context(\n                            dependency\n                        )\n                    except Exception as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n",
 "                    arguments[parameter] = await _enter(stack, parameter, dependency)\n"),
 ("                    try:\n                        arguments[slot] = await stack.enter_async_context(dependency)\n                    except Exception as error:\n                        arguments[slot] = FailedDependency(name, error)\n","                    arguments[slot] = await _enter(stack, name, dependency)\n"),
 ("@asynccontextmanager\nasync def resolved","async def _enter(stack: AsyncExitStack, name: str, dependency: Any) -> Any:\n    try:\n        return await stack.enter_async_context(dependency)\n    except Exception as error:\n        return FailedDependency(name, error)\n\n\n@asynccontextmanager\nasync def resolved")),
c("rs-elif",("                    if parameter in kwargs:\n                        arguments[parameter] = kwargs[parameter]\n                        continue\n","                    if parameter not in kwargs:\n                        pass\n                    else:\n                        arguments[parameter] = kwargs[parameter]\n                        continue\n")),
c("rs-loopkeys",("                for name, dependency in worker.dependencies.items():\n","                for name in worker.dependencies:\n                    dependency = worker.dependencies[name]\n")),
c("rs-bind",("                        bound = dependency.bind_to_parameter(\n                            parameter_name, argument_value\n                        )\n                        try:\n                            await stack.enter_async_context(bound)\n","                        try:\n                            await stack.enter_async_context(\n                                dependency.bind_to_parameter(\n                                    parameter_name, argument_value\n                                )\n                            )\n")),
c("rs-value",("                    argument_value = {\n                        **arguments,\n                        **positional,\n                        **execution.kwargs,\n                    }.get(parameter_name)\n","                    if parameter_name in execution.kwargs:\n                        argument_value = execution.kwargs[parameter_name]\n                    elif parameter_name in positional:\n                        argument_value = positional[parameter_name]\n                    else:\n                        argument_value = arguments.get(parameter_name)\n")),
c("rs-conflicts",("                arguments.update(\n                    worker.validate_task_dependencies(\n                        execution.function, arguments, annotations\n                    )\n                )\n\n                yield arguments\n","                conflicts = worker.validate_task_dependencies(\n                    execution.function, arguments, annotations\n                )\n                yield {**arguments, **conflicts}\n")),
c("cx-order",("    docket_token = current_docket.set(worker.docket)\n    worker_token = current_worker.set(worker)\n","    worker_token = current_worker.set(worker)\n    docket_token = current_docket.set(worker.docket)\n"),("        current_worker.reset(worker_token)\n        current_docket.reset(docket_token)\n","        current_docket.reset(docket_token)\n        current_worker.reset(worker_token)\n")),
c("cx-helper",("    docket_token = current_docket.set(worker.docket)\n    worker_token = current_worker.set(worker)\n    execution_token = current_execution.set(execution)\n","    with _ambient(worker, execution):\n        async with _resolve(worker, execution) as arguments:\n            yield arguments\n\n\n@contextmanager\ndef _ambient(worker: Worker, execution: Execution) -> Any:\n    docket_token = current_docket.set(worker.docket)\n    worker_token = current_worker.set(worker)\n    execution_token = current_execution.set(execution)\n    try:\n        yield\n    finally:\n        current_execution.reset(execution_token)\n        current_worker.reset(worker_token)\n        current_docket.reset(docket_token)\n\n\n@asynccontextmanager\nasync def _resolve(\n    worker: Worker, execution: Execution\n) -> AsyncGenerator[dict[str, Any], None]:\n"),
 ("        _Depends.cache.reset(cache_token)\n        current_execution.reset(execution_token)\n        current_worker.reset(worker_token)\n        current_docket.reset(docket_token)\n","        _Depends.cache.reset(cache_token)\n"),("import AsyncExitStack, asynccontextmanager","import AsyncExitStack, asynccontextmanager, contextmanager")),
c("cx-callback",("    cache_token = _Depends.cache.set({})\n\n    try:\n        async with AsyncExitStack() as stack:\n","    cache_token = _Depends.cache.set(dict())\n\n    try:\n        stack = AsyncExitStack()\n        async with stack:\n")),
c("ta-get",("        try:\n            return execution.get_argument(self.parameter)\n        except KeyError:\n            if self.optional:\n                return None\n            raise\n","        try:\n            value = execution.get_argument(self.parameter)\n        except KeyError:\n            if not self.optional:\n                raise\n            value = None\n        return value\n"),f=X),
c("fn-comp",("            if isinstance(dependency, _TaskArgument) and not dependency.parameter:\n                dependency.parameter = parameter\n","            if isinstance(dependency, _TaskArgument):\n                dependency.parameter = dependency.parameter or parameter\n"),f=F),
c("wk-order",("        self._docket_token = current_docket.set(self.docket)\n        self._stack.callback(lambda: current_docket.reset(self._docket_token))\n        self._worker_token = current_worker.set(self)\n        self._stack.callback(lambda: current_worker.reset(self._worker_token))\n","        self._docket_token = current_docket.set(self.docket)\n        self._worker_token = current_worker.set(self)\n\n        def restore() -> None:\n            current_worker.reset(self._worker_token)\n            current_docket.reset(self._docket_token)\n\n        self._stack.callback(restore)\n"),f=W),
]
