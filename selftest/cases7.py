"""Mutants of dependency resolution and contexts."""
R="dependencies/_resolution.py"; F="dependencies/_functional.py"; X="dependencies/_contextual.py"; W="worker.py"
def c(name, ids, *edits, f=R): return (name, f, list(edits), ids)
CASES=[
c("rs-noworker",["C22"],("                for name, dependency in worker.dependencies.items():","                for name, dependency in list(worker.dependencies.items())[1:]:")),
c("rs-slot",["C22"],('slot = f"__worker_dep__{name}"','slot = "__worker_dep__"')),
c("rs-slot2",["C22"],('slot = f"__worker_dep__{name}"','slot = name')),
c("rs-enter-given",["C22"],("                        arguments[parameter] = kwargs[parameter]\n                        continue\n","                        arguments[parameter] = kwargs[parameter]\n")),
c("rs-no-given",["C22"],("                    if parameter in kwargs:\n                        arguments[parameter] = kwargs[parameter]\n                        continue\n","")),
c("rs-given-truthy",["C22"],("                    if parameter in kwargs:","                    if kwargs.get(parameter):")),
c("rs-bare",["C22"],("                        arguments[parameter] = FailedDependency(\n                            parameter, ValueError(\"No parameter name specified\")\n                        )\n                        continue\n","                        continue\n")),
c("rs-break",["C22"],("                    except Exception as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n","                    except Exception as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n                        break\n")),
c("rs-raise",["C22"],("                    except Exception as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n","                    except ValueError as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n")),
c("rs-base",["C22"],("                    except Exception as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n","                    except BaseException as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n")),
c("rs-worker-raise",["C22"],("                    except Exception as error:\n                        arguments[slot] = FailedDependency(name, error)\n","                    except LookupError as error:\n                        arguments[slot] = FailedDependency(name, error)\n")),
c("rs-swallow",["C22"],("                    except Exception as error:\n                        arguments[parameter] = FailedDependency(parameter, error)\n","                    except Exception:\n                        arguments[parameter] = None\n")),
c("rs-annswallow",["C22"],("                            arguments[parameter_name] = FailedDependency(\n                                parameter_name, error\n                            )\n","                            pass\n")),
c("rs-annfirst",["C22"],("                    for dependency in dependencies:\n                        bound","                    for dependency in dependencies[:1]:\n                        bound")),
c("rs-unbound",["C22"],("await stack.enter_async_context(bound)","await stack.enter_async_context(dependency)")),
c("rs-kwonly",["C22"],("                        **positional,\n","")),
c("rs-posonly",["C22"],("                        **execution.kwargs,\n                    }.get","                    }.get")),
c("rs-noargs",["C22"],("                        **arguments,\n","")),
c("rs-aenter",["C22"],("arguments[parameter] = await stack.enter_async_context(\n                            dependency\n                        )","arguments[parameter] = await dependency.__aenter__()")),
c("rs-noconflict",["C22"],("                arguments.update(\n                    worker.validate_task_dependencies(\n                        execution.function, arguments, annotations\n                    )\n                )\n","                worker.validate_task_dependencies(\n                    execution.function, arguments, annotations\n                )\n")),
c("rs-suppress",["C22"],("                yield arguments\n            finally:\n","                yield arguments\n            except asyncio.CancelledError:\n                pass\n            finally:\n"),("from collections.abc","import asyncio\nfrom collections.abc")),
c("fn-noname",["C22"],("                dependency.parameter = parameter\n","                pass\n"),f=F),
c("fn-rename",["C22"],("if isinstance(dependency, _TaskArgument) and not dependency.parameter:","if isinstance(dependency, _TaskArgument):"),f=F),
c("fn-scope",["C22"],("        stack = self.stack.get()\n        arguments: dict[str, Any] = {}\n        parameters = get_dependency_parameters(function)\n\n        for","        arguments: dict[str, Any] = {}\n        parameters = get_dependency_parameters(function)\n\n        for"),("await stack.enter_async_context(dependency)","await dependency.__aenter__()"),f=F),
c("cx-noreset",["C23"],("        current_worker.reset(worker_token)\n","")),
c("cx-swap",["C23"],("        current_execution.reset(execution_token)\n        current_worker.reset(worker_token)","        current_execution.reset(worker_token)\n        current_worker.reset(execution_token)")),
c("cx-nofinally",["C23"],("    finally:\n        _Depends.cache.reset(cache_token)","    except Exception:\n        raise\n    else:\n        _Depends.cache.reset(cache_token)")),
c("cx-nostack",["C23"],("            stack_token = _Depends.stack.set(stack)","            stack_token = _Depends.stack.set(worker._stack)")),
c("cx-cache",["C23"],("_Depends.cache.set({})","_Depends.cache.set(worker._depends_cache)")),
c("cx-late",["C23"],("    execution_token = current_execution.set(execution)\n",""),("                parameters = get_dependency_parameters(execution.function)\n","                execution_token = current_execution.set(execution)\n                parameters = get_dependency_parameters(execution.function)\n")),
c("cx-early",["C23"],("                yield arguments\n            finally:\n","                yield arguments\n            finally:\n                current_execution.reset(execution_token)\n"),("        current_execution.reset(execution_token)\n        current_worker","        current_worker")),
c("cx-stackreset",["C23"],("            finally:\n                _Depends.stack.reset(stack_token)","            except Exception:\n                _Depends.stack.reset(stack_token)\n                raise")),
c("tk",["C23"],("return current_execution.get().key","return current_execution.get().function_name"),f=X),
c("ta-opt",["C23"],("            if self.optional:\n                return None\n            raise","            return None"),f=X),
c("ta-noopt",["C23"],("            if self.optional:\n                return None\n            raise","            raise"),f=X),
c("wk-notset",["C23"],("        self._worker_token = current_worker.set(self)\n        self._stack.callback(lambda: current_worker.reset(self._worker_token))\n",""),f=W),
c("wk-noreset",["C23"],("        self._stack.callback(lambda: current_worker.reset(self._worker_token))\n",""),f=W),
]
