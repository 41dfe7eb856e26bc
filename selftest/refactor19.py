"""Refactorings of the search for conflicts."""
R="dependencies/_resolution.py"; W="worker.py"; D="docket.py"
def c(name, *edits, f=R): return (name, f, list(edits), [])
CASES=[
c("kk-loop",('''    return [
        base
        for base in cls.__mro__
        if base is not Dependency
        and issubclass(base, Dependency)
        and getattr(base, "single", False)
    ]''','''    out = []
    for base in cls.__mro__:
        if base is Dependency or not issubclass(base, Dependency):
            continue
        if getattr(base, "single", False):
            out.append(base)
    return out''')),
c("kk-extend",("        for dependency in deps:\n            items.append((parameter_name, dependency))\n","        items.extend((parameter_name, dependency) for dependency in deps)\n")),
c("kk-defaultdict",("    by_type: dict[type[Dependency[Any]], list[str]] = {}\n    for key, dependency in items:\n        by_type.setdefault(type(dependency), []).append(key)\n","    by_type: dict[type[Dependency[Any]], list[str]] = {}\n    for key, dependency in items:\n        kind = type(dependency)\n        if kind not in by_type:\n            by_type[kind] = []\n        by_type[kind].append(key)\n")),
c("kk-helper",('''            conflicts[conflict_key] = FailedDependency(
                conflict_key,
                ValueError(
                    f"Only one {concrete.__name__} dependency is allowed, "
                    f"but found at: {described}. "
                    "Declare it in exactly one place (task or worker)."
                ),
            )
            reported''','''            conflicts[conflict_key] = _conflict(conflict_key, concrete, f"at: {described}")
            reported'''),('def detect_single_conflicts(','''def _conflict(key: str, kind: type, where: str) -> FailedDependency:
    error = ValueError(
        f"Only one {kind.__name__} dependency is allowed, but found {where}. "
        "Declare it in exactly one place (task or worker)."
    )
    return FailedDependency(key, error)


def detect_single_conflicts(''')),
c("kk-chain",('''    items: list[tuple[str, Dependency[Any]]] = [
        (key, value)
        for key, value in arguments.items()
        if isinstance(value, Dependency)
    ]
''','''    items: list[tuple[str, Dependency[Any]]] = []
    for key, value in arguments.items():
        if isinstance(value, Dependency):
            items.append((key, value))
''')),
c("kk-values",("    for _, dependency in dependencies.items():\n        if isinstance(dependency, dependency_type):\n            return dependency\n    return None\n\n\ndef detect","    for dependency in dependencies.values():\n        if isinstance(dependency, dependency_type):\n            return dependency\n    return None\n\n\ndef detect")),
c("kk-next",("    for _, dependency in dependencies.items():\n        if isinstance(dependency, dependency_type):\n            return dependency\n    return None\n\n\ndef detect","    return next((d for d in dependencies.values() if isinstance(d, dependency_type)), None)\n\n\ndef detect")),
c("kk-format",('described = ", ".join(repr(k) for k in keys)','described = ", ".join([f"{k!r}" for k in keys])')),
c("kk-distinct",("        if len({cls for _, cls in matches}) > 1:","        kinds = set()\n        for _, cls in matches:\n            kinds.add(cls)\n        if len(kinds) > 1:")),
c("kk-notdeps",("        if not self.dependencies:\n            return {}\n        return detect","        return {} if not self.dependencies else detect"),f=W),
c("kk-positional",("                        execution.function, arguments, annotations\n","                        arguments=arguments,\n                        annotations=annotations,\n                        function=execution.function,\n")),
c("kk-split",("    for index, (given_name, dependency) in enumerate(items):\n","    index = -1\n    for given_name, dependency in items:\n        index += 1\n")),
c("kk-mapping",("    if isinstance(dependencies, Mapping):\n        items: list[tuple[str | None, Dependency[Any]]] = [\n            (name, dependency) for name, dependency in dependencies.items()\n        ]\n    else:\n        items = [(None, dependency) for dependency in dependencies]\n","    items: list[tuple[str | None, Dependency[Any]]]\n    if isinstance(dependencies, Mapping):\n        items = list(dependencies.items())\n    else:\n        items = []\n        for dependency in dependencies:\n            items.append((None, dependency))\n")),
c("kk-register",("        validate_dependencies(function)\n\n        if not names:\n            names = [function.__name__]\n\n        for name in names:\n            self.tasks[name] = function\n","        validate_dependencies(function)\n        self.tasks.update({name: function for name in names or [function.__name__]})\n"),f=D),
c("kk-any",("        matches = [(key, type(dep)) for key, dep in items if isinstance(dep, base)]\n","        matches = [(key, dep.__class__) for key, dep in items if issubclass(type(dep), base)]\n")),
c("kk-frozenset",("    bases: set[type[Dependency[Any]]] = set()\n    for _, dependency in items:\n        bases.update(_single_bases(type(dependency)))\n","    bases = {\n        base for _, dependency in items for base in _single_bases(type(dependency))\n    }\n")),
]
