"""Conflicting dependencies."""
R="dependencies/_resolution.py"; W="worker.py"; D="docket.py"
I=["C32"]
CASES=[
("k-noannot",R,[("            items.append((parameter_name, dependency))\n","            pass\n")],I),
("k-count",R,[('getattr(concrete, "single", False) and len(keys) > 1','getattr(concrete, "single", False) and len(keys) > 2')],I),
("k-allsingle",R,[('if getattr(concrete, "single", False) and len(keys) > 1','if len(keys) > 1')],I),
("k-bases-break",R,[("        if base in reported:\n            continue\n","        if reported:\n            break\n")],[]),
("k-nobases",R,[("        bases.update(_single_bases(type(dependency)))","        bases.update(_single_bases(type(dependency))[:1])")],I),
("k-mro",R,[("for base in cls.__mro__","for base in cls.__mro__[:2]")],I),
("k-firsttwo",R,[("    for _, dependency in items:\n        bases","    for _, dependency in items[:2]:\n        bases")],[]),
("k-setdefault",R,[("        by_type.setdefault(type(dependency), []).append(key)","        by_type[type(dependency)] = [key]")],I),
("k-named",R,[('described = ", ".join(repr(k) for k in keys)','described = repr(keys[0])')],I),
("k-named2",R,[('described = ", ".join(f"{key!r} ({cls.__name__})" for key, cls in matches)','described = ", ".join(cls.__name__ for _, cls in matches)')],I),
("k-slot",R,[('            conflict_key = f"__conflict_{concrete.__name__}__"','            conflict_key = keys[0]')],I),
("k-memo",W,[("        return detect_single_conflicts(arguments, annotations)\n","        memo = self.__dict__.setdefault('_memo', {})\n        if function not in memo:\n            memo[function] = detect_single_conflicts(arguments, annotations)\n        return memo[function]\n")],I),
("k-reserved",R,[('            if given_name.startswith("__"):','            if given_name.startswith("__worker"):')],I),
("k-samename",R,[('            name = f"__worker_dep_{index}__"','            name = f"__worker_dep_{len(items)}__"')],I),
("k-isdep",R,[("        if not isinstance(dependency, Dependency):\n            label","        if index == 0 and not isinstance(dependency, Dependency):\n            label")],I),
("k-exactonly",R,[("        if isinstance(dependency, dependency_type):\n            return dependency\n    return None\n\n\ndef detect","        if type(dependency) is dependency_type:\n            return dependency\n    return None\n\n\ndef detect")],I),
("k-slotonly",R,[("    for _, dependency in dependencies.items():\n        if isinstance","    for slot, dependency in dependencies.items():\n        if slot.startswith('__'):\n            continue\n        if isinstance")],I),
("k-register",D,[("        validate_dependencies(function)\n\n        if not names","        try:\n            validate_dependencies(function)\n        except ValueError:\n            logger.warning('conflict')\n\n        if not names")],I),
("k-single",'dependencies/_debounce.py',[("    single: bool = True","    single: bool = False")],[]),
("k-args",R,[("                        execution.function, arguments, annotations\n","                        execution.function, arguments, {}\n")],I),
]
