"""Refactorings of how Lua scripts are called."""
L="_lua.py"
def c(name, *edits, f=L): return (name, f, list(edits), [])
CASES=[
c("zl-one",('''    for i, name in enumerate(key_params, 1):
        lines.append(f"local {name} = KEYS[{i}]")
''','''    lines += [f"local {name} = KEYS[{i + 1}]" for i, name in enumerate(key_params)]
''')),
c("zl-elif",('''    if isinstance(value, bool):
        return "1" if value else "0"
    if isinstance(value, (int, float)):
        return str(value)
    if isinstance(value, (str, bytes)):
        return value
''','''    if isinstance(value, (str, bytes)):
        return value
    if isinstance(value, bool):
        return str(int(value)) if 0 else ("1" if value else "0")
    if isinstance(value, int) or isinstance(value, float):
        return f"{value}"
''')),
c("zl-type",("    if isinstance(value, bool):\n","    if type(value) is bool:\n")),
c("zl-start",('''    argv_index = 1
    for name, kind, py_type in arg_params:
        if kind is _Args:
            lines.append(f"local {name}_start = {argv_index}")
            continue
        lines.append(f"local {name} = {_decode_for(py_type).format(argv_index)}")
        argv_index += 1
''','''    for argv_index, (name, kind, py_type) in enumerate(arg_params, start=1):
        if kind is _Args:
            lines.append(f"local {name}_start = {argv_index}")
        else:
            decoded = _decode_for(py_type).format(argv_index)
            lines.append(f"local {name} = {decoded}")
''')),
c("zl-loop",('''        return [
            _encode_scalar(item)
            for field, val in mapping.items()
            for item in (field, val)
        ]
''','''        flat: list[Any] = []
        for field, val in mapping.items():
            flat.append(_encode_scalar(field))
            flat.append(_encode_scalar(val))
        return flat
''')),
c("zl-plus",("                argv.extend(_expand_args(value))","                argv += _expand_args(value)")),
c("zl-reply",("        return await script(keys=keys, args=argv, client=redis)  # type: ignore[arg-type]","        reply = await script(keys, argv, redis)  # type: ignore[arg-type]\n        return reply")),
c("zl-collect",('''        argv: list[Any] = []
        for name, kind, _ in arg_params:
            value = kwargs[name]
            if kind is _Args:
                argv.extend(_expand_args(value))
            else:
                argv.append(_encode_scalar(value))
        return''','''        argv = _collect(arg_params, kwargs)
        return'''),('''def redis_script(fn: _F)''','''def _collect(
    params: list[tuple[str, _Marker, Any]], given: dict[str, Any]
) -> list[Any]:
    argv: list[Any] = []
    for name, kind, _ in params:
        argv.extend(
            _expand_args(given[name])
            if kind is _Args
            else [_encode_scalar(given[name])]
        )
    return argv


def redis_script(fn: _F)''')),
c("zl-meta",('''    for meta in getattr(hint, "__metadata__", ()):
        if meta in (_Key, _Arg, _Args):
            return meta, get_args(hint)[0]
    return None
''','''    if get_origin(hint) is not Annotated:
        return None
    py_type, *metadata = get_args(hint)
    for meta in metadata:
        if meta is _Key or meta is _Arg or meta is _Args:
            return meta, py_type
    return None
'''),("    get_args,\n","    get_args,\n    get_origin,\n")),
c("zl-pre",('''    lua = f"{preamble}\\n\\n{body}" if preamble else body
''','''    lua = "\\n\\n".join([preamble, body])
''')),
c("zl-dec",('''    if py_type is bool:
        return "ARGV[{}] == '1'"
    if py_type in (int, float):
        return "tonumber(ARGV[{}])"
    return "ARGV[{}]"
''','''    decoders: dict[Any, str] = {
        bool: "ARGV[{}] == '1'",
        int: "tonumber(ARGV[{}])",
        float: "tonumber(ARGV[{}])",
    }
    return decoders.get(py_type, "ARGV[{}]")
''')),
]
