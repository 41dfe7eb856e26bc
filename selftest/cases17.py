"""How Lua scripts are called."""
L="_lua.py"
def c(name, *edits, f=L, ids=("C29",)): return (name, f, list(edits), list(ids))
CASES=[
c("l-argstart",("    argv_index = 1\n","    argv_index = len(key_params)\n")),
c("l-keystart",("enumerate(key_params, 1)","enumerate(key_params)")),
c("l-bool",("""        return "ARGV[{}] == '1'\"""","""        return "ARGV[{}] == 'true'\"""")),
c("l-bool2",('return "1" if value else "0"','return "1" if value else ""'),ids=("C29",)),
c("l-bool3",('''    if isinstance(value, bool):
        return "1" if value else "0"
    if isinstance(value, (int, float)):
        return str(value)
''','''    if isinstance(value, (int, float)):
        return str(value)
    if isinstance(value, bool):
        return "1" if value else "0"
''')),
c("l-float",("if py_type in (int, float):","if py_type is int:")),
c("l-round",("        return str(value)\n","        return str(int(value))\n")),
c("l-str",("    if isinstance(value, (str, bytes)):\n        return value\n","    if isinstance(value, (str, bytes)):\n        return value.strip()\n")),
c("l-start",('lines.append(f"local {name}_start = {argv_index}")','lines.append(f"local {name}_start = {argv_index + 1}")')),
c("l-noinc",("        argv_index += 1\n    return","    return")),
c("l-incargs",("        argv_index += 1\n    return","        argv_index += 2 if kind is _Args else 1\n    return"),ids=()),
c("l-flip",("            for item in (field, val)\n","            for item in (val, field)\n")),
c("l-sort",("in mapping.items()","in sorted(mapping.items())")),
c("l-vals",("            for item in (field, val)\n","            for item in (val,)\n")),
c("l-keysort",("[kwargs[name] for name in key_params]","[kwargs[name] for name in sorted(key_params)]")),
c("l-kwargs",("[kwargs[name] for name in key_params]","[v for k, v in kwargs.items() if k in key_params]"),ids=()),
c("l-append",("                argv.extend(_expand_args(value))","                argv.append(_expand_args(value))")),
c("l-noenc",("                argv.append(_encode_scalar(value))","                argv.append(str(value))")),
c("l-enc",('AsyncScript(None, lua.encode("utf-8"))','AsyncScript(None, body.encode("utf-8"))')),
c("l-script",("    script.script = lua\n","    script.script = body\n")),
c("l-body",('f"{preamble}\\n\\n{body}" if preamble else body','body')),
c("l-noret",("        return await script(keys=keys","        await script(keys=keys")),
c("l-swap",("script(keys=keys, args=argv, client=redis)","script(keys=argv, args=keys, client=redis)")),
c("l-accept",('''    raise TypeError(
        f"@redis_script value must be''','''    return str(value)
    raise TypeError(
        f"@redis_script value must be''')),
c("l-cache",("        keys: list[Any] = [kwargs[name] for name in key_params]\n        argv: list[Any] = []\n","        keys: list[Any] = [kwargs[name] for name in key_params]\n"),("    @functools.wraps(fn)\n","    argv: list[Any] = []\n\n    @functools.wraps(fn)\n"),ids=()),
]
