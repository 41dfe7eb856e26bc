"""Mutants of messages and of what is read back of them."""
E="execution.py"; W="worker.py"; D="docket.py"; I="instrumentation.py"
def c(name, *edits, f=E): return (name, f, list(edits), ["C11"])
CASES=[
c("ms-naive",('b"when": self.when.isoformat().encode()','b"when": self.when.replace(tzinfo=None).isoformat().encode()')),
c("ms-seconds",('b"when": self.when.isoformat().encode()','b"when": self.when.isoformat(timespec="seconds").encode()')),
c("ms-name",('b"function": self.function_name.encode()','b"function": self.function.__name__.encode()')),
c("ms-json",('b"args": cloudpickle.dumps(self.args)','b"args": json.dumps(self.args).encode()')),
c("ms-swap",('args=cloudpickle.loads(message[b"args"])','args=cloudpickle.loads(message[b"kwargs"])')),
c("ms-attempt",('attempt=int(message[b"attempt"].decode())','attempt=int(message[b"attempt"].decode()) + int(redelivered)')),
c("ms-generation",('generation=int(message.get(b"generation", b"0"))','generation=int(message.get(b"attempt", b"0"))')),
c("ms-nogen",('            generation=int(message.get(b"generation", b"0")),\n','')),
c("ms-gendefault",('message.get(b"generation", b"0")','message.get(b"generation", b"1")')),
c("ms-genstrict",('int(message.get(b"generation", b"0"))','int(message[b"generation"])')),
c("ms-noname",('            redelivered=redelivered,\n            function_name=function_name,\n','            redelivered=redelivered,\n')),
c("ms-noid",('            generation=int(message.get(b"generation", b"0")),\n            message_id=message_id,\n','            generation=int(message.get(b"generation", b"0")),\n')),
c("ms-noredel",('            redelivered=redelivered,\n            function_name','            function_name')),
c("ms-fallbackfirst",('        if not (function := docket.tasks.get(function_name)):\n            if fallback_task is None:','        if fallback_task is not None:\n            function = fallback_task\n        elif not (function := docket.tasks.get(function_name)):\n            if fallback_task is None:')),
c("ms-keyerror",('                raise ValueError(\n                    f"Task function','                raise KeyError(\n                    f"Task function')),
c("ms-whenlocal",('when=datetime.fromisoformat(message[b"when"].decode())','when=datetime.fromisoformat(message[b"when"].decode()).astimezone()')),
c("ms-now",('when=datetime.fromisoformat(message[b"when"].decode())','when=datetime.now(timezone.utc) if redelivered else datetime.fromisoformat(message[b"when"].decode())')),
c("tr-extract",('propagate.extract(message, getter=message_getter)','propagate.extract({}, getter=message_getter)')),
c("tr-nogetter",('propagate.extract(message, getter=message_getter)','propagate.extract(message)')),
c("tr-none",('            trace_context=propagate.extract(message, getter=message_getter),\n','')),
c("tr-prefix",('carrier[key.encode()] = value.encode()','carrier[b"trace:" + key.encode()] = value.encode()'),f=I),
c("tr-get",('        val = carrier.get(key.encode(), None)\n','        val = carrier.get(key.lower().encode(), None)\n'),f=I),
c("tr-absent",('        val = carrier.get(key.encode(), None)\n        if val is None:\n            return None\n        return [val.decode()]','        return [carrier.get(key.encode(), b"").decode()]'),f=I),
c("dl-redel",('is_redelivery: bool = False','is_redelivery: bool = True'),('redelivered=is_redelivery','redelivered=False'),f=W),
c("dl-always",('redelivered=is_redelivery','redelivered=True'),f=W),
c("dl-nofallback",('                fallback_task=self.fallback_task,\n',''),f=W),
c("dl-noid",('                message_id=message_id,\n            )\n\n            task','            )\n\n            task'),f=W),
c("ge-args",('args = cloudpickle.loads(args_data)','args = cloudpickle.loads(kwargs_data)'),f=D),
c("ge-tz",('when = datetime.fromtimestamp(float(when_str.decode()), tz=timezone.utc)','when = datetime.fromtimestamp(float(when_str.decode()))'),f=D),
c("ge-int",('when = datetime.fromtimestamp(float(when_str.decode()), tz=timezone.utc)','when = datetime.fromtimestamp(round(float(when_str.decode())), tz=timezone.utc)'),f=D),
c("ge-known",('when_str = data.get(b"when")','when_str = data.get(b"known")'),f=D),
c("ge-unregistered",('            if not function:\n                # Create','            if not function:\n                return None\n                # Create'),f=D),
c("ge-finished",('            if not function_name or not args_data','            if b"completed_at" in data or not function_name or not args_data'),f=D),
c("ge-key",('                kwargs=kwargs,\n                key=key,\n                when=when,\n                attempt=1','                kwargs=kwargs,\n                key=function_name_str,\n                when=when,\n                attempt=1'),f=D),
c("ge-noname",('                function_name=function_name_str,\n            )\n\n            # Sync','            )\n\n            # Sync'),f=D),
("pp-noname","dependencies/_perpetual.py",[('            function = execution.function_name\n','            pass\n')],["C21"]),
("pp-name","dependencies/_perpetual.py",[('await docket.replace(function, when','await docket.replace(execution.function, when')],["C21"]),
]
