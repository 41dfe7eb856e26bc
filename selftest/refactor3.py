S="strikelist.py"; D="docket.py"
def c(name, *edits, f=S): return (name, f, list(edits), [])
CASES=[
c("match-table",('''            match operator:
                case "==":
                    return value == strike_value
                case "!=":
                    return value != strike_value
                case ">":
                    return value > strike_value
                case ">=":
                    return value >= strike_value
                case "<":
                    return value < strike_value
                case "<=":
                    return value <= strike_value
                case "between":  # pragma: no branch
                    lower, upper = strike_value
                    return lower <= value <= upper
                case _:  # pragma: no cover
                    raise ValueError(f"Unknown operator: {operator}")
''','''            if operator == "between":
                lower, upper = strike_value
                return value >= lower and upper >= value
            if operator == "==":
                matched = value == strike_value
            elif operator == "!=":
                matched = not (value == strike_value)
            elif operator == ">":
                matched = strike_value < value
            elif operator == ">=":
                matched = value >= strike_value
            elif operator == "<":
                matched = value < strike_value
            elif operator == "<=":
                matched = value <= strike_value
            else:
                raise ValueError(f"Unknown operator: {operator}")
            return matched
''')),
c("sources",('''            for strike_source in [task_strikes, self.parameter_strikes]:
                if parameter not in strike_source:
                    continue

                for operator, strike_value in strike_source[parameter]:
                    if self._is_match(argument, operator, strike_value):
                        return True

        return False

    def _is''','''            conditions = [
                *task_strikes.get(parameter, ()),
                *self.parameter_strikes.get(parameter, ()),
            ]
            if any(self._is_match(argument, o, v) for o, v in conditions):
                return True

        return False

    def _is''')),
c("arguments",('''        all_arguments = {
            **bound_args.arguments,
            **{
                k: v
                for k, v in execution.kwargs.items()
                if k not in bound_args.arguments
            },
        }
''','''        all_arguments = dict(execution.kwargs)
        all_arguments.update(bound_args.arguments)
''')),
c("setdefault",('''            try:
                task_strikes = self.task_strikes[strike.function]
            except KeyError:
                task_strikes = self.task_strikes[strike.function] = {}

            try:
                parameter_strikes = task_strikes[strike.parameter]
            except KeyError:
                parameter_strikes = task_strikes[strike.parameter] = set()

            parameter_strikes.add((strike.operator, strike.value))
''','''            task_strikes = self.task_strikes.setdefault(strike.function, {})
            condition = (strike.operator, strike.value)
            task_strikes.setdefault(strike.parameter, set()).add(condition)
''')),
c("restore-get",('''            try:
                task_strikes = self.task_strikes[restore.function]
            except KeyError:
                return

            try:
                parameter_strikes = task_strikes[restore.parameter]
            except KeyError:
                task_strikes.pop(restore.parameter, None)
                return

            try:
                parameter_strikes.remove((restore.operator, restore.value))
            except KeyError:
                pass
''','''            task_strikes = self.task_strikes.get(restore.function)
            if task_strikes is None or restore.parameter not in task_strikes:
                return
            parameter_strikes = task_strikes[restore.parameter]
            parameter_strikes.discard((restore.operator, restore.value))
''')),
c("update-dispatch",('''        if isinstance(instruction, Strike):
            self._strike(instruction)
        elif isinstance(instruction, Restore):  # pragma: no branch
            self._restore(instruction)
''','''        apply = self._strike if isinstance(instruction, Strike) else self._restore
        apply(instruction)
''')),
c("message-dict",('''        message: dict[bytes, bytes] = {b"direction": self.direction.encode()}
        if self.function:
            message[b"function"] = self.function.encode()
        if self.parameter:
            message[b"parameter"] = self.parameter.encode()
        message[b"operator"] = self.operator.encode()
        message[b"value"] = cloudpickle.dumps(self.value)
        return message
''','''        message: dict[bytes, bytes] = {
            b"operator": self.operator.encode(),
            b"value": cloudpickle.dumps(self.value),
            b"direction": self.direction.encode(),
        }
        for name, target in ((b"function", self.function), (b"parameter", self.parameter)):
            if target:
                message[name] = target.encode()
        return message
''')),
c("from-message",('''        if direction == "strike":
            return Strike(function, parameter, operator, value)
        else:
            return Restore(function, parameter, operator, value)
''','''        kind = Restore if direction == "restore" else Strike
        return kind(function, parameter, operator, value)
''')),
c("read-early",('''        # If no messages and we haven't signaled yet, initial load is done
        if not streams and not initial_load_complete:
            initial_load_complete = True
            # _strikes_loaded is always set when _monitor_strikes runs
            assert self._strikes_loaded is not None
            self._strikes_loaded.set()
            return last_id, initial_load_complete

        if not streams and initial_load_complete:  # pragma: no cover
            return last_id, initial_load_complete
''','''        if not streams:
            if not initial_load_complete:
                assert self._strikes_loaded is not None
                self._strikes_loaded.set()
            return last_id, True
''')),
c("read-helper",('''                last_id = message_id
                instruction = StrikeInstruction.from_message(message)
                self.update(instruction)
''','''                instruction = self._apply_message(message)
                last_id = message_id
'''),('''    async def _read_strikes(
''','''    def _apply_message(self, message: Message) -> StrikeInstruction:
        instruction = StrikeInstruction.from_message(message)
        self.update(instruction)
        return instruction

    async def _read_strikes(
''')),
c("block-branch",('''            streams = await r.xread(
                {self.strike_key: last_id},
                count=100,
                block=60_000 if initial_load_complete else None,
            )
''','''            block = None
            if initial_load_complete:
                block = 60_000
            position = {self.strike_key: last_id}
            streams = await r.xread(streams=position, count=100, block=block)
''')),
c("monitor-merge",('''            except redis.exceptions.ConnectionError:  # pragma: no cover
                REDIS_DISRUPTIONS.add(1, {"docket": self.name})
                logger.warning("Connection error, sleeping for 1 second...")
                await asyncio.sleep(1)
            except Exception:  # pragma: no cover
                logger.exception("Error monitoring strikes")
                await asyncio.sleep(1)
''','''            except Exception as error:  # pragma: no cover
                if isinstance(error, redis.exceptions.ConnectionError):
                    REDIS_DISRUPTIONS.add(1, {"docket": self.name})
                    logger.warning("Connection error, sleeping for 1 second...")
                else:
                    logger.exception("Error monitoring strikes")
                await asyncio.sleep(1)
''')),
c("send-guard",('''        if self._redis is None or not self._redis.is_connected:
            raise RuntimeError(
                "Cannot send strike instruction: not connected to Redis. "
                "Use connect() or async context manager first."
            )

        async with self._redis.client() as r:
            await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
''','''        connection = self._redis
        connected = connection is not None and connection.is_connected
        if not connected:
            raise RuntimeError(
                "Cannot send strike instruction: not connected to Redis. "
                "Use connect() or async context manager first."
            )

        message = instruction.as_message()
        async with connection.client() as r:
            await r.xadd(self.strike_key, message)  # type: ignore[arg-type]
''')),
c("strike-loop",('''        return any(condition(target) for condition in self._conditions)
''','''        for condition in self._conditions:
            if condition(target):
                return True
        return False
''')),
]
