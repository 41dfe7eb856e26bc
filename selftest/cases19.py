"""From random edits the checks missed."""
C="dependencies/_concurrency.py"; SN="_docket_snapshot.py"; F="dependencies/_functional.py"
CASES=[
("n-kwargs",C,[("elseif field_name == 'kwargs' then","elseif field_name ~= 'kwargs' then")],["C11"]),
("n-entry",C,[('runs_key, "waiter_stream", "waiter_entry_id"','runs_key, "waiter_stream", "waiter_entry_idx"')],["C18"]),
("n-entry2",C,[('runs_key, "waiter_stream", "waiter_entry_id"','runs_key, "waiter_entry_id", "waiter_stream"')],["C18"]),
("n-notparked",C,[("if not waiter_stream_b or not waiter_entry_id_b:","if waiter_stream_b and task_key.startswith('a') or not waiter_entry_id_b:")],["C18"]),
("n-scores",SN,[("self.task_workers_set(task_name), 0, -1, withscores=True","self.task_workers_set(task_name), 0, -1")],["C16"]),
("n-scores2",SN,[("self.workers_set, 0, -1, withscores=True","self.workers_set, 0, -1, withscores=False")],["C16"]),
("n-argname",F,[("if isinstance(dependency, _TaskArgument) and not dependency.parameter:","if False:")],["C22"]),
("n-nojitter","agenda.py",[("        if jitter:","        if False:")],["C36"]),
]
