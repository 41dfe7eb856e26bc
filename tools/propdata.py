from props import D, DEP, E, NOTE, P, TECH, W

S, C, I, H, CF, F = "schedules", "crash_points", "inputs", "histories", "configurations", "fault_sequences"
K = "src/docket/dependencies/_concurrency.py"

PROPS = [
    P("C01", "Adding a key that is pending or running changes nothing",
      "Adding a task under a key that is already scheduled, queued or running (including one recorded at the legacy location) leaves the existing task, its record and its "
      "data untouched, announces nothing and reports that it was already scheduled; under any other key it is accepted and reported as scheduled. The decision and its effect "
      "are atomic, so concurrent adds of one key accept exactly one. Replacing a key always takes effect.",
      [H, S, I], "every state the key can be in, every interleaving of adders, workers and cancellers, every task and time",
      "Tests sample a few key states sequentially; they cannot enumerate the interleavings of several clients or every location a key may be known at.",
      [E, D], [("scheduling script", f"{E}: _schedule"), ("public entry points", f"{D}: Docket.add, Docket.replace, Docket.schedule")]),
    P("C02", "An accepted task has exactly one complete home",
      "Every accepted add, replace or reschedule leaves the task in exactly one place, with every field of its message and the caller's values: on the stream when it is due, "
      "otherwise parked and queued under its time. Its record says so (state, time, pending marker, location, nothing left of an earlier run, no expiry), every earlier home of the key is removed, and a "
      "rescheduled delivery is acknowledged and deleted. All of it is one atomic step, announced with key, state and time.",
      [H, C, I], "every earlier state of the key, every time and argument, a crash before or after any command",
      "Tests check one or two outcomes per call; a stale home or a missing field shows only for particular earlier states or after a crash between commands.",
      [E], [("scheduling script", f"{E}: _schedule"), ("caller", f"{E}: Execution.schedule")]),
    P("C03", "A superseded execution never takes effect on its key",
      "Every accepted scheduling gives its key a strictly greater generation, stored in both record and message. An execution older than its key's record, or whose record is gone, is refused when "
      "claimed and on finishing leaves the record and its successor's progress untouched; either way its own delivery is acknowledged and deleted, and its end is still announced when it ran. "
      "Executions without a generation are never considered superseded.",
      [H, S], "every history of replacing, claiming and finishing one key on any number of workers",
      "Needs a replacement between two particular steps of another worker; tests stage only a few of these orders.",
      [E], [("claim script", f"{E}: _claim"), ("terminal script", f"{E}: _terminal"), ("supersession query", f"{E}: Execution.is_superseded")]),
    P("C04", "A due task moves to the stream whole, once, and stays cancellable",
      "When a scheduled task's time has come, one atomic step puts it on the stream with every field it was parked with, deletes the parked data and the queue entry, and marks its record queued at that "
      "stream entry while it remains pending; the change is announced, as valid JSON whatever the key. Tasks that are not due, and everything else, are untouched. "
      "Every worker looks for due tasks from before its first delivery until it stops, once per scheduling interval and whatever becomes of one attempt.",
      [S, C, I, H], "every set of scheduled tasks, any number of workers moving concurrently, a crash at any point",
      "Concurrent movers and crashes cannot be scheduled from the tests; missing optional fields go unnoticed because tests look at few of them.",
      [W], [("mover script", f"{W}: _stream_due_tasks"), ("loop", f"{W}: Worker._scheduler_loop")]),
    P("C05", "Cancelling a key removes the pending task completely and says so",
      "Cancelling a key atomically removes its task from the stream, the queue and the parked data, clears its pending markers and progress, and records it as cancelled, to expire as finished records do, unless it had already finished. "
      "The end of a pending task is announced to its subscribers, that of a finished one is not repeated, and workers are then signalled so that a running one is cancelled.",
      [H, S, I], "every state of the key, including legacy locations and tasks moved from the queue, every interleaving with workers",
      "Tests cancel from a handful of states; leftovers matter only to a later add, a mover or another worker.",
      [D], [("cancellation script", f"{D}: _cancel_task"), ("entry point", f"{D}: Docket.cancel")]),
    P("C06", "The run record tells the truth about claims and outcomes",
      "A successful claim records running with the worker and start time, drops the pending markers, starts progress afresh and leaves the delivery unacknowledged. Finishing a current execution records its "
      "terminal state, time, and any error and result location, expires the record after the configured time (or deletes it when that is zero), drops progress, and acknowledges and deletes the delivery. "
      "Each transition is one atomic step announced with key and state.",
      [H, C, CF], "every execution, outcome and retention setting, a crash at any point",
      "A crash between recording and acknowledging, or one leftover field, is invisible to tests that run to completion.",
      [E], [("claim", f"{E}: Execution.claim, _claim"), ("finish", f"{E}: Execution._mark_as_terminal, _terminal")]),
    P("C07", "A claimed run executes its function at most once and records exactly one outcome",
      "The task's function is called at most once per delivery, after a successful claim and only when every dependency resolved, with the execution's own arguments and its resolved dependencies. "
      "A run that returns is marked completed once, one that raises (or whose dependencies fail) consults its failure handler, then its completion handler, and is marked failed once unless the failure handler took over; a cancelled one is marked "
      "cancelled once. A run blocked by an admission gate records nothing and passes the block on; no other failure leaves the worker's execution of a delivery.",
      [I, F, CF], "every way the claim, the dependencies, the handlers and the function can end, in every combination of handlers",
      "Tests pair a few handlers with a few endings; two outcomes or none show only for particular combinations of a failure and its handlers.",
      [W], [("running a delivery", f"{W}: Worker._execute")]),
    P("C08", "A stricken task is neither scheduled nor run",
      "Every add, replace and schedule asks whether its execution is stricken before it writes anything, and if it is writes nothing and reports it as struck. A worker does not claim a delivery or call its function "
      "unless it has just found it not stricken, redelivered ones included; a stricken delivery is recorded as cancelled and its key freed. A task that is not stricken is scheduled, claimed and run.",
      [S, H], "any task, any instructions in effect at any of the two moments",
      "Strikes arrive between scheduling and running; tests strike before they schedule.",
      [D, W], [("scheduling", f"{D}: Docket.add, replace, schedule"), ("running", f"{W}: Worker._execute, _delete_known_task")]),
    P("C09", "A strike applies exactly to the executions its instruction describes",
      "An argument, given by position, by name, through a catch-all or by default, matches a strike of its parameter for its task or for any task exactly when it stands in the strike's relation to its value; a strike of a whole task matches all its executions. "
      "Several strikes combine as any-of, a restoration withdraws exactly the strike it names and no other, and an instruction read back from its message is the same instruction. Values that cannot be compared or hashed, and calls that cannot be bound, "
      "match no strike of a parameter and raise nothing.",
      [I, H], "any argument and strike values, every operator, sequences of up to four instructions",
      "The relations hold over all values and instruction histories, including values that cannot be compared; tests sample a handful.",
      ["src/docket/strikelist.py"], [("matching", "src/docket/strikelist.py: StrikeList.is_stricken, _is_match"), ("instructions", "src/docket/strikelist.py: StrikeList.update, StrikeInstruction")]),
    P("C10", "Every strike reaches every process",
      "Striking or restoring appends the instruction to the docket's strike stream before applying it locally, and is refused without effect when there is no connection. Every process reads that stream from its beginning, applies each message in order, "
      "continues after the last one read, and goes on after lost connections and other errors. Strikes count as loaded once, and not before, a read that does not wait has found nothing more, and automatic tasks are scheduled only after that.",
      [H, F, S], "any history of instructions, any failing read",
      "A process that misses part of the stream behaves correctly until a strike in that part matters; tests use short streams and no failures.",
      ["src/docket/strikelist.py", D], [("monitor", "src/docket/strikelist.py: StrikeList._monitor_strikes, _read_strikes"), ("sending", "src/docket/strikelist.py: StrikeList.send_instruction")]),
    P("C12", "A worker never has more unfinished runs than its concurrency",
      "Whenever the worker reads deliveries from the stream, new or reclaimed, it asks for at most its concurrency less the runs it has started that have not finished, and it does not read when that is not positive. "
      "Every message read is started as a run of its own, which the worker tracks until it has finished.",
      [S, CF, H], "every order in which deliveries arrive and runs finish, every concurrency",
      "Exceeding the limit needs a particular mix of reclaimed and new deliveries and of finishing runs within one round of polling; tests poll a few simple mixes.",
      [W], [("polling", f"{W}: Worker._worker_loop")]),
    P("C13", "Abandoned deliveries are reclaimed, and running ones are not",
      "In every round of polling a worker first claims deliveries idle for at least the redelivery timeout, starting from the oldest, and treats them as redelivered, which new ones are not. While it runs it keeps renewing "
      "the lease of every unfinished delivery it started, more often than the redelivery timeout, and goes on after a failed renewal. A missing consumer group is recreated and the read repeated.",
      [C, S, F], "a crash of any worker at any point, any duration of a run, any failing renewal",
      "A crashed worker's delivery or a long run stolen from a live one shows only across timeouts and failures that tests shorten or skip.",
      [W], [("reclaiming", f"{W}: Worker._worker_loop"), ("leases", f"{W}: Worker._renew_leases")]),
    P("C14", "A stopping worker finishes its runs and leaves no trace of itself",
      "However the worker's loop ends (out of work, told to stop, cancelled, or its connection lost while polling), runs in flight are awaited, not cancelled, and their ends processed before it returns. "
      "Its background loops are told to stop, its heartbeat is cancelled and its registration removed. A cancelled loop returns quietly, a lost connection is reported to its caller, and a worker told to stop reads nothing more.",
      [F, S, H], "every way of ending the loop with any number of runs in flight",
      "Each way out has to be met with runs in flight; tests stage one or two of them.",
      [W], [("loop", f"{W}: Worker._worker_loop")]),
    P("C15", "A worker survives losing its connection",
      "When its loop loses the connection, a worker that has not been told to stop waits for its reconnection delay and runs its loop again on a new connection, any number of times. A worker told to stop does not reconnect, and other errors are not swallowed. "
      "It counts as running until it has ended, however it ends.",
      [F, H], "any sequence of lost connections, other errors and requests to stop",
      "Tests break a connection once; repeated and differently ordered failures are not staged.",
      [W], [("reconnection", f"{W}: Worker._run")]),
    P("C22", "A run's dependencies are each resolved once, and released",
      "For each run, every dependency of the worker, every dependency among the task's parameters whose value the caller has not given, and every annotated one, bound to its parameter's name and to the argument's value however it was given, is entered once, in a scope of that run. "
      "What the caller gives is used as it is; one that fails is reported under its parameter and keeps no other from being entered, and conflicts between worker and task are reported likewise. "
      "Whatever ends the run, and even when entering is cancelled, all that was entered is left in reverse order and the end is passed on.",
      [I, F, H], "any dependencies of worker and task, any arguments by position or name, any failing dependency, any end of the run",
      "Combinations of failing, given and annotated dependencies, and cancellation while entering, are too many to stage.",
      [DEP + "_resolution.py", DEP + "_functional.py"], [("resolution", DEP + "_resolution.py: resolved_dependencies"), ("nested", DEP + "_functional.py: _Depends._resolve_parameters")]),
    P("C23", "Each run sees its own docket, worker and execution",
      "While its dependencies are entered and left and its function runs, a run's context names its own docket, worker and execution, and what its dependencies cache or enter belongs to that run only; CurrentDocket, CurrentWorker, CurrentExecution, TaskKey, TaskArgument and TaskLogger give exactly these. "
      "However the run ends, every context variable is what it was before. A worker is the current worker from when it is entered until it is left.",
      [S, F, H], "any number of concurrent and consecutive runs, any end of each",
      "A context left behind shows only in whatever runs next in the same context.",
      [DEP + "_resolution.py", DEP + "_contextual.py", W], [("scope", DEP + "_resolution.py: resolved_dependencies"), ("contextual", DEP + "_contextual.py"), ("worker", f"{W}: Worker.__aenter__")]),
    P("C24", "Every finished run leaves its delivery settled",
      "When a run ends blocked, its delivery is left alone if the gate already handled it, ended as cancelled if it is to be dropped or is superseded, and otherwise atomically rescheduled under its own key, "
      "replacing that delivery, at the current time plus the gate's delay or a positive default. A run whose cancellation escaped is ended as cancelled and the worker goes on. A finished run whose delivery nobody "
      "acknowledged is ended as failed, an acknowledged one is not ended again, and the run is unregistered from its key without unregistering a successor.",
      [H, F, S], "every way a run can end, with or without its delivery acknowledged, and any successor of its key",
      "A delivery left pending is redelivered only after a timeout that tests do not wait for; a successor running under the same key needs a particular interleaving.",
      [W], [("end of runs", f"{W}: Worker._worker_loop (process_completed_tasks)")]),
    P("C25", "A subscriber misses no change and reads the record as stored",
      "A subscription to a task stands on its state and progress channels before its record is read; it then yields that state and that progress, each value under its own name, and passes on every later message exactly once, decoded and in order, and nothing else. "
      "Readiness is signalled once the subscription stands. Reading a record takes each attribute from the field it is stored in, and a missing field or record as None, never as what was known before.",
      [C, H, F], "every interleaving of a subscriber with the task's transitions and every content of its record",
      "A transition lost between reading and subscribing needs an interleaving a few milliseconds wide, and then the subscriber waits forever.",
      [E, "src/docket/_execution_progress.py"], [("subscribe", f"{E}: Execution.subscribe"), ("sync", f"{E}: Execution.sync")]),
    P("C26", "A finished task's outcome reaches whoever asks for its result",
      "Unless records are not kept, a run's return value (if not None) or its exception is stored, under the key its record names and for as long as the record, before the run is marked; get_result decodes it by exactly the inverse encoding. "
      "get_result waits, for exactly the time left, only for a task not known to have ended, until an event says it has, and reads the record again; a cancelled task raises ExecutionCancelled, a failed one the stored exception or else the recorded error, a completed one "
      "returns the stored value or None. Running out of time raises TimeoutError, and two limits raise ValueError at once.",
      [S, I, F], "every value returned, exception raised, time limit and order of events",
      "Tests wait for a few values and limits; an outcome lost, swapped or waited for too long depends on what ends when.",
      [E, W, "src/docket/_result_store.py"], [("get_result", f"{E}: Execution.get_result"), ("storing", f"{W}: Worker._execute")]),
    P("C27", "Progress is each run's own, counted atomically and announced as stored",
      "Every run gets a Progress of its own, bound to its own task. A total or increment below one raises ValueError and changes nothing; otherwise an operation atomically stores its value (an increment adds in one Redis command, a None message removes the last) and "
      "the time of the update in its task's progress alone, leaves them on the object, and then publishes on that task's channel one event with the key, the new value, the other values as last reported and the stored time. "
      "Synchronising reads each value back from the field it was stored in, and a missing message or time as None.",
      [S, C, I], "every amount, total and message, any sequence of operations and any number of concurrent runs",
      "Progress shared between runs and lost increments show only when runs overlap; tests run one task at a time.",
      ["src/docket/_execution_progress.py", DEP + "_progress.py"], [("operations", "src/docket/_execution_progress.py: ExecutionProgress"), ("dependency", DEP + "_progress.py: Progress")]),
    P("C17", "A concurrency limit admits at most its number and parks the rest whole",
      "In one atomic step an execution takes a slot only if fewer than max_concurrent are taken, in exchange for exactly one slot not renewed for a redelivery timeout, or, redelivered, by taking over its own slot of that age; "
      "otherwise its delivery is exchanged for an entry with its whole message under a new generation on the limit's waiters, it counts as scheduled and pending, and a safeguard for those waiters is scheduled one redelivery timeout ahead. "
      "An acquired slot is renewed well within that timeout until the run ends, and then released; slots are shared per docket, scope and task or argument value, and the limit in a task's signature is not changed by its executions.",
      [C, F, S], "any number of executions competing for a limit, any redelivery and any crash of a holder",
      "Which executions meet full, stale or their own slots depends on timing and crashes across workers; tests stage a handful.",
      [K], [("gate", f"{K}: ConcurrencyLimit.__aenter__"), ("acquire or park", f"{K}: _acquire_or_park"), ("lease", f"{K}: ConcurrencyLimit._renew_lease_loop")]),
    P("C18", "Freed concurrency slots wake parked executions once, unless superseded",
      "Releasing a slot gives up that run's slot only (and others' only if not renewed for a redelivery timeout), and release and safeguard alike wake the oldest waiters, no more than the limit leaves free after evicting stale slots, in one atomic step. "
      "A waiter still scheduled under its entry's generation returns to the stream whole, under a new generation, as queued and no longer a waiter; any other is dropped without touching its record; either way its entry and its safeguard go. "
      "Cancelling a parked execution removes its entry, its progress and its safeguard and nothing else; every worker registers the safeguard task and listens for cancellations while it lives.",
      [C, F, S], "any mix of waiters, cancelled, replaced or superseded, and any number of free or stale slots",
      "A waiter lost or revived shows only when release, cancellation and replacement interleave.",
      [K], [("release", f"{K}: _release_and_wake"), ("safeguard", f"{K}: _scavenge_and_wake"), ("cancelled waiters", f"{K}: ConcurrencyLimit._cleanup_cancelled_waiter")]),
    P("C19", "A rate limit admits at most its limit per sliding window",
      "An execution is admitted only if, in one atomic step, fewer than the limit's admissions within the last window are recorded and its own is recorded; admissions are counted per docket or scope and per task or argument value. "
      "One over the limit is dropped if so asked, and otherwise blocked for a positive delay until the oldest admission leaves the window, and counts for nothing. "
      "An execution that another gate then blocks takes back its own record and no other; every other ending of its run keeps it, and the limit in a task's signature is not changed by executions.",
      [C, I, S], "any limit, window, scope and argument, any number of executions competing at any times, any other gates",
      "Counts at the window's edge and runs blocked by a second gate need exact timing and combinations that tests sample once.",
      [DEP + "_ratelimit.py"], [("gate", DEP + "_ratelimit.py: RateLimit.__aenter__"), ("script", DEP + "_ratelimit.py: _ratelimit")]),
    P("C41", "A cooldown admits one start per window",
      "An execution is admitted only by creating the window's marker where there was none, set to expire exactly when the window ends; markers are kept per docket or scope and per task or argument value. One within the window is dropped and leaves the window as it was. "
      "An execution that another gate then blocks gives its window back, and no one else's; every other ending of its run keeps the window.",
      [C, I, S], "any window, scope and argument, any number of executions competing at any times, any other gates",
      "A window given back or extended by the wrong execution shows only for particular combinations of gates and times.",
      [DEP + "_cooldown.py"], [("gate", DEP + "_cooldown.py: Cooldown")]),
    P("C42", "A debounce runs one execution once submissions have settled",
      "The first execution becomes the winner and waits for the settle time; any other is dropped and restarts it. The winner, when it returns, runs only if the settle time has passed since the last submission, which its own return is not, and then leaves no trace; "
      "until then it waits exactly the remainder and keeps its place, and the records of winner and last submission outlive the settle time. Each decision is one atomic step, kept per docket or scope and per task or argument value.",
      [C, I, S], "any settle time, scope and argument, any number and timing of submissions",
      "Two winners, or none, come from particular interleavings of submissions and returns.",
      [DEP + "_debounce.py"], [("gate", DEP + "_debounce.py: Debounce.__aenter__"), ("script", DEP + "_debounce.py: _debounce")]),
    P("C20", "A failed run is retried until its attempts are used up",
      "A run that fails with a Retry and has attempts left is, unless its key has been given a newer schedule, rescheduled in one atomic step: same key, function and arguments, the next attempt, its delay from now, the failed delivery acknowledged and deleted. "
      "It is reported as handled exactly then. A linear retry waits its delay; an exponential one doubles its minimum with every attempt, never exceeding its maximum however many there were; after(), in_() and at() set this retry's delay, a past time meaning at once; "
      "each run has its own Retry and never changes the one in the signature.",
      [H, I, S], "any number of attempts and any delays, any forced delay, any replacement while the run fails",
      "Late attempts, replacements while a run fails and values left in a shared default are beyond what a test waits for.",
      [DEP + "_retry.py"], [("retry", DEP + "_retry.py: Retry.handle_failure"), ("backoff", DEP + "_retry.py: ExponentialRetry")]),
    P("C21", "A perpetual task schedules its next run however it ends",
      "When a run of a Perpetual or Cron task ends, successfully or not, and has not been superseded, its key is scheduled once more as a first attempt under the same function name, with the arguments given to perpetuate or else this run's, and the end is reported as handled. "
      "The next run is at the time asked for with after() or at(), at a cron's next time counted from now in its time zone, or the interval after the start of this run, never before now. "
      "A cancelled one schedules nothing and withdraws what is pending under its key; each run has its own Perpetual.",
      [H, I, S], "any number of runs, however long and however ended, any interval, expression and time zone",
      "Drift, state shared between runs and a replacement while a run ends appear only over many runs.",
      [DEP + "_perpetual.py", DEP + "_cron.py"], [("perpetual", DEP + "_perpetual.py: Perpetual"), ("cron", DEP + "_cron.py: Cron")]),
    P("C37", "A task is timed out at its deadline and not before",
      "A run with a Timeout starts its function once, and ends with the function's own result or failure (a TimeoutError of its own included) unless the deadline, which is the base time after the start and later by every extension, passes while it is still running. "
      "Only then is it cancelled and ends with a TimeoutError. Whatever ends the run, a function still running is cancelled and waited for before the run ends; each run has its own Timeout.",
      [S, I, F], "any duration, any extensions at any time, any failure and any cancellation from outside",
      "A task that finishes at its deadline, extends it just before or fails with a TimeoutError itself depends on exact timing.",
      [DEP + "_timeout.py"], [("runtime", DEP + "_timeout.py: Timeout.run")]),
    P("C40", "Automatic perpetual tasks are kept scheduled by every worker",
      "A worker that schedules automatic tasks adds each registered function with an automatic Perpetual, under its name, without arguments and at its first time, unless it is already pending or running; nothing is seeded before the strikes are known. "
      "It does so before it takes its first task, and again and again until it stops, whatever becomes of one attempt; another worker doing it at the same time is no failure. One told not to never seeds.",
      [S, F, C], "any registered functions, any number of workers starting together, any failing attempts",
      "Competing workers, lost locks and failing attempts need failures and orders that tests do not stage.",
      [W], [("seeding", f"{W}: Worker._schedule_all_automatic_perpetual_tasks"), ("loop", f"{W}: Worker._worker_loop")]),
    P("C11", "A task is read back as it was written",
      "The execution a worker reads from a message has the key, time, function name, arguments, attempt and generation the message was written with, and its trace context; the function is the one registered under that name, which may be an alias. An unknown name runs the worker's "
      "fallback under its own name, or is refused with ValueError; a message of an earlier version without a generation is read as untracked; each delivery is read from the message and identifier of its own entry, a reclaimed one as redelivered. "
      "get_execution finds every recorded task, registered or not, with the name, arguments and time it was recorded with and its state as recorded, and no other.",
      [I, CF], "every key, time, argument, attempt and function name or alias; registered and unregistered functions; messages of earlier versions",
      "Tests round-trip a few values; a field that loses precision, its time zone or an alias shows only for particular ones.",
      [E, D, W], [("message", f"{E}: Execution.as_message, Execution.from_message"), ("record", f"{D}: Docket.get_execution"), ("trace", "src/docket/instrumentation.py: MessageGetter, MessageSetter")]),
    P("C16", "The registry shows the workers that are alive",
      "Every worker registers itself from before its first delivery and once per heartbeat interval, in one atomic step, as seen now, as a worker of the docket and of each task it has registered, whatever becomes of one heartbeat; a worker that stops withdraws exactly what it registered. "
      "workers() and task_workers() list each registered worker once, with the time it was last seen and its tasks, and never one that has been silent for longer than the heartbeats it may miss; nothing else drops a worker.",
      [S, C, F], "any number of workers and tasks, any failing command in any heartbeat, any tasks registered later",
      "A worker dropped too early or kept after it died shows only after failed or missed heartbeats.",
      [W, "src/docket/_docket_snapshot.py"], [("heartbeat", f"{W}: Worker._heartbeat"), ("withdrawal", f"{W}: Worker._remove_heartbeat"), ("readers", "src/docket/_docket_snapshot.py: DocketSnapshotMixin.workers, task_workers")]),
    P("C33", "A snapshot shows every task once, as what it is",
      "A snapshot counts the messages of the stream and of the schedule and lists each message of the stream (of the first thousand) once: as running, with the worker it was delivered to and the time of that delivery, if it is delivered and unacknowledged, as future otherwise; and each scheduled task once as future. "
      "The lengths, deliveries, messages and schedule shown are those of one moment; a task that leaves the schedule meanwhile is not listed from it. "
      "A running task shows everything its message says; taking a snapshot writes nothing, except that a docket without a consumer group gets one.",
      [S, F], "any tasks waiting, scheduled and running, moving while the snapshot is taken",
      "A task listed twice, not at all or under the wrong worker depends on what moves between two reads.",
      ["src/docket/_docket_snapshot.py"], [("snapshot", "src/docket/_docket_snapshot.py: DocketSnapshotMixin.snapshot"), ("running", "src/docket/_docket_snapshot.py: RunningExecution")]),
    P("C36", "A scattered agenda schedules every entry, evenly, or nothing",
      "Scattering refuses a period that is not positive, an unknown name or an invalid function before it schedules anything. "
      "Otherwise each entry is scheduled once, in order, under the function or name it was added with, with its own arguments and its own key or else a fresh one: n entries from the start to the end of the period at equal distances, a single one in its middle, each moved by jitter at most as far as asked and never before the start. "
      "The agenda stays as it was; a failure to schedule is reported at once and leaves the entries before it scheduled.",
      [S, I], "any entries, period, start and jitter, any failure while scheduling",
      "Uneven times, lost aliases and half scheduled agendas need particular sizes, names and failures.",
      ["src/docket/agenda.py"], [("scatter", "src/docket/agenda.py: Agenda.scatter")]),
    P("C39", "Clearing removes every waiting task and nothing else",
      "Clearing removes, in one atomic step, every scheduled task with its parked message and every message of the stream whose task is not running; their keys can be scheduled again and their records expire as those of finished tasks do. "
      "Running tasks keep message and record; strikes, workers and the consumer group are untouched. It returns the number of tasks cleared.",
      [S, C], "any number of tasks waiting, scheduled and running",
      "A key left blocked or a running task's message lost shows only later, at the next add or redelivery.",
      [D], [("clear", f"{D}: Docket.clear")]),
    P("C28", "A cancellation reaches the running task it names, and no other",
      "Cancelling a key publishes the key on the key's own channel once its record has been dealt with; every worker listens to exactly the cancellation channels of its own docket, whatever characters the docket's name contains, "
      "from before its first delivery until it stops, subscribing again after any error. Every run is registered under its key the moment it starts until it has finished. "
      "A cancellation received cancels exactly the run registered under the key it names, if there is one.",
      [S, I], "every docket name and key, any number of running tasks, any error at any point of the listener",
      "A lost or misdirected cancellation needs a particular name, or a cancellation or connection error at a particular moment; tests cancel one task under one plain name.",
      [D, W], [("signal", f"{D}: Docket.cancel"), ("listener", f"{W}: Worker._cancellation_listener, Worker._handle_cancellation"), ("registration", f"{W}: Worker._worker_loop")]),
    P("C30", "What is asked for is what is scheduled",
      "Adding or replacing a task given as a function schedules that function, under its own name; given by name it schedules the function registered under that name, under that name; with exactly the arguments given, the time given "
      "or now, the key given or a fresh unique one, as a first attempt, and hands back the execution that was scheduled. A function passed to add or replace is registered under its name before it is scheduled, so that a worker of the "
      "same docket can run it. Registering replaces exactly the names registered, after the function's dependencies were validated, and registering a collection registers every function in it.",
      [S, I], "every function, name, argument list, time and key, registered before or not",
      "Which of many argument combinations is mishandled shows only for that combination; tests schedule a few.",
      [D], [("adding", f"{D}: Docket.add, Docket.replace"), ("registration", f"{D}: Docket.register, Docket.register_collection")]),
    P("C31", "A worker runs as long as it was asked to",
      "A worker running until finished ends by itself only once nothing it started is unfinished and one atomic look, taken after that, found no message in the stream and nothing scheduled; a worker running for ever ends only when "
      "told to stop, cancelled or disconnected. While run_at_most runs, and only then, executions of each limited key are struck exactly once as many as allowed have run, each claimed run being counted once before its function is called. "
      "Leaving a worker's context tells it to stop and waits for its runs before anything they need is taken down.",
      [S, I], "every number of runs, order of their ends, contents of stream and queue, limit, and point at which it is stopped or fails",
      "A task missed by an early end, or run once too often, needs another client or a finishing run to act between two looks; tests add everything beforehand.",
      [W], [("loop", f"{W}: Worker._worker_loop"), ("modes", f"{W}: Worker.run_forever, Worker.run_until_finished, Worker.run_at_most"), ("counting", f"{W}: Worker._execute"), ("leaving", f"{W}: Worker.__aexit__")]),
    P("C29", "A script receives what its caller passed",
      "Each call of a Lua script reads every declared parameter, under its own name, from the slot its value was put in, and as the value that was passed: text as text, bytes as bytes, numbers as the same numbers, truth as truth; variable arguments follow all others, "
      "each field before its value, and the script is told where they start. The text loaded is the declared body behind those bindings and nothing else, the digest it is called by is that of the text loaded. Each call runs once, on the client "
      "it is given, and returns the reply; a value of a type that cannot be passed is refused.",
      [I], "every declared script and parameter, every value, any number of variable arguments",
      "Two swapped slots of equal type, or a value lost in its text form, show only for particular scripts and values.",
      ["src/docket/_lua.py", E, W], [("calls", "src/docket/_lua.py: redis_script"), ("scripts", f"{E}: _schedule, _claim, _cancel, _terminal; {W}: _stream_due_tasks")]),
    P("C34", "A docket touches only its own keys, and each operation one cluster slot",
      "Every key and channel a docket, its workers, dependencies, strikes and snapshots read, write, lock, publish to or subscribe to begins with the docket's own prefix and a colon, or with the custom scope a limit was given, so two dockets with different names never "
      "meet. In a cluster the prefix is the docket's name in braces, so that all keys of one script or transaction share a slot; keys of a custom scope used together share a hash tag or the prefix. Elsewhere the prefix is the name.",
      [I], "every docket name, scope, task and worker name, on a single server and in a cluster",
      "Tests use one docket at a time, mostly on a single server, where a key outside the prefix or outside the slot changes nothing.",
      [D, W, E, "src/docket/_redis.py", "src/docket/strikelist.py"], [("prefix", "src/docket/_redis.py: RedisConnection.prefix"), ("keys", f"{D}: Docket.key, Docket.prefix"), ("scopes", "src/docket/dependencies/_concurrency.py, _ratelimit.py, _debounce.py, _cooldown.py")]),
    P("C35", "A docket opens whole or not at all, and closes whole",
      "Entering a docket connects it, follows its strikes and prepares its result storage, the one given if there is one. If any step fails or is cancelled, everything opened before it is closed, the failure is raised, and the docket can be entered again. "
      "Leaving a docket, worker, strike list, connection or result storage undoes what entering did, each thing once and the last first, whatever fails meanwhile: contexts, tasks, pools, clients and context variables.",
      [S, F], "a failure or cancellation at every step of entering and leaving, on a single server, in a cluster and in memory, with and without a result storage of one's own",
      "Tests enter and leave without failures; a leaked task or connection raises no error.",
      [D, W, "src/docket/_redis.py", "src/docket/_result_store.py", "src/docket/strikelist.py"], [("docket", f"{D}: Docket.__aenter__, Docket.__aexit__"), ("connection", "src/docket/_redis.py: RedisConnection.__aenter__"), ("strikes", "src/docket/strikelist.py: StrikeList.__aenter__"), ("results", "src/docket/_result_store.py: ResultStorage.__aenter__"), ("worker", f"{W}: Worker.__aenter__")]),
    P("C32", "At most one dependency of a single kind governs a run",
      "Of each kind of dependency that may be there only once (runtimes such as Timeout, failure handlers such as Retry, completion handlers such as Perpetual, concurrency limits, debounces), a run has at most one in scope, the task's and the worker's taken together, and that one governs it. "
      "If there are more, by exact type or by a common kind, as arguments or as annotations, then that very run is given a failed dependency whose error names both places; without a conflict nothing is reported, and what another run of the task found has no bearing. "
      "A worker takes the dependencies it is given under their names and refuses reserved names and whatever is no dependency; a task in conflict with itself is refused when it is registered.",
      [S], "every pair of the package's kinds of dependency, with and without a third between them, in each arrangement of arguments and annotations, and any two runs in a row",
      "Tests stage a few pairs, each task run once on a new worker; a conflict missed or invented for another pair or for a later run shows nowhere.",
      [DEP + "_resolution.py", W, D], [("conflicts", DEP + "_resolution.py: detect_single_conflicts"), ("worker", f"{W}: Worker.validate_task_dependencies, Worker.__init__"), ("register", f"{D}: Docket.register")]),
    P("C38", "What the command line asks for is what is done",
      "The worker command, and Worker.run, work on the docket named, at the URL given, with every setting given for the worker (name, concurrency, redelivery, reconnection, polling and scheduling intervals, automatic tasks, instrumentation, ports, fallback task), with every task collection named registered before it starts; "
      "the worker runs until finished when asked to and for ever otherwise, a termination signal stops it quietly, and any other failure is passed on. "
      "strike, restore, clear, snapshot, watch and the task and worker commands act on the docket named at the URL given, once, with the task, parameter, operator, value, message and delay given, so that restore undoes what the same strike did.",
      [I], "every option and argument of every command, each unknown, and every way the run may end",
      "A setting that is dropped, left to its default or handed over as another of the same type shows only for values and combinations no test passes.",
      ["src/docket/cli/__init__.py", "src/docket/cli/_support.py", W], [("run", f"{W}: Worker.run, Worker.__init__"), ("commands", "src/docket/cli/__init__.py: worker, strike, restore, clear, trace, fail, sleep, snapshot, watch, list_workers, workers_for_task")]),
    P("C43", "The metrics count what happened",
      "A run that is claimed is counted as started and as running, and once it has ended, however it ended, as completed and no longer as running, with its duration; as succeeded exactly if its function returned, as failed exactly if it is treated as failed, as redelivered exactly if it was. "
      "A delivery that is stricken or superseded is counted as that and nothing else; scheduling, replacing, retrying, perpetuating and cancelling are counted exactly when they happen. "
      "A heartbeat reports as queue depth the messages in the stream and the tasks that are due, and as schedule depth those that are not; what is counted for a task names the docket or worker and the task.",
      [S, F], "every path of a delivery's execution, with a failure or cancellation at each step, and every path of scheduling, retrying, perpetuating and the heartbeat",
      "A gauge that drifts by one for one way of ending, or a counter on the wrong side of a failure, shows only over time and on that path.",
      [W, D, DEP + "_retry.py", DEP + "_perpetual.py", "src/docket/instrumentation.py"], [("runs", f"{W}: Worker._execute"), ("scheduling", f"{D}: Docket.add, Docket.replace, Docket.cancel"), ("handlers", DEP + "_retry.py: Retry.handle_failure; " + DEP + "_perpetual.py: Perpetual.on_complete"), ("depths", f"{W}: Worker._heartbeat")]),
]

NOT_APPLICABLE = []
