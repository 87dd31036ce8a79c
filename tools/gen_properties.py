"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})
L = "launch/launch/"

p("C01", "Every emitted event reaches every matching handler once, in emission order",
  "Every event emitted before or during a launch run is processed exactly once, strictly in emission order and one event at a time: events emitted while an event is being processed are processed only after it is finished. While an event is processed, every event handler registered at the moment its processing began whose matcher accepts it is invoked exactly once and no other handler is, most recently registered first (a handler registered with append runs after those registered before it).",
  ["programs", "histories"], "all launch descriptions that emit events, register handlers (prepended or appended) and react with further events, and all emissions queued before the run",
  "Tests fire one or two events at one or two handlers; order across many handlers, re-entrant emissions and pre-run queues are never sampled together.",
  [L+"launch_service.py", L+"launch_context.py", L+"event_handler.py", L+"actions/emit_event.py"],
  [("asyncio FIFO event queue, snapshot of the handler deque per event", L+"launch_service.py:__process_event"), ("register_event_handler appendleft/append", L+"launch_context.py")],
  ["handler invocation (entities returned by a handler and executed)"],
  [("event queue", "events emitted and not yet processed", L+"launch_context.py"), ("handlers", "ordered list of registered handlers", L+"launch_context.py")])

p("C02", "Handler registration changes affect later events only; handle-once acts once",
  "Registering or unregistering an event handler while an event is being processed never changes which handlers receive that event; it takes effect for every event processed afterwards. A handler marked handle-once acts on the first matching event and on no later one, even when further matching events were already queued; unregistering a handler that is not registered is an error that ends the run with a non-zero result.",
  ["programs", "histories"], "all programs mixing register, unregister, handle-once and queued events",
  "Existing tests check single register and single unregister calls on a context, not registrations made during a dispatch with events queued behind it.",
  [L+"launch_service.py", L+"launch_context.py", L+"event_handler.py", L+"actions/register_event_handler.py", L+"actions/unregister_event_handler.py"],
  [("dispatch over tuple(handlers); handle_once unregisters in handle()", L+"event_handler.py")])

p("C03", "Entities are visited depth-first in order, each exactly once per occurrence",
  "When a launch description, group, include, event handler or opaque function yields entities, each of them is executed exactly once per time it is yielded, in the order given, and everything an entity yields (recursively) is executed before its next sibling. An entity that raises stops the rest of that event's processing, and the run then shuts down with a non-zero result.",
  ["programs"], "all finite trees of groups, includes, nested descriptions, opaque functions, conditions and event-handler bodies",
  "Tests visit flat or one-level lists; arbitrary nesting across kinds of containers is not reached.",
  [L+"utilities/visit_all_entities_and_collect_futures_impl.py", L+"launch_description.py", L+"actions/group_action.py", L+"actions/include_launch_description.py", L+"actions/opaque_function.py", L+"launch_service.py"],
  [("recursive visit", L+"utilities/visit_all_entities_and_collect_futures_impl.py")])

p("C04", "Launch configurations follow their scoping rules exactly",
  "Setting, unsetting and resetting launch configurations affects exactly the entities visited afterwards, with names and values evaluated at the moment the action executes. After a scoped group (the default) the configurations are exactly what they were before it; a non-forwarding group starts from only its own listed configurations, evaluated in the enclosing scope; an unscoped group, an include and an event handler's actions leave their changes behind.",
  ["programs"], "all nestings of groups (scoped/unscoped, forwarding or not, with configurations), set/unset/reset/push/pop, conditions and includes",
  "Tests use one or two levels with fixed values; interactions of nesting, forwarding, shadowing and late evaluation are not sampled.",
  [L+"launch_context.py", L+"actions/group_action.py", L+"actions/set_launch_configuration.py", L+"actions/unset_launch_configuration.py", L+"actions/reset_launch_configurations.py", L+"actions/push_launch_configurations.py", L+"actions/pop_launch_configurations.py", L+"substitutions/launch_configuration.py"],
  [("stack of configuration dictionaries", L+"launch_context.py")])

p("C05", "Environment changes follow their scoping rules exactly",
  "Setting, unsetting, appending or prepending to (with the given separator; plain set when absent) and resetting environment variables affects exactly the entities visited afterwards, with names and values evaluated when the action executes. After a scoped group the whole environment is exactly what it was before it; a reset, or a non-forwarding group, restores the environment captured when the launch service was created; every variable not mentioned keeps its value.",
  ["programs"], "all nestings of groups and environment actions with values drawn from configurations and the environment itself",
  "Tests touch one variable in one or two nested scopes.",
  [L+"launch_context.py", L+"actions/set_environment_variable.py", L+"actions/unset_environment_variable.py", L+"actions/append_environment_variable.py", L+"actions/reset_environment.py", L+"actions/push_environment.py", L+"actions/pop_environment.py", L+"actions/group_action.py", L+"substitutions/environment_variable.py"],
  [("stack of os.environ snapshots", L+"launch_context.py")])

p("C06", "Event locals are visible to exactly the actions the event triggers",
  "Actions executed because of an event, at any nesting depth, see that event (and locals added during its handling by the same handler) as context locals, and nothing of it is visible to other handlers of the same event, to later events, or after the handling failed with an exception. Actions run by a timer see the locals that were visible when the timer was started; the launch file path and directory seen by an included file's entities are that file's own, and those of the including file are back afterwards.",
  ["programs", "histories"], "all handler/timer/include nestings, including handlers that raise",
  "Tests check a single handler's access to its event; leakage across handlers, events, failures and includes is not tested.",
  [L+"launch_context.py", L+"launch_service.py", L+"event_handler.py", L+"actions/timer_action.py", L+"actions/include_launch_description.py", L+"substitutions/local_substitution.py", L+"substitutions/this_launch_file_dir.py"],
  [("locals stack pushed and popped around each handler", L+"launch_service.py:__process_event")])

p("C07", "A conditioned action runs exactly when its condition holds at that moment",
  "An action with an If (Unless) condition executes exactly when the expression, evaluated at the moment the action is visited, is true (false), where after trimming whitespace and ignoring case only true/1 and false/0 are accepted and anything else is an error. The launch-configuration equality and inequality conditions compare the current value as text, treat an unset configuration as equal only to no expected value, and a skipped action has no effect at all, including on the actions it contains and on completion events.",
  ["inputs", "programs"], "all condition kinds, expressions, configuration histories and conditioned containers",
  "Tests evaluate a fixed list of literals outside a run.",
  [L+"conditions/", L+"condition.py", L+"action.py"],
  [("condition evaluated in Action.visit", L+"action.py"), ("evaluate_condition_expression", L+"conditions/evaluate_condition_expression_impl.py")])

p("C08", "Declared launch arguments take the given value, else the default, or fail",
  "Executing an argument declaration leaves an already set configuration of that name unchanged, otherwise sets it to its default evaluated at that moment, and otherwise fails; a resulting value outside the declared choices fails the run. Including a description sets its launch arguments in order before any of its entities run, and fails before running any of them if an argument it unconditionally declares without default at its top level is not among those given.",
  ["programs", "inputs"], "all declaration/include programs with defaults, choices, conditions, shadowing and missing arguments; introspection of declared arguments on all description trees",
  "Tests cover isolated declarations with literals; combinations with scoping, includes, conditions and repeated declarations are not covered.",
  [L+"actions/declare_launch_argument.py", L+"actions/include_launch_description.py", L+"launch_description.py"],
  [("execute of DeclareLaunchArgument; required-argument check in IncludeLaunchDescription.execute", L+"actions/")])

p("C09", "Shutdown happens once, is final, and no process starts after it",
  "In one run the shutdown event is emitted by the service at most once however many times shutdown is requested (shutdown call, idle, an error, repeated interrupt signals), and its reason and signal flag are those of the first request. Once the shutdown event is handled, no process action executed after it starts a process and none is respawned, pending timers that cancel on shutdown never fire and running coroutine actions are cancelled, and the run ends with every started process gone.",
  ["schedules", "histories", "fault_sequences"], "all orders and timings of shutdown requests relative to process starts, exits, timers, errors and respawns",
  "Tests request shutdown once at a quiet moment.",
  [L+"launch_service.py", L+"actions/execute_local.py", L+"actions/timer_action.py", L+"actions/opaque_coroutine.py"],
  [("shutting-down flag; ExecuteLocal refuses to start when the context is shut down", L+"launch_service.py, "+L+"actions/execute_local.py")])

p("C10", "A run ends exactly when all work is done, with a truthful return code",
  "With idle shutdown enabled, a run returns only when no event is queued and every started process, timer and coroutine action has finished, and it does return once that is so; without it, it keeps running until asked to shut down. It returns 0 exactly when no handler, entity or awaited activity raised and it was not cancelled (a cancelled coroutine action is not an error), and after an error it still waits for everything already started.",
  ["schedules", "histories", "fault_sequences"], "all programs and all completion orders of their asynchronous activities, including failures at any entity",
  "Tests run single small descriptions; failures while other activities are pending, and completion orders, are not sampled.",
  [L+"launch_service.py", L+"utilities/visit_all_entities_and_collect_futures_impl.py", L+"launch_context.py"],
  [("entity futures and completion futures collected and awaited", L+"launch_service.py")])

p("C11", "Each started process yields one start, its output, then one exit event",
  "For every process actually started, exactly one start event is emitted, then output events, then exactly one exit event carrying the same process id and the real return code; output read before its exit is noticed is reported between the two, and a process that could not be started yields neither start nor exit event. On-exit actions and exit handlers for the process run exactly once per exit, and the action is complete only after its exit.",
  ["schedules", "fault_sequences"], "all numbers of processes, output chunkings, exit codes, exits by signal, spawn failures and respawns",
  "Tests launch a few real programs with one timing each.",
  [L+"actions/execute_local.py", L+"event_handlers/on_process_start.py", L+"event_handlers/on_process_exit.py", L+"event_handlers/on_process_io.py"],
  [("asyncio subprocess protocol emitting events", L+"actions/execute_local.py")])

p("C12", "Stopping a process escalates SIGINT, SIGTERM, SIGKILL after the set timeouts",
  "When a running process is asked to stop (service shutdown or a shutdown-process event), it receives SIGINT at once unless the shutdown came from an interrupt the process group already received (then only in noninteractive mode), SIGTERM if it is still running after the sigterm timeout, and SIGKILL if it is still running after a further sigkill timeout (in either order when that is zero). A process that exits earlier receives nothing more, no signal is ever sent to any other process, further stop requests add nothing, and a request made before the process started is carried out as soon as it has started.",
  ["schedules", "histories", "configurations"], "all timeouts, exit times, stop request times and kinds (including repeated and concurrent ones)",
  "Tests use one unresponsive program with one pair of timeouts and cannot check that nothing else is sent.",
  [L+"actions/execute_local.py", L+"event_handlers/on_shutdown.py", L+"actions/timer_action.py"],
  [("__shutdown_process and the two timers", L+"actions/execute_local.py")])

p("C13", "Respawn restarts a process after its delay, within limits, until shutdown",
  "A process with respawn enabled is started again after each exit, exactly the configured delay later, until the configured maximum number of restarts (unlimited when negative) is used up; without respawn it is started once. A shutdown stops respawning at once, also during the delay, and the action completes only when no restart will follow.",
  ["schedules", "configurations"], "all delays, limits, exit codes, exit times and shutdown times",
  "Tests count restarts of one program with a wall-clock timer.",
  [L+"actions/execute_local.py"],
  [("respawn branch of __execute_process", L+"actions/execute_local.py")])

p("C14", "Process output is logged line by line, complete and in order",
  "For each process and stream, the text logged to that stream's destination is exactly the output read before its exit was noticed, split at newlines, in order, one record per line with the configured line format applied, however the output was divided into reads; an unterminated last line is logged once, when the process exits. Output of different processes, streams or runs of a process is never mixed within a line, lost or repeated.",
  ["inputs", "schedules"], "all byte sequences (UTF-8 text included), chunk boundaries, interleavings of the two streams, respawns and output formats",
  "Tests use whole-line prints of single programs.",
  [L+"actions/execute_local.py"],
  [("per-stream line buffers flushed on exit", L+"actions/execute_local.py:__on_process_output,__flush_buffers")])

p("C15", "Captured output is exactly what the process wrote",
  "With output caching enabled, the captured standard output and standard error of a process are at every moment exactly the concatenation of what it has written to that stream so far (across respawns), and caching changes neither the events nor the logged lines.",
  ["inputs", "schedules"], "all outputs, chunkings and observation times",
  "Tests compare one short output after exit.",
  [L+"actions/execute_local.py"],
  [("cached output branch", L+"actions/execute_local.py")])

p("C16", "Timers fire exactly once at their time unless cancelled",
  "A started timer executes its actions exactly once, no earlier than its period after it was started and in order of due time among timers, unless it was cancelled before its due time, in which case it never does; cancelling is harmless at any time. Shutdown cancels pending timers unless the timer opted out, in which case the run keeps going until it has fired; a timer holds the run open exactly while it is pending.",
  ["schedules", "histories", "configurations"], "all sets of timers, periods, nesting, cancellations (before start, pending, after firing) and shutdown times",
  "Tests use real sleeps with one or two timers.",
  [L+"actions/timer_action.py", L+"events/timer_event.py"],
  [("cancel/complete futures and TimerEvent handler", L+"actions/timer_action.py")])

p("C17", "Process-directed events act on exactly the matching processes",
  "An event asking to signal or shut down processes acts on each running process its matcher selects (by action, name, pid or executable) and on no other, delivering exactly the requested signal. Handlers targeting one process action (start, exit, output) run exactly for that action's events and never for another action's, a process that has finished is never signalled, and signalling one that has not started yet is an error of the run.",
  ["histories", "programs"], "all sets of processes, target matchers, signals and event times relative to process life",
  "Tests signal a single process.",
  [L+"events/process/", L+"event_handlers/", L+"actions/execute_local.py"],
  [("process_matchers; is_a/is_targeted checks in event handlers", L+"events/process/process_matchers.py")])

p("C18", "Emitting events and including descriptions is safe from any thread",
  "Events emitted and descriptions included from any number of threads, before or during a run, are each processed exactly once, preserving each thread's own order, and the emitting call returns only after the event has been queued. Calling shutdown from any thread at any time makes the run end and both calls return; running the service from a non-main thread or twice concurrently is refused without disturbing the active run.",
  ["schedules"], "all interleavings of emitting threads, shutdown callers and the run thread",
  "Tests use one thread with one event.",
  [L+"launch_service.py"],
  [("lock around loop_from_run_thread; run_coroutine_threadsafe", L+"launch_service.py")])

p("C19", "Signals reach all active managers; earlier handling is restored intact",
  "While signal managers are active, nested or in sequence, each arriving signal calls every active manager's own handler for it exactly once, inside that manager's event loop, and never the handler of a manager that was closed or has unhandled it. When a manager is closed, the wakeup descriptor and the signal handlers it replaced are restored exactly as they were, so after the outermost one the process handles signals as it did before.",
  ["histories", "schedules"], "all nestings, handle/unhandle sequences and signal arrival points",
  "Tests check one manager and one nested pair.",
  [L+"utilities/signal_management.py"],
  [("wakeup fd chain and modified signal handlers", L+"utilities/signal_management.py")])

p("C20", "Boolean, comparison and conditional substitutions compute the right value",
  "Not, and, or, any, all and if-else substitutions compute the Boolean function they are named after over operands accepted as true/false, yes/no, on/off in the YAML capitalisations (or 1/0), rejecting anything else; equals and not-equals are exact complements that compare as Booleans, else as numbers, else as text. Typed evaluation of substitutions accepts exactly the spelling of the requested type (Python's notation for int and float, YAML's for bool and uniform lists, any text for str) and returns that value, and rejects other text.",
  ["inputs"], "all operand texts and nestings of substitutions",
  "Tests check a table of literals, without nesting or mixed kinds.",
  [L+"substitutions/boolean_substitution.py", L+"substitutions/equals_substitution.py", L+"substitutions/not_equals_substitution.py", L+"substitutions/if_else_substitution.py", L+"utilities/type_utils.py"],
  [("coercion to bool then connective", L+"substitutions/boolean_substitution.py"), ("coerce_to_type", L+"utilities/type_utils.py")])

p("C21", "Text with embedded substitutions and command lines parse faithfully",
  "Front-end text parses into exactly its literal pieces and $(...) substitutions: backslash escapes of dollar, quotes, parentheses and backslash yield the literal character, quoted and nested substitution arguments are passed on unchanged in number and order, and text without special characters evaluates to itself; malformed text is rejected. A command line given as text is split on unquoted whitespace outside substitutions only, so evaluating the pieces reproduces the words a shell would see, and the value of a substitution never gets split; a command line whose quotation contains a substitution is rejected.",
  ["inputs"], "all texts over the grammar's characters and all command lines with quotes and embedded substitutions",
  "Tests check about forty fixed strings.",
  [L+"frontend/parse_substitution.py", "launch/share/launch/frontend/grammar.lark", L+"actions/execute_process.py"],
  [("lark grammar and transformer; _parse_cmdline", L+"frontend/parse_substitution.py, "+L+"actions/execute_process.py")])

p("C22", "XML and YAML launch files mean the same as the equivalent Python description",
  "A launch description written as XML or YAML behaves exactly like the same description built with the Python API: the same actions in the same order with the same values, conditions, scoping and defaults. Unknown tags, unknown or leftover attributes or children of actions, missing required attributes and values of the wrong type are rejected when the file is loaded rather than ignored.",
  ["programs", "inputs"], "all trees of front-end actions and attributes, in both syntaxes, and all single-point corruptions of them",
  "Tests check one file per action and syntax and few corruptions.",
  [L+"frontend/parser.py", L+"frontend/entity.py", L+"frontend/expose.py", "launch_xml/launch_xml/", "launch_yaml/launch_yaml/", L+"utilities/type_utils.py"],
  [("expose_action / Entity accounting of parsed attributes", L+"frontend/expose.py"), ("Entity.get_attr", "launch_xml/launch_xml/entity.py, launch_yaml/launch_yaml/entity.py")])

p("C23", "Test waits see output and exits whenever they happen and never hang",
  "In launch_testing, waiting for process output, start-up or shutdown succeeds exactly if the awaited text, start or exit has been or is seen for a matching process before the timeout, regardless of whether it happened before or during the wait, and otherwise fails no earlier than the timeout; any number of waiting threads are all released. Recorded output keeps every chunk of every process in arrival order exactly once; recorded process information is the latest start or exit of each process.",
  ["schedules", "inputs"], "all interleavings of waiting threads with output/exit arrivals, and all process selections",
  "Tests wait from a single thread with generous timeouts.",
  ["launch_testing/launch_testing/io_handler.py", "launch_testing/launch_testing/proc_info_handler.py", "launch_testing/launch_testing/tools/process.py", "launch_testing/launch_testing/util/proc_lookup.py", "launch_testing/launch_testing/asserts/"],
  [("condition variable notified under lock on each append", "launch_testing/launch_testing/io_handler.py, proc_info_handler.py")])

p("C24", "A launch test passes only if the launch became ready and every test passed",
  "A launch test run starts its active tests only after every readiness condition was signalled, runs each active test at most once, and each post-shutdown test exactly once after the launch has shut down with its active tests done. The run is reported successful exactly if the launch became ready, did not fail or exit before the active tests finished, and every active and post-shutdown test passed; no test that did not run is reported as passed.",
  ["schedules", "fault_sequences"], "all orders of readiness, process deaths, launch errors and test outcomes",
  "Tests run whole examples with one timing each.",
  ["launch_testing/launch_testing/test_runner.py", "launch_testing/launch_testing/loader.py", "launch_testing/launch_testing/ready_aggregator.py", "launch_testing/launch_testing/test_result.py", "launch_testing/launch_testing/launch_test.py"],
  [("test thread, ready aggregation, result combination", "launch_testing/launch_testing/test_runner.py")])

p("C25", "Output assertions accept exactly the outputs that contain what is expected",
  "Output assertions accept exactly when the expected text, text block, or every expected text or pattern in the given order is found in the output of the selected process and stream, each match being searched after the previous one, with filters and trailing-whitespace or escape-sequence stripping applied as requested. Exit-code assertions accept exactly when every selected process ended with an allowed code, and process selection by action, name or argument picks exactly the processes that match, failing on none or (where asked) several.",
  ["inputs"], "all output histories, chunkings, expected sequences and selections",
  "Tests use fixed outputs and fixed expected lines.",
  ["launch_testing/launch_testing/tools/output.py", "launch_testing/launch_testing/tools/text.py", "launch_testing/launch_testing/asserts/assert_output.py", "launch_testing/launch_testing/asserts/assert_sequential_output.py", "launch_testing/launch_testing/asserts/assert_exit_codes.py", "launch_testing/launch_testing/util/proc_lookup.py"],
  [("matchers and sequential checker", "launch_testing/launch_testing/tools/output.py, asserts/assert_sequential_output.py")])

p("C26", "Process output goes to exactly the configured destinations",
  "For each process stream, every line is delivered to exactly the destinations its output option names (screen, shared log file, per-process stdout, stderr or combined log files), once each and to no other, where the named presets stand for their documented sets and the environment override replaces the process's own choice. Routing of one process is unaffected by other processes or by the order in which they were configured.",
  ["configurations", "programs"], "all output options (presets and per-stream dictionaries) over several processes in any order",
  "Tests check a handful of presets on a fresh logging state.",
  [L+"logging/__init__.py", L+"logging/handlers.py", L+"actions/execute_local.py"],
  [("get_output_loggers and _normalize_output_configuration", L+"logging/__init__.py")])

p("C27", "A process runs with the command, environment and directory in force when started",
  "Every started process gets exactly the command words obtained by evaluating each configured word at its start (prefix words first, and only if the prefix filter matches), the configured working directory, and an environment equal to the configured full environment or else the launch environment in force then, overlaid by the additional variables; later changes do not affect it. Each process action gets a unique process name, and a failure of evaluation is reported as an error of the run.",
  ["programs", "configurations"], "all combinations of command substitutions, prefix, filter, shell, cwd, env and additional_env under changing launch configurations and environment",
  "Tests run a few commands with a single option each.",
  [L+"descriptions/executable.py", L+"actions/execute_process.py", L+"actions/execute_local.py"],
  [("Executable.prepare evaluated in ExecuteLocal.execute", L+"descriptions/executable.py")])

p("C28", "A completed action triggers its completion handlers exactly once, at the end",
  "Each time an action finishes, every completion handler that targets it (or all actions) and was registered before it executed runs exactly once: immediately after its execution for synchronous actions, including ones that failed, and after its asynchronous activity finished, however it ended, for asynchronous ones. Completion handlers never run for a different action, for an action skipped by its condition, or before the completion.",
  ["programs", "schedules"], "all programs of synchronous and asynchronous actions with completion handlers on some or all of them",
  "Tests check one handler for one action.",
  [L+"action.py", L+"events/execution_complete.py", L+"event_handlers/on_execution_complete.py"],
  [("ExecutionComplete emitted in Action.visit or when the future is done", L+"action.py")])

p("C29", "pytest process waits return the truth and respect their timeout",
  "In launch_pytest, the synchronous and asynchronous waits for a process's output, start-up or exit return (or the assert form passes) exactly when the condition on that process's own output or state became true before the timeout, whether before or during the wait, and otherwise report false (or fail) once the timeout has elapsed; without a timeout they keep waiting. They leave no event handler behind.",
  ["schedules", "inputs"], "all arrival times of output/exit relative to the wait and timeout, and all timeouts including none",
  "Tests use generous timeouts with real processes.",
  ["launch_pytest/launch_pytest/tools/process.py"],
  [("event handlers registered for the duration of the wait", "launch_pytest/launch_pytest/tools/process.py")])

p("C30", "launch_pytest runs each test in its phase and reports every failure",
  "With launch_pytest, the body of a test marked with a launch fixture runs only after that fixture's launch is up and ready to test, with the launch it asked for (one launch per instance of the fixture, by scope, class and parameter) and with its event loop being driven. Plain functions, coroutines and the first parts of generators run before the launch is shut down, in the order of the file; tests marked shutdown=True and the second parts of generators run after all others that share the launch, once it has ended; a second part is skipped if the first one did not pass. A generator marked shutdown=True, or one that does not yield exactly once, fails. Each launch has ended when its tests are through. A launch that fails, or ends before it is ready, is reported as a failure or an error and never as success; tests sharing a launch that never became ready fail without being run. Nothing hangs.",
  ["programs", "histories"], "all test modules: combinations of scopes, parameters, classes, kinds of tests, their outcomes, and launches that stay, end, fail or never get ready",
  "Tests check single modules whose tests mostly pass.",
  ["launch_pytest/launch_pytest/plugin.py", "launch_pytest/launch_pytest/fixture.py", "launch_pytest/launch_pytest/actions/ready.py"],
  [("pytest_collection_modifyitems orders the items, pytest_pyfunc_call wraps them", "launch_pytest/launch_pytest/plugin.py"),
   ("finalize_launch_service", "launch_pytest/launch_pytest/fixture.py")])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
