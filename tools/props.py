"""The properties (source of properties.jsonl and MANIFEST.json)."""

T = 'launch_testing/launch_testing/'
L = 'launch/launch/'
PROPS = [
 dict(id='C01', title='An action runs exactly when its condition holds and completes once',
  statement='Visiting an action executes it exactly once if it has no condition or its condition is true, and not at all if the condition is false. Its completion is reported exactly once to whoever watches it: after its execution, or, when the action is asynchronous, when its future is done; also when it fails. A skipped action is never reported as complete.',
  over=['inputs', 'histories'], quant='every condition outcome, every result of execute (entities, none, exception), every future state, every set of registered completion handlers',
  tests='Tests sample actions with constant conditions; the pairing of execution and completion on exception and pending-future paths is not exercised.',
  files=[L+'action.py', L+'event_handlers/on_execution_complete.py', L+'events/execution_complete.py'],
  mech=[('Action.visit', L+'action.py')]),
 dict(id='C02', title='Entities are visited in order and handler scopes are restored',
  statement='A launch description and whatever its entities return are visited depth first in the order written, and every asynchronous future they expose is awaited by the run. An event is offered to every registered handler in registration order, with the event visible only while its handlers and the entities they return are processed. The context-local values are the same after an event as before it, on every path including exceptions.',
  over=['inputs', 'histories', 'fault_sequences'], quant='every tree of entities, every set of matching handlers, an exception in any handler or entity',
  tests='Tests use small fixed trees whose handlers succeed; no test looks at the context after a failing handler.',
  files=[L+'utilities/visit_all_entities_and_collect_futures_impl.py', L+'launch_service.py', L+'launch_context.py'],
  mech=[('visit_all_entities_and_collect_futures', L+'utilities/visit_all_entities_and_collect_futures_impl.py'), ('LaunchService.__process_event', L+'launch_service.py')]),
 dict(id='C03', title='A run ends only when all work is done and reports failure faithfully',
  statement='A run returns only when no event, no entity future and no scheduled task of it is left, or after it was told to shut down and its remaining work has been cancelled or finished. The return code is zero exactly when no exception escaped from a launched entity or handler. Refused, failed or repeated runs leave the service usable.',
  over=['schedules', 'histories', 'fault_sequences'], quant='every order in which futures complete, fail or are cancelled relative to events and shutdown; every position of an exception',
  tests='Tests complete futures in one order and wait for wall-clock; interleavings of completion, cancellation and shutdown are not enumerated.',
  files=[L+'launch_service.py'],
  mech=[('LaunchService.run_async', L+'launch_service.py'), ('LaunchService.__process_one_event', L+'launch_service.py')]),
 dict(id='C04', title='A run is shut down at most once and every signal leads to shutdown',
  statement='Whatever mix of shutdown requests, shutdown events, signals and idleness occurs, the shutdown handlers run at most once per run. SIGINT, SIGTERM and (when the platform has it) SIGQUIT each lead to a shutdown, marked as due to SIGINT exactly for SIGINT. Handlers installed for a run are removed when it ends, and a later run starts fresh.',
  over=['schedules', 'histories'], quant='every order of the shutdown sources, before, during and after a run',
  tests='Tests send one signal at one moment; repeated or mixed sources are not covered.',
  files=[L+'launch_service.py', L+'actions/shutdown_action.py', L+'event_handlers/on_shutdown.py', L+'events/shutdown.py'],
  mech=[('LaunchService.__on_shutdown', L+'launch_service.py'), ('LaunchService.__shutdown', L+'launch_service.py')]),
 dict(id='C05', title='Other threads can emit events and stop a run without loss or deadlock',
  statement='An event emitted from any thread is queued in the running loop exactly once, or processed by the next run if none is active. A shutdown requested from another thread reaches the loop exactly once and no thread ever waits for the loop while holding a lock the loop needs. Requests when nothing is running return without error.',
  over=['schedules'], quant='every combination of calling thread, loop state and run state',
  tests='Tests call from one thread at one moment; lock and loop interactions depend on the schedule.',
  files=[L+'launch_service.py', L+'launch_context.py'],
  mech=[('LaunchService.emit_event', L+'launch_service.py'), ('LaunchService.shutdown', L+'launch_service.py')]),
 dict(id='C06', title='Context scopes nest: a pop restores exactly what was pushed',
  statement='Pushing launch configurations, the environment or the context-locals and popping them later restores exactly the values at the push, whatever happened in between and however deeply scopes nest; the three kinds are independent of each other and of other contexts. A pop without a push is an error. Locals shadow globals and cannot be assigned. Handlers are offered events newest first (appended ones last); events queued on a context are neither lost, duplicated nor reordered.',
  over=['inputs', 'histories'], quant='every sequence of changes (set, overwrite, delete, clear, read) between a push and its pop, up to the depth of the drivers',
  tests='Tests push and pop once around one change; aliasing of a pushed copy needs particular sequences.',
  files=[L+'launch_context.py'], mech=[('LaunchContext', L+'launch_context.py')]),
 dict(id='C07', title='A scoped group leaks nothing; forwarding decides what it sees',
  statement='After a scoped group the launch configurations and the environment are what they were before it, whatever its actions did; after a group that is not scoped their changes persist. A forwarding group sees the existing configurations plus those given; otherwise only those given (evaluated outside) and the initial environment. Its actions are visited once each, in order, on every visit of the group, and not at all if its condition is false.',
  over=['inputs', 'histories'], quant='every combination of scoped, forwarding, given configurations, condition, nesting, and changes made by the actions',
  tests='Tests check some of the combinations with one change each.',
  files=[L+'actions/group_action.py', L+'actions/push_launch_configurations.py', L+'actions/pop_launch_configurations.py', L+'actions/push_environment.py', L+'actions/pop_environment.py', L+'actions/reset_environment.py', L+'actions/reset_launch_configurations.py'],
  mech=[('GroupAction', L+'actions/group_action.py')]),
 dict(id='C08', title='An include passes its arguments and insists on the required ones',
  statement='Including a description sets the given arguments, in order, before visiting its entities, once each and in order, with its own file as the current launch file. It is an error, before anything is visited, if an argument the included description unconditionally requires is neither passed by this include, by a nested include on the way, nor already set; what is passed to one include never satisfies another. Conditional arguments are not required. The declared arguments of a description are found at any depth.',
  over=['inputs', 'histories'], quant='every tree of includes, groups, conditions and declared arguments up to the depth of the drivers, every way of passing arguments',
  tests='Tests use one nesting level.',
  files=[L+'actions/include_launch_description.py', L+'launch_description.py', L+'launch_description_source.py'],
  mech=[('IncludeLaunchDescription.execute', L+'actions/include_launch_description.py'), ('LaunchDescription.get_launch_arguments_with_include_launch_description_actions', L+'launch_description.py')]),
 dict(id='C09', title='A declared argument has a valid value afterwards or the launch fails',
  statement='After a declaration the launch configuration of that name is set: to the value given beforehand, also an empty one, or else to the default evaluated at that point. It is an error if there is neither, or, when choices are declared, if the value (given or default) is not exactly one of them. A declaration whose condition is false does nothing. Choices are checked and documented at construction.',
  over=['inputs'], quant='every combination of given value, default, choices, condition and evaluation time',
  tests='Tests sample one or two values.',
  files=[L+'actions/declare_launch_argument.py'], mech=[('DeclareLaunchArgument.execute', L+'actions/declare_launch_argument.py')]),
 dict(id='C10', title='Environment and configuration actions do exactly what they say',
  statement='Each of the actions that set, unset, append to, push, pop or reset environment variables or launch configurations changes exactly the named entries of the context it is visited in, with names and values evaluated at the visit, and nothing else. Append puts the value on the requested side with the separator, treating a variable set to the empty string as existing. Unsetting a missing entry is no error. An anonymous name is generated once per id and context.',
  over=['inputs', 'histories'], quant='every prior state of the entry, side, separator and value',
  tests='Tests sample single values.',
  files=[L+'actions/set_environment_variable.py', L+'actions/unset_environment_variable.py', L+'actions/append_environment_variable.py', L+'actions/set_launch_configuration.py', L+'actions/unset_launch_configuration.py', L+'actions/reset_launch_configurations.py', L+'actions/push_environment.py', L+'actions/pop_environment.py', L+'actions/reset_environment.py', L+'actions/push_launch_configurations.py', L+'actions/pop_launch_configurations.py', L+'substitutions/anon_name.py'],
  mech=[('AppendEnvironmentVariable.execute', L+'actions/append_environment_variable.py')]),
 dict(id='C11', title='A process is reported started, then exited, once each; then it is complete',
  statement='Executing a process action reports ProcessStarted once the process runs and ProcessExited once it ended, exactly once each and in this order, with the name, command, working directory, environment, pid and return code of that process; the future of the action completes after that, and also when the process cannot be started, when its setup fails, or when the launch is already shutting down (then no process is started). No event handler of the action stays registered after it completed. on_exit actions run exactly once. Everything received from the process becomes output events in order.',
  over=['schedules', 'histories', 'fault_sequences'], quant='every order of process end, output, shutdown and failure to start; every form of on_exit',
  tests='Tests run real processes with one timing; start failures racing with shutdown are not covered.',
  files=[L+'actions/execute_local.py', L+'events/process/process_started.py', L+'events/process/process_exited.py', L+'events/process/running_process_event.py'],
  mech=[('ExecuteLocal.execute', L+'actions/execute_local.py'), ('ExecuteLocal.__execute_process', L+'actions/execute_local.py')]),
 dict(id='C12', title='A process told to shut down gets SIGINT, SIGTERM, SIGKILL until it ends',
  statement='A process asked to stop, directly or by the shutdown of the launch, receives SIGINT at once (unless the terminal delivered it already), SIGTERM after the configured timeout and SIGKILL after the second one, each at most once and none after it ended; its timers are cancelled when it ends. Requests before it runs are carried out when it does; requests after its end do nothing. Events addressed to one process never signal another; the signal requested is the signal sent; a process that vanished is no error.',
  over=['schedules', 'histories'], quant='every order of request, start, timeouts and end of the process; every timeout configuration',
  tests='Tests wait for wall-clock timeouts in one order.',
  files=[L+'actions/execute_local.py', L+'events/process/shutdown_process.py', L+'events/process/signal_process.py', L+'events/process/process_targeted_event.py', L+'events/matchers.py'],
  mech=[('ExecuteLocal.__shutdown_process', L+'actions/execute_local.py'), ('ExecuteLocal.__get_shutdown_timer_actions', L+'actions/execute_local.py')]),
 dict(id='C13', title='A process is respawned exactly while it should be',
  statement='With respawn set, a process that ends is started again after the delay with the same command and environment, at most respawn_max_retries times if that is not negative, and never once it was asked to stop or the launch is shutting down: a stop during the delay ends it at once, a stop while it is being started takes effect as soon as it runs. The action completes only when there will be no further start. Without respawn it is started once. Signals reach the process that runs now.',
  over=['schedules', 'histories'], quant='every number of retries (up to the bound), every moment of a stop relative to end, delay and start',
  tests='Tests cover one respawn with real time.',
  files=[L+'actions/execute_local.py'], mech=[('ExecuteLocal.__execute_process', L+'actions/execute_local.py')]),
 dict(id='C14', title='Process output is logged line by line, complete, in order, as configured',
  statement='However its output is cut into chunks, every line a process prints is logged exactly once, as soon as it is complete and in order per stream, and an unfinished last line when it ends, also across respawns and when output is processed after the exit event; stdout and stderr never mix, nor do the outputs of two processes. Lines are formatted as asked. With cached output everything is also kept and returned; otherwise asking for it is an error. Where output goes follows the action unless the environment overrides it.',
  over=['inputs', 'schedules'], quant='every split of the text into chunks over the small alphabet of the drivers, every interleaving of the streams, exit and respawn',
  tests='Tests depend on how the operating system delivers the output.',
  files=[L+'actions/execute_local.py', L+'logging/__init__.py'], mech=[('ExecuteLocal.__on_process_output', L+'actions/execute_local.py'), ('ExecuteLocal.__flush_buffers', L+'actions/execute_local.py')]),
 dict(id='C15', title='The process run is the one described: command, environment, directory, name',
  statement='The command run is the words given, in order, substitutions performed at execution, followed by the arguments and preceded by the given or configured prefix where its filter matches. The environment is the one given or a copy of the current one, plus the additional variables; preparing never changes the description or the context. Working directory and name are the ones given, else inherited and derived from the program, and names are unique. A failing substitution is an error of the action and nothing is run.',
  over=['inputs', 'histories'], quant='every combination of given and omitted parts, of prefix, filter and name',
  tests='Tests sample a few combinations.',
  files=[L+'descriptions/executable.py', L+'actions/execute_process.py'], mech=[('Executable.prepare', L+'descriptions/executable.py')]),
 dict(id='C16', title='A command written in a launch file becomes the intended arguments',
  statement='A command line in a launch file is split at white space outside quotes exactly as a shell would split it, with substitutions forming whole words or parts of words; no argument is invented, lost or merged. Every documented attribute of an executable reaches the action with its type; values of the wrong type and unknown attributes are refused.',
  over=['inputs'], quant='every command of the small alphabet (text, white space, quotes, substitutions) up to the length of the drivers; every attribute',
  tests='Tests have a handful of commands.',
  files=[L+'actions/execute_process.py', L+'actions/execute_local.py'], mech=[('ExecuteProcess._parse_cmdline', L+'actions/execute_process.py')]),
 dict(id='C17', title='A timer fires once after its period unless cancelled, and always completes',
  statement='The actions of a timer are executed exactly once, after its period and not before, unless it is cancelled, by itself or by the shutdown of the launch (except when it is made to survive that), at any moment before they are; then never. Its future always completes, and the run waits for it. The period is evaluated where the timer is; an invalid one is an error that leaves nothing behind. The actions see the context-locals of the place of the timer. Timers do not trigger each other, in any context.',
  over=['schedules', 'histories', 'inputs'], quant='every order of elapsing, cancelling, shutdown and event delivery for several timers',
  tests='Tests use wall-clock sleeps in one order.',
  files=[L+'actions/timer_action.py', L+'events/timer_event.py'], mech=[('TimerAction', L+'actions/timer_action.py')]),
 dict(id='C18', title='Actions that call back or emit do so exactly once, with exactly what was given',
  statement='An opaque function is called once per visit with the context and its arguments, and what it returns is visited; an opaque coroutine runs in the loop of the launch and is cancelled by its shutdown and by nothing else, and the run waits for it. Emitting queues that very event once per visit; shutting down emits one shutdown event with the reason evaluated then. A message is evaluated at the visit and logged once, character for character. A handler registered or unregistered by an action takes part from the next event on. What cannot be called or emitted is refused when the action is made. Nothing happens if the condition of the action is false.',
  over=['inputs', 'schedules', 'histories'], quant='every form of arguments, every kind of argument, every moment of the shutdown relative to the coroutine',
  tests='Tests call each action once with simple arguments.',
  files=[L+'actions/opaque_function.py', L+'actions/opaque_coroutine.py', L+'actions/emit_event.py', L+'actions/shutdown_action.py', L+'actions/log_info.py', L+'actions/register_event_handler.py', L+'actions/unregister_event_handler.py'],
  mech=[('OpaqueCoroutine.execute', L+'actions/opaque_coroutine.py'), ('OpaqueFunction.execute', L+'actions/opaque_function.py')]),
 dict(id='C19', title='An event handler handles exactly the events it is for, as often as it should',
  statement='Each handler takes the events of its kind and, given a target, of that target only; output, start, exit, completion, include, execution and shutdown events never reach handlers of another kind. For each event it takes, the entities are visited in order, or the function is called once with event and context, with the event in the context-locals during that and not afterwards. A handler made for one event handles the first event it takes, then none; events of others do not use it up. Process matchers by name, pid and action take exactly the named process. What is no target, no entity or no function is refused when the handler is made.',
  over=['inputs', 'histories'], quant='every handler class with every kind of event, with and without target, with entities in every accepted form; every order of matching and other events',
  tests='Tests check one matching and one other event per class.',
  files=[L+'event_handler.py', L+'event_handlers/on_action_event_base.py', L+'event_handlers/on_execution_complete.py', L+'event_handlers/on_process_exit.py', L+'event_handlers/on_process_io.py', L+'event_handlers/on_process_start.py', L+'event_handlers/on_shutdown.py', L+'event_handlers/event_named.py', L+'events/matchers.py'],
  mech=[('BaseEventHandler.handle', L+'event_handler.py'), ('OnActionEventBase.__init__', L+'event_handlers/on_action_event_base.py')]),
 dict(id='C20', title='A condition holds exactly for the documented spellings, judged when asked',
  statement='If holds for true and 1, not for false and 0, whatever the case and the surrounding space; unless is the opposite; any other text is an error and never silently true or false. Substitutions are evaluated each time the condition is asked, all parts put together before they are judged, and their errors are errors of the condition. Comparing a configuration holds for equal text, or for one not set when compared with None; not equals is the opposite. In launch files if and unless mean the same as in Python and exclude each other.',
  over=['inputs', 'histories'], quant='every spelling of the table with every padding, split over any parts; every value of a configuration, also unset',
  tests='Tests have a few spellings and no padding or splits.',
  files=[L+'condition.py', L+'conditions/evaluate_condition_expression_impl.py', L+'conditions/if_condition.py', L+'conditions/unless_condition.py', L+'conditions/launch_configuration_equals.py', L+'conditions/launch_configuration_not_equals.py', L+'action.py'],
  mech=[('evaluate_condition_expression', L+'conditions/evaluate_condition_expression_impl.py')]),
 dict(id='C21', title='A substitution stands for its documented value, or fails; it changes nothing',
  statement='Every substitution yields its documented value in the context of the moment: empty values count as values, defaults are evaluated only if needed, boolean operators accept exactly the boolean spellings and fail for anything that matters and is none, equality compares booleans and numbers by value, only the selected branch of if is evaluated, a command is run once without a shell and fails as documented, paths are joined in order. What has no value is a failure, never an empty text. Evaluating leaves configurations and environment alone and describing evaluates nothing. Written in a launch file a substitution takes exactly the arguments it needs and means the same as in Python.',
  over=['inputs', 'histories'], quant='every entry of the spelling tables, every combination of given, empty and missing values and defaults, every number of arguments',
  tests='Tests sample values and rarely the failing ones.',
  files=[L+'substitutions/%s.py' % n for n in ('launch_configuration', 'environment_variable', 'boolean_substitution', 'equals_substitution', 'not_equals_substitution', 'if_else_substitution', 'command', 'file_content', 'find_executable', 'path_join_substitution', 'python_expression', 'local_substitution', 'this_launch_file', 'this_launch_file_dir', 'text_substitution')] + [L+'utilities/normalize_to_list_of_substitutions_impl.py', L+'utilities/perform_substitutions_impl.py'],
  mech=[('LaunchConfiguration.perform', L+'substitutions/launch_configuration.py'), ('Command.perform', L+'substitutions/command.py')]),
 dict(id='C22', title='A launch file means exactly what it says, or is refused',
  statement='Written in XML or YAML, every element accepts its documented attributes, alone and together, and does what the same action does in Python. What is missing, unknown, misspelled or of another type is an error that refuses the file; it is never ignored. Elements nested in an element obey the same rules; children are executed in order. Asking an entity for an attribute yields its value in the asked type, nothing if it may be missing, else an error. The first function exposed under a name stays.',
  over=['inputs'], quant='every element of both frontends with every attribute present, missing, misspelled or of another type',
  tests='Tests sample elements and hardly any wrong ones.',
  files=['launch_xml/launch_xml/entity.py', 'launch_yaml/launch_yaml/entity.py', L+'frontend/expose.py', L+'frontend/parser.py', L+'frontend/entity.py', L+'frontend/type_utils.py'] + [L+'actions/%s.py' % n for n in ('execute_process', 'execute_local', 'declare_launch_argument', 'group_action', 'include_launch_description', 'set_launch_configuration', 'set_environment_variable', 'append_environment_variable', 'unset_environment_variable', 'unset_launch_configuration', 'timer_action', 'log_info', 'push_environment', 'shutdown_action')],
  mech=[('Parser.parse_action', L+'frontend/parser.py'), ('Entity.get_attr', 'launch_xml/launch_xml/entity.py'), ('Entity.get_attr', 'launch_yaml/launch_yaml/entity.py')]),
 dict(id='C23', title='Substitutions in text are read exactly; the right parser is chosen',
  statement='Text of a launch file around and between substitutions is kept to the letter, substitutions nest to any depth, quoting and escaping mean what is documented, what is evaluated is never read again, and a malformed substitution is an error, not text. A file is read by the parsers claiming its name first, then the others; it is always closed, and if none can read it the error has the errors of all. Parsers and extensions that cannot be loaded are skipped with a warning and are looked up once.',
  over=['inputs', 'histories'], quant='every shape of text up to the nesting bound, every set of installed parsers of the model and every outcome of each',
  tests='Tests read a handful of texts with the installed parsers.',
  files=[L+'frontend/parse_substitution.py', L+'frontend/parser.py', 'launch_xml/launch_xml/parser.py', 'launch_yaml/launch_yaml/parser.py', L+'frontend/grammar.lark'],
  mech=[('parse_substitution', L+'frontend/parse_substitution.py'), ('Parser.load', L+'frontend/parser.py')]),
 dict(id='C24', title='Values have the declared type or are refused',
  statement='A text of a declared type becomes the value of exactly that type, any other is a ValueError; where texts may stand for a value they are kept. Lists are uniform, converted one for one and in order. A value of another type is a TypeError as soon as it can be known, and otherwise when it is evaluated; nothing is converted silently.',
  over=['inputs'], quant='every declared type and list type with texts and values of every type of the model',
  tests='Tests sample conversions.',
  files=[L+'utilities/type_utils.py'],
  mech=[('coerce_to_type', L+'utilities/type_utils.py'), ('perform_typed_substitution', L+'utilities/type_utils.py')]),
 dict(id='C25', title='A launch file is loaded once, from the place its location evaluates to',
  statement='A launch description source evaluates its location in the context it is first asked with, loads the file once and gives the same description afterwards; a failure is an error and is not remembered as a description. Python files are executed once and their function is called once; other files are read by the parser asked for. A file of any format is tried in the documented order until one works, otherwise the error is InvalidLaunchFileError from the likely cause. Looking at a source without a context never fails and changes nothing for later. Describing a launch description mentions every action once, in order, and executes nothing.',
  over=['inputs', 'histories'], quant='every kind of name and file contents of the model in every order of use',
  tests='Tests load a handful of files, once each.',
  files=[L+'launch_description_source.py', L+'launch_description_sources/any_launch_file_utilities.py', L+'launch_description_sources/any_launch_description_source.py', L+'launch_description_sources/python_launch_file_utilities.py', L+'launch_description_sources/python_launch_description_source.py', L+'launch_description_sources/frontend_launch_file_utilities.py', L+'launch_description_sources/frontend_launch_description_source.py', L+'launch_introspector.py', L+'invalid_launch_file_error.py'],
  mech=[('LaunchDescriptionSource.get_launch_description', L+'launch_description_source.py'), ('get_launch_description_from_any_launch_file', L+'launch_description_sources/any_launch_file_utilities.py')]),
 dict(id='C26', title='Signals reach the right handler while a manager is in use, then all is as before',
  statement='While a signal manager is in use every signal it handles is delivered to its handler in the loop, exactly once per arrival and in order, whichever code was interrupted; the handler that was installed before is still told of it. A handler may be changed or removed at any moment, also by itself. Leaving the manager, also after an error, restores the wakeup descriptor and handlers that were there before, closes what it opened and stops watching; managers nest; one can be used again. Used outside the main thread it refuses or does nothing, as documented.',
  over=['schedules', 'histories', 'fault_sequences'], quant='every arrival of signals relative to entering, handling, changing and leaving, on loops with and without support for readers, for nested managers',
  tests='Tests send one signal to one manager at a quiet moment.',
  files=[L+'utilities/signal_management.py'],
  mech=[('AsyncSafeSignalManager', L+'utilities/signal_management.py')]),
 dict(id='C27', title='What is logged goes where it was configured to, once, in the format set',
  statement='Output configured for the screen, the common log or the own log of a process goes there and nowhere else, once, however often and in whatever combination it is configured; wrong settings are refused and change nothing. The log directory is the one documented for the environment, created once, unique among running launches, and the link to the latest never replaces what is not a link. Formats apply to what is logged from then on, also by loggers made before. Levels are accepted by name and number. Resetting returns to the state of the start.',
  over=['inputs', 'histories'], quant='every output setting and combination of settings, every state of the directories of the model, every order of setting formats and making loggers',
  tests='Tests configure one setting in a fresh state.',
  files=[L+'logging/__init__.py', L+'logging/handlers.py'],
  mech=[('get_output_loggers', L+'logging/__init__.py'), ('LaunchConfig.get_screen_handler', L+'logging/__init__.py')]),
 dict(id='C28', title='What test processes did is all recorded and told to every waiting test',
  statement='Of every process of a launch test the last start or exit event, and all output in the order it came, is kept and found by action or by a part of its name; what has no record is a KeyError. What a reader was given does not change while it looks. Records shared by threads are used under their lock only, no lock stays held whatever is raised, and whatever is recorded every waiting thread is woken. Waiting for start, end or output succeeds exactly if it happened in time, waiting at most as asked and not at all if it already has; which process is meant is decided by name and arguments, and an ambiguous name is an error. A process launched for a test is started on entering, shut down on leaving unless it ended, and its proxy tells running, terminated, exit code and filtered output as they are.',
  over=['inputs', 'schedules', 'histories'], quant='every kind of event, of way to name a process and of moment of the event relative to the waiting, every outcome of a wait, every exit from the block',
  tests='Tests run one process and look once all has happened.',
  files=[T+'proc_info_handler.py', T+'io_handler.py', T+'tools/process.py'],
  mech=[('ActiveProcInfoHandler', T+'proc_info_handler.py'), ('ActiveIoHandler', T+'io_handler.py'), ('ProcessProxy', T+'tools/process.py')]),
 dict(id='C29', title='A launch test starts when all of it is ready, and its processes end in time',
  statement='The action that says a launch is ready calls every callback of it exactly once; a description without one is refused. With several launches the parent is told exactly once, at the last. The timeout is the one given, else the documented one. A handler waiting for a text on standard output returns its actions when the text of that process is there, in however many parts it came, and never for text of another process or stream. A test process that runs longer than its timeout is interrupted and escalated; one that ends in time leaves no timer behind. Test actions run what they are made for, with all options of a process action.',
  over=['inputs', 'schedules', 'histories'], quant='every number of callbacks and of calls, every cutting of output in parts, every end of the process relative to its timeout',
  tests='Tests see one callback, output in one part and one process.',
  files=[T+'actions/ready.py', T+'actions/test.py', T+'actions/gtest.py', T+'actions/pytest.py', T+'event_handlers/stdout_ready_listener.py', T+'loader.py', T+'ready_aggregator.py', T+'ready_to_test_action_timeout.py', T+'util/__init__.py'],
  mech=[('ReadyAggregator', T+'ready_aggregator.py'), ('ReadyToTest.execute', T+'actions/ready.py'), ('StdoutReadyListener', T+'event_handlers/stdout_ready_listener.py')]),
 dict(id='C30', title='An assertion about processes holds exactly when what it says is so',
  statement='Assertions look at exactly the processes named: all, one action, or those whose name contains a text and which have the arguments; none is an error, and so is more than one unless ambiguity was allowed. Exit codes hold exactly if every process looked at ended with an allowed code. Output holds exactly if one of them printed the expected text on that stream, however its output was cut into parts, after escape sequences are removed and the filter applied as asked. Sequences are found one after the other, a miss does not lose the place. Matchers of text, lines and patterns find the first place, or strictly all there is. Filters drop exactly the lines that begin with a prefix or pattern, for every output they filter. Wrong expectations are refused.',
  over=['inputs', 'histories'], quant='every way to name processes and every kind of expectation, every cutting of the output, every exit code',
  tests='Tests assert one thing about one process.',
  files=[T+'asserts/assert_exit_codes.py', T+'asserts/assert_output.py', T+'asserts/assert_sequential_output.py', T+'util/proc_lookup.py', T+'tools/text.py', T+'tools/output.py'],
  mech=[('resolveProcesses', T+'util/proc_lookup.py'), ('assertInStream', T+'asserts/assert_output.py'), ('SequentialTextChecker', T+'asserts/assert_sequential_output.py')]),
 dict(id='C31', title='A launch test run runs every test at its time and reports what became of it',
  statement='For every set of parameters the description is launched once; the tests run once each, those for a running system after it said it is ready and before the launch is shut down, the others after the launch has ended; the launch ends when the tests are done, or early if idle unless it is to be kept alive. Tests get what their parameters are named after. A launch that is not ready in time or ends early fails all of its tests and ends the run; a skipped one skips only its own. Result, exit code and XML report say success exactly if nothing failed, count every test, and name all that went wrong in well-formed text. Wrong parameters and arguments are refused before a launch. Of a retried test only the last attempt counts.',
  over=['inputs', 'schedules', 'histories'], quant='every order of readiness, tests, end and interruption of the launch of the model, every outcome of a test, every combination of markers and parameters',
  tests='Tests of the runner see a few runs, mostly successful ones.',
  files=[T+'test_runner.py', T+'test_result.py', T+'loader.py', T+'junitxml.py', T+'parametrize.py', T+'markers.py', T+'decorator.py', T+'parse_arguments.py', T+'launch_test.py', T+'ready_to_test_action_timeout.py'],
  mech=[('LaunchTestRunner.run', T+'test_runner.py'), ('TestRun.bind', T+'loader.py'), ('unittestResultsToXml', T+'junitxml.py'), ('TestResult.append', T+'test_result.py')]),
 dict(id='C32', title='pytest launch tests run alongside or after their launch and report failures',
  statement='A launch fixture must give a launch description (alone or first in a sequence); it is launched once with its options, and its tests start only when it is ready (its one ReadyToTest action, added if absent). A launch that ends before being ready fails its tests instead of blocking them, and no other test gets that fixture. Each test runs once with its arguments: functions in a thread and coroutines in the loop alongside the launch, shutdown tests after it has ended; of a generator the first part alongside, the second after, exactly one yield being allowed; a failed or unrun first part skips the second. Failures of tests, and of the launch at any time, are reported. Collection injects the fixtures needed, skips invalid marks, leaves other tests alone, and orders shutdown tests after the others of their launch. Waiting for output, start or exit of a process succeeds exactly if it happens in time, misses nothing, and leaves no event handler behind.',
  over=['inputs', 'schedules'], quant='every mark, scope, kind of test, outcome of test parts and order of readiness, end and output of the launch of the model',
  tests='Tests of the plugin run a few modules whose launches and tests mostly succeed, with short timeouts.',
  files=['launch_pytest/launch_pytest/plugin.py', 'launch_pytest/launch_pytest/fixture.py', 'launch_pytest/launch_pytest/tools/process.py'],
  mech=[('pytest_fixture_setup', 'launch_pytest/launch_pytest/plugin.py'), ('pytest_pyfunc_call', 'launch_pytest/launch_pytest/plugin.py'), ('finalize_launch_service', 'launch_pytest/launch_pytest/fixture.py'), ('_wait_for_event_with_condition', 'launch_pytest/launch_pytest/tools/process.py')]),
 dict(id='C33', title='Legacy launch tests end when their tests are over and report what failed',
  statement='A launch run by the legacy test service (add_fixture_action, add_test_action, add_output_test, run) ends when the last of its tests is over, however it ended (a cancelled test action included), at once when one of them fails, and not before. A fixture process may exit only with an allowed code until the launch shuts down; otherwise it ends the launch. The return code is that of the launch, else of the first process that failed, else 1 if a test failed, else 0. An output test succeeds exactly if all expected lines or patterns are found in the standard output of its process, in however many parts it came and whether or not it came after the exit. Filters drop exactly the lines that begin with a prefix or match a pattern and keep the rest byte for byte.',
  over=['inputs', 'schedules'], quant='every outcome and order of test processes, fixtures and test actions of the model, every cutting of the output, every exit code, interruption at any step',
  tests='Two tests run one successful process each.',
  files=[T+'legacy/__init__.py', T+'legacy/output.py'],
  mech=[('LaunchTestService.add_output_test', T+'legacy/__init__.py'), ('LaunchTestService.run', T+'legacy/__init__.py'), ('create_output_regex_test', T+'legacy/output.py')]),
 dict(id='C34', title='Launch tests are found, run and reported by pytest and launch_test as they are',
  statement='pytest collects a module whose generate_test_description is marked launch_test as one test of all its runs, with all its marks, imported as pytest is asked to import; every other module, an __init__.py included, is left to pytest. What goes wrong while a module is imported is reported for that module and never keeps others from being collected. Other plugins may take launch tests and bring their own runner. The test fails exactly if one of its runs does or is invalid, each time it is run, and the report names everything that made it fail, class fixtures, subtests and unexpected successes included. Launch arguments given to pytest reach the launch, the last one wins. The command launch_test exits with 0 only if all tests are successful, writes the report it is asked for, and shows the arguments without running anything.',
  over=['inputs', 'histories'], quant='every kind of module and import failure, set of marks, import mode, outcome of tests and class fixtures, command line of the model',
  tests='Tests collect and run a few modules that are all well.',
  files=[T+'pytest/hooks.py', T+'pytest/hookspecs.py', T+'launch_test.py', T+'print_arguments.py', T+'parse_arguments.py'],
  mech=[('pytest_pycollect_makemodule', T+'pytest/hooks.py'), ('LaunchTestItem.runtest', T+'pytest/hooks.py'), ('LaunchTestItem.repr_failure', T+'pytest/hooks.py'), ('main', T+'launch_test.py'), ('print_arguments_of_launch_description', T+'print_arguments.py')]),
]
NOT_APPLICABLE = []
