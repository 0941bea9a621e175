"""The life of a process: started, then exited, reported exactly once each, then complete."""
from drv.proc import *


def d_lifecycle():
    """Started is reported once the process runs, exited once it ended, then the action is done."""
    c, loop = process_model()
    code = unknown('code', int)
    a = program(pick(ExecuteLocal, ExecuteProcess))
    a.visit(c)
    f = a.get_asyncio_future()
    check(state_of(f) == 'pending', 'the action is pending after its execution')
    check(len(loop.tasks) == 1 and len(logs('spawn')) == 0, 'started by a task of the loop')

    def while_running():
        check(queued_kinds(c) == ['ProcessStarted'], 'started is reported before the end')
        check(state_of(f) == 'pending', 'pending while the process runs')
        deliver(c)
        OS.started[0].exits(code)

    OS.while_running = [while_running]
    r = run_outcome(loop.tasks[0])
    check(r[0] == 'ok', 'the task succeeds for any exit code')
    q = queued(c)
    check(len(q) == 1 and kind(q[0]) == 'ProcessExited', 'exited is reported once, after the end')
    check(q[0].returncode is code or q[0].returncode == code, 'with the exit code of the process')
    check(q[0].action is a, 'it names the action')
    check(state_of(f) == 'done', 'the action is complete')
    check(len(logs('spawn')) == 1, 'one process is spawned')
    check(len(logs('close')) == 1, 'its transport is closed')
    check(signals() == [], 'no signal is sent')


def d_events_describe():
    """The events carry the name, command, working directory, environment and pid."""
    c, loop = process_model()
    a = ExecuteProcess(cmd=['/bin/prog', 'x'], name='me', cwd='/work', additional_env={'K': 'v'})
    a.visit(c)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    s, e = queued(c)
    for ev in (s, e):
        check(ev.process_name.startswith('me-'), 'name')
        check(ev.cmd == ['/bin/prog', 'x'], 'command')
        check(ev.cwd == '/work', 'working directory')
        check(ev.env == {'HOME': '/home', 'K': 'v'}, 'environment')
        check(ev.pid == 'pid1', 'pid')
        check(ev.action is a and ev.execute_process_action is a, 'action')
    k = OS.started[0].kwargs
    check(k['cmd'] == ['/bin/prog', 'x'] and k['cwd'] == '/work', 'the same is spawned')
    check(k['env'] == {'HOME': '/home', 'K': 'v'}, 'in the same environment')


def d_spawn_fails():
    """A process that cannot be started: neither started nor exited, and the action completes."""
    c, loop = process_model()
    a = program()
    a.visit(c)
    OS.fails = True
    r = run_outcome(loop.tasks[0])
    check(r[0] == 'ok', 'the failure does not escape from the task')
    check(queued_kinds(c) == [], 'neither started nor exited is reported')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')


def d_bad_tty():
    """An invalid emulate_tty configuration: no process, and the action completes."""
    c, loop = process_model()
    c.launch_configurations['emulate_tty'] = pick('maybe', '')
    a = program()
    a.visit(c)
    outcome(run, loop.tasks[0])
    check(len(logs('spawn')) == 0, 'no process is started')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')


def d_tty():
    """The terminal is emulated as given, overridden by the launch configuration."""
    c, loop = process_model()
    given, conf = pick(True, False), pick(None, 'true', 'false')
    if conf is not None:
        c.launch_configurations['emulate_tty'] = conf
    a = program(emulate_tty=given)
    a.visit(c)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    want = given if conf is None else conf == 'true'
    check(OS.started[0].kwargs['emulate_tty'] == want, 'emulation')


def d_command_given():
    """The process gets the command, directory and environment prepared, empty arguments included."""
    c, loop = process_model()
    cmd = pick(['prog', '', 'x', ''], ['prog', ' ', 'a b'], ['prog'])
    with_env = pick(True, False)
    a = ExecuteLocal(process_description=Executable(
        cmd=cmd, cwd='/work', env={'A': '', 'B': ' x'} if with_env else None), log_cmd=pick(True, False))
    a.visit(c)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    got = OS.started[0].kwargs
    check(list(got['cmd']) == cmd, 'the command')
    check(got['cwd'] == '/work', 'the directory')
    check(not with_env or got['env'] == {'A': '', 'B': ' x'}, 'the environment')


def d_details():
    """While it runs the details of the action are those of its process."""
    c, loop = process_model()
    a = ExecuteLocal(process_description=Executable(cmd=['prog'], name='me', cwd='/work'))
    check(a.process_details is None, 'none before')
    a.visit(c)

    def look():
        d = a.process_details
        log('pid', d['pid'] == OS.started[0].transport.get_pid(), d['name'], d['cwd'], d['action'] is a)
        OS.started[0].exits(0)
    OS.while_running = [look]
    run(loop.tasks[0])
    got = logs('pid')[0]
    check(got[1] is True, 'its pid')
    check(got[2].startswith('me-') and got[3] == '/work' and got[4] is True, 'and the rest')


def d_shell():
    """The shell flag is handed to the process; its error output stays separate."""
    c, loop = process_model()
    sh = unknown('shell', bool)
    a = program(shell=sh)
    a.visit(c)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    check(OS.started[0].kwargs['shell'] is sh, 'shell')
    check(OS.started[0].kwargs['stderr_to_stdout'] is False, 'separate error output')


def d_twice():
    """The same action cannot be executed twice; the first process is not affected."""
    c, loop = process_model()
    a = program(respawn=pick(False, True))
    a.visit(c)
    n = len(c._event_handlers)
    f = a.get_asyncio_future()
    r = outcome(a.visit, c)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'refused')
    check(len(loop.tasks) == 1, 'no second process is scheduled')
    check(a.get_asyncio_future() is f and state_of(f) == 'pending', 'the first one stays')
    check(len(c._event_handlers) == n, 'no handler is added')


def d_during_shutdown():
    """An action visited during shutdown starts no process and does not keep the run alive."""
    c, loop = process_model()
    c._set_is_shutdown(True)
    a = program()
    a.visit(c)
    check(len(loop.tasks) == 0, 'nothing is scheduled')
    check(a.get_asyncio_future() is None, 'there is nothing to wait for')
    check(len(c._event_handlers) == 0, 'no handler is registered')


def d_setup_fails():
    """If the action cannot be set up no handler of it stays behind."""
    c, loop = process_model()
    stub('launch.logging.get_output_loggers', fail_loggers)
    a = program()
    r = outcome(a.visit, c)
    check(r[0] == 'raise' and isinstance(r[1], UserError), 'the error is reported')
    check(len(c._event_handlers) == 0, 'no handler stays registered')
    check(len(loop.tasks) == 0, 'no process is scheduled')


def fail_loggers(name, conf):
    raise UserError('bad output')


def d_on_exit():
    """The exit actions run exactly once, when the process has exited, for each kind of on_exit."""
    c, loop = process_model()
    given = pick('list', 'single', 'function')
    on_exit = {'list': [Probe('bye')], 'single': Probe('bye'),
               'function': lambda event, context: Probe('bye')}[given]
    a = program(on_exit=on_exit)
    a.visit(c)
    other = program(on_exit=[Probe('other')])
    other.visit(c)

    def while_running():
        deliver(c)
        check(len(logs('execute')) == 0, 'not before the exit')
        OS.started[0].exits(0)

    OS.while_running = [while_running]
    run(loop.tasks[0])
    deliver(c)
    check([x[1] for x in logs('execute')] == ['bye'], 'once, and only for this process')


def d_output_reported():
    """Everything received from the process is reported as an event, in order."""
    c, loop = process_model()
    a = program()
    a.visit(c)
    x, y = unknown('x', bytes), unknown('y', bytes)

    def talk():
        deliver(c)
        OS.started[0].protocol.on_stdout_received(x)
        OS.started[0].protocol.on_stderr_received(y)
        OS.started[0].protocol.on_stdout_received(y)
        OS.started[0].exits(0)

    stub('.decode', 'text')
    OS.while_running = [talk]
    run(loop.tasks[0])
    q = queued(c)
    check([kind(e) for e in q] == ['ProcessStdout', 'ProcessStderr', 'ProcessStdout', 'ProcessExited'],
          'output events in order, before the exit')
    check(q[0].text is x and q[1].text is y and q[2].text is y, 'with the data received')
    check(q[0].action is a and q[0].from_stdout and q[1].from_stderr, 'with their origin')


def d_return_code():
    """The return code of an action is unknown until its process ended, then that of the process."""
    c, loop = process_model()
    a = program()
    check(a.return_code is None, 'None before the start')
    check(a.process_details is None, 'no details before the start')
    code = pick(0, 3, -9)
    a.visit(c)

    def while_running():
        check(a.return_code is None, 'None while it runs')
        OS.started[0].exits(code)
    OS.while_running = [while_running]
    run(loop.tasks[0])
    check(a.return_code == code, 'that of the process')


def d_exit_of_each_kind():
    """However a process ends, its end is reported with its code, during a shutdown as well."""
    c, loop = process_model()
    a = program()
    a.visit(c)
    code = pick(0, 1, 255, -2, -6, -9, -11, -15, 3221225786)
    down = pick(True, False)

    def while_running():
        deliver(c)
        if down:
            shut_down(c)
            deliver(c)
            check(logs('close') == [], 'it is left running until it ends')
        OS.started[0].exits(code)
    OS.while_running = [while_running]
    r = run_outcome(loop.tasks[0])
    check(r[0] == 'ok', 'monitored to its end')
    q = [e for e in queued(c) if kind(e) == 'ProcessExited']
    check(len(q) == 1 and q[0].returncode == code and q[0].action is a, 'the end is reported with its code')
    check(a.return_code == code, 'which is that of the action')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action is complete')


def d_spawned_as_asked():
    """The error output stays separate with an emulated terminal and with a shell."""
    c, loop = process_model()
    tty, shell = pick(True, False), pick(True, False)
    a = program(emulate_tty=tty, shell=shell)
    a.visit(c)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    k = OS.started[0].kwargs
    check(k['stderr_to_stdout'] is False, 'separate')
    check(k['emulate_tty'] is tty and k['shell'] is shell, 'as asked')


def d_on_exit_function():
    """A function given for the exit is told of it, with the code, and what it returns is visited; it may return nothing."""
    c, loop = process_model()
    nothing = pick(True, False)

    def bye(event, context):
        log('bye', event.returncode, context is c, event.action is a)
        return None if nothing else [Probe('1'), Probe('2')]
    a = program(on_exit=bye)
    a.visit(c)
    code = unknown('code', int)
    OS.while_running = [lambda: OS.started[0].exits(code)]
    run(loop.tasks[0])
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    check(len(logs('bye')) == 1, 'called once')
    check(logs('bye')[0][1] == code and logs('bye')[0][2] and logs('bye')[0][3], 'told of the exit')
    check([x[1] for x in logs('execute')] == ([] if nothing else ['1', '2']), 'what it returns is visited')


def d_several_processes():
    """Each of several processes is reported for itself, however their ends interleave."""
    c, loop = process_model()
    a, b = program(), program()
    a.visit(c)
    b.visit(c)
    x, y = unknown('x', int), unknown('y', int)
    order = pick('a first', 'b first')

    def second():
        check(state_of(a.get_asyncio_future()) == 'pending', 'both are pending')
        check(state_of(b.get_asyncio_future()) == 'pending', 'both of them')
        OS.started[1].exits(y)

    def first():
        OS.while_running = [second]
        run(loop.tasks[1 if order == 'a first' else 0])
        check(state_of((b if order == 'a first' else a).get_asyncio_future()) == 'done', 'the one which ended is done')
        check(state_of((a if order == 'a first' else b).get_asyncio_future()) == 'pending', 'the other is not')
        OS.started[0].exits(x)
    OS.while_running = [first]
    run(loop.tasks[0 if order == 'a first' else 1])
    q = [e for e in queued(c) if kind(e) == 'ProcessExited']
    check(len(q) == 2, 'each end is reported')
    w = [b, a] if order == 'a first' else [a, b]
    check(q[0].action is w[0] and q[0].returncode == y and q[1].action is w[1] and q[1].returncode == x, 'with its code')
    check(q[0].pid != q[1].pid and q[0].process_name != q[1].process_name, 'they can be told apart')
