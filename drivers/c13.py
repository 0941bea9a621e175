"""Respawning: a process is started again exactly while it should be."""
from launch.events import matches_action
from launch.substitutions import LaunchConfiguration

from drv.proc import *


def pump(loop):
    """Let the loop run every task in turn."""
    n = 0
    while n < len(loop.tasks):
        if n > 5:
            fail('the process is started without end')
            return
        r = run_outcome(loop.tasks[n])
        check(r[0] == 'ok', 'no task fails')
        n += 1


def ends(c, code=1, before=None):
    """The next process runs and ends by itself."""
    def while_running():
        n = len(OS.started)
        deliver(c)
        if before is not None:
            before()
        OS.started[n - 1].exits(code)
    return while_running


def d_no_respawn():
    """By default a process is started once."""
    c, loop = process_model()
    a = program(**pick({}, {'respawn': False}))
    a.visit(c)
    OS.while_running = [ends(c, unknown('code', int))]
    pump(loop)
    check(len(OS.started) == 1, 'started once')
    check(state_of(a.get_asyncio_future()) == 'done', 'complete at its end')


def d_max_retries():
    """A process is started again after each end, at most as often as allowed."""
    c, loop = process_model()
    n = pick(0, 1, 2)
    code = pick(0, 1, -2)
    a = program(respawn=True, respawn_max_retries=n)
    a.visit(c)
    f = a.get_asyncio_future()

    def pending():
        check(state_of(f) == 'pending', 'pending until the last end')
    OS.while_running = [ends(c, code, pending), ends(c, code, pending), ends(c, code, pending)]
    pump(loop)
    deliver(c)
    check(len(OS.started) == n + 1, 'started once more than the retries allowed')
    check(state_of(f) == 'done', 'complete after the last end')
    kinds = [kind(e) for e in seen_events() if kind(e) in ('ProcessStarted', 'ProcessExited')]
    check(kinds == ['ProcessStarted', 'ProcessExited'] * (n + 1), 'each start and end is reported')


def d_unlimited():
    """Without a limit a process is started again until it is stopped."""
    c, loop = process_model()
    a = program(respawn=True, **pick({}, {'respawn_max_retries': -1}))
    a.visit(c)

    def stop():
        if pick(True, False):
            process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
        else:
            shut_down(c)
        deliver(c)
        check(len(signals()) == 1, 'the running one is signalled')
        check(logs('signal')[0][1] == 'pid3', 'the one that is running')
    OS.while_running = [ends(c), ends(c), ends(c, -2, stop)]
    for n in (0, 1, 2):
        run(loop.tasks[n])
    OS.while_running = []
    check(len(OS.started) == 3, 'no more after it was stopped')
    check(state_of(a.get_asyncio_future()) == 'done', 'complete at its end')


def d_stopped():
    """A process that was asked to stop is not started again."""
    c, loop = process_model()
    a = program(respawn=True)
    a.visit(c)

    def stop():
        if pick(True, False):
            process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
        else:
            shut_down(c, due_to_sigint=pick(True, False))
    OS.while_running = [ends(c, -2, stop)]
    run(loop.tasks[0])
    check(len(OS.started) == 1, 'not started again')
    check(state_of(a.get_asyncio_future()) == 'done', 'complete at its end')


def d_ends_in_shutdown():
    """A process that ends during the shutdown of the launch is not started again."""
    c, loop = process_model()
    a = program(respawn=True)
    a.visit(c)
    OS.while_running = [ends(c, 1, lambda: c._set_is_shutdown(True))]
    run(loop.tasks[0])
    check(len(OS.started) == 1 and len(loop.tasks) == 1, 'not started again')
    check(state_of(a.get_asyncio_future()) == 'done', 'complete at its end')


def d_delay():
    """The delay is waited for before each new start, and the action stays pending meanwhile."""
    c, loop = process_model()
    delay = pick(None, 0.0, 2.5)
    a = program(respawn=True, respawn_delay=delay, respawn_max_retries=2)
    a.visit(c)
    f = a.get_asyncio_future()

    def while_delayed():
        check(state_of(f) == 'pending', 'pending during the delay')
        check(len(OS.waited) == 1, 'only the shutdown cuts the delay short')
    OS.while_delayed = while_delayed
    OS.while_running = [ends(c), ends(c), ends(c)]
    pump(loop)
    want = [2.5, 2.5] if delay else []
    check([x[1] for x in logs('delay')] == want, 'the delay, before every new start')
    check(len(OS.started) == 3, 'then it is started')


def d_stop_in_delay():
    """Asked to stop during the delay: the delay is cut short and there is no new start."""
    c, loop = process_model()
    a = program(respawn=True, respawn_delay=60.0)
    a.visit(c)

    def while_delayed():
        check(state_of(OS.waited[0]) == 'pending', 'it waits')
        w = OS.waited[0]
        way = pick('stop', 'shutdown', 'both')
        if way in ('stop', 'both'):
            process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
        if way in ('shutdown', 'both'):
            shut_down(c)
        check(state_of(w) == 'done', 'the delay is cut short')
        OS.while_delayed = None
    OS.while_delayed = while_delayed
    OS.while_running = [ends(c)]
    r = run_outcome(loop.tasks[0])
    check(r[0] == 'ok', 'no error')
    deliver(c)
    check(len(OS.started) == 1, 'there is no new start')
    check(signals() == [], 'nothing is signalled')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')


def d_stop_while_respawning():
    """Asked to stop between two starts: the new process is stopped as soon as it runs."""
    c, loop = process_model()
    a = program(respawn=True)
    a.visit(c)
    way = pick('stop', 'shutdown')

    def stop():
        if way == 'stop':
            process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
        else:
            shut_down(c)
        deliver(c)
    OS.while_running = [ends(c)]
    run(loop.tasks[0])
    check(len(loop.tasks) == 2, 'a new start is scheduled')
    when = pick('before', 'while spawning')
    if when == 'before':
        stop()
    else:
        OS.while_spawning = stop

    def second():
        deliver(c)
        check([x[1:] for x in logs('signal')] == [('pid2', signal.SIGINT)], 'the new one is interrupted')
        OS.started[1].exits(-2)
    OS.while_running = [second]
    r = run_outcome(loop.tasks[1])
    check(r[0] == 'ok', 'no error')
    check(len(OS.started) == 2, 'it is not started again')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')


def d_respawn_fails():
    """If the new start fails the action completes."""
    c, loop = process_model()
    a = program(respawn=True)
    a.visit(c)

    def then_fails():
        OS.fails = True
    OS.while_running = [ends(c, 1, then_fails)]
    pump(loop)
    check(len(logs('spawn')) == 2, 'it is tried')
    check(state_of(a.get_asyncio_future()) == 'done', 'and the action completes')


def d_respawn_substitution():
    """The respawn flag may be a substitution, evaluated when the action is executed."""
    c, loop = process_model()
    v = pick('true', 'false', '1', '0')
    a = program(respawn=LaunchConfiguration('again'), respawn_max_retries=1)
    c.launch_configurations['again'] = v
    a.visit(c)
    c.launch_configurations['again'] = 'false'
    OS.while_running = [ends(c), ends(c)]
    pump(loop)
    check(len(OS.started) == (2 if v in ('true', '1') else 1), 'as evaluated')


def d_new_transport():
    """Signals go to the process that runs now, not to an earlier one."""
    c, loop = process_model()
    a = program(respawn=True, respawn_max_retries=1)
    a.visit(c)

    def send():
        process_event(c, SignalProcess(signal_number=signal.SIGTERM, process_matcher=matches_action(a)))
        check([x[1] for x in logs('signal')] == ['pid2'], 'the second process')
    OS.while_running = [ends(c), ends(c, 0, send)]
    pump(loop)
    deliver(c)
    pids = [e.pid for e in seen_events() if kind(e) == 'ProcessStarted']
    check(pids[-1] == 'pid2', 'reported with its pid')


def d_same_program():
    """Every start runs the same command in the same environment."""
    c, loop = process_model()
    a = ExecuteProcess(cmd=['prog', LaunchConfiguration('v')], respawn=True, respawn_max_retries=1,
                       additional_env={'V': LaunchConfiguration('v')})
    c.launch_configurations['v'] = 'one'
    a.visit(c)
    c.launch_configurations['v'] = 'two'
    OS.while_running = [ends(c), ends(c)]
    pump(loop)
    check([p.kwargs['cmd'] for p in OS.started] == [['prog', 'one']] * 2, 'the command')
    check([p.kwargs['env']['V'] for p in OS.started] == ['one'] * 2, 'the environment')


def d_any_delay():
    """Every delay greater than zero is waited for."""
    c, loop = process_model()
    delay = pick(0.001, 0.5, 1.0, 1, 3600.0)
    a = program(respawn=True, respawn_delay=delay, respawn_max_retries=1)
    a.visit(c)
    OS.while_running = [ends(c), ends(c)]
    pump(loop)
    check([x[1] for x in logs('delay')] == [delay], 'that delay, once')
    check(len(OS.started) == 2, 'then it is started again')


def d_stopped_in_a_delay_of_several():
    """Asked to stop during the last of several delays: the process is not started again."""
    c, loop = process_model()
    a = program(respawn=True, respawn_delay=pick(0.1, 5.0), respawn_max_retries=pick(-1, 5))
    a.visit(c)
    how = pick('process', 'launch')
    n = pick(1, 2, 3)

    def while_delayed():
        deliver(c)
        if len(OS.started) == n:
            if how == 'process':
                process_event(c, ShutdownProcess(process_matcher=lambda action: action is a))
            else:
                shut_down(c)
            deliver(c)
    OS.while_delayed = while_delayed
    OS.while_running = [ends(c), ends(c), ends(c), ends(c), ends(c), ends(c), ends(c)]
    pump(loop)
    check(len(OS.started) == n, 'no further start')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')
    check(signals() == [], 'there was nothing to signal')
