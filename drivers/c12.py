"""Shutting a process down: SIGINT, then SIGTERM, then SIGKILL, until it ends."""
from launch.events import matches_action

from drv.proc import *


def running(*steps, context=None, action=None, **kwargs):
    """A started process; the steps happen while it runs. -> (context, loop, action)"""
    c, loop = context or process_model()
    a = action or program(**kwargs)
    a.visit(c)
    OS.while_running = [lambda: run_steps(c, loop, a, steps)]
    r = run_outcome(loop.tasks[0])
    check(r[0] == 'ok', 'the process is monitored to its end')
    check(state_of(a.get_asyncio_future()) == 'done', 'and the action completes')
    return c, loop, a


def run_steps(c, loop, a, steps):
    deliver(c)
    for step in steps:
        step(c, loop, a)
    OS.started[0].exits(-2)


def stop(c, loop, a):
    """Some way of asking for the end of this process."""
    way = pick('event', 'shutdown', 'both')
    if way in ('event', 'both'):
        process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
    if way in ('shutdown', 'both'):
        shut_down(c)
    deliver(c)


def fire_timers(n):
    def step(c, loop, a):
        for task in loop.tasks[1:1 + n]:
            run(task)
            deliver(c)
    return step


def d_interrupt_first():
    """A process asked to stop gets SIGINT, once, at once, and nothing else while it reacts."""
    def look(c, loop, a):
        check(signals() == [signal.SIGINT], 'one SIGINT, at once')
        check(len(loop.tasks) == 3, 'two timers are started')
        check(len(logs('delay')) == 0, 'that have not elapsed')
    c, loop, a = running(stop, look)
    for task in loop.tasks[1:]:
        run(task)
    deliver(c)
    check(signals() == [signal.SIGINT], 'nothing more is sent after its end')


def d_escalation():
    """A process that ignores SIGINT gets SIGTERM, then SIGKILL."""
    n = pick(0, 1, 2)
    c, loop, a = running(stop, fire_timers(n))
    want = [signal.SIGINT, signal.SIGTERM, 'KILL'][:n + 1]
    check(signals() == want, 'in that order, as long as it runs')
    check([x[1] for x in logs('delay')] == [5.0, 10.0][:n], 'after the default timeouts')
    for task in loop.tasks[1 + n:]:
        run(task)
    deliver(c)
    check(signals() == want, 'nothing after its end')


def d_timers_end():
    """Once the process ended, its timers are cancelled: they neither fire nor keep the run alive."""
    c, loop, a = running(stop)
    for task in loop.tasks[1:]:
        run(task)
    deliver(c)
    check(queued_kinds(c) == [], 'no event is left')
    check('TimerEvent' not in [kind(e) for e in seen_events()], 'no timer fired')


def d_timer_race():
    """A timer that elapses just as the process ends sends nothing to it."""
    def elapse(c, loop, a):
        k = pick(1, 2)
        run(loop.tasks[k])
        check(queued_kinds(c) == ['TimerEvent'], 'the timer elapsed')
    c, loop, a = running(stop, elapse)
    n = len(signals())
    deliver(c)
    check(len(signals()) == n, 'no signal after the end of the process')


def d_signal_race():
    """A signal already queued when the process ends is dropped without an error."""
    def queue_signal(c, loop, a):
        c.emit_event_sync(SignalProcess(signal_number=pick(signal.SIGTERM, 'SIGKILL', signal.SIGINT),
                                        process_matcher=matches_action(a)))
    c, loop, a = running(queue_signal)
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    check(signals() == [], 'nothing is sent')


def d_gone():
    """A process that vanished before its end was noticed: no error."""
    def vanish(c, loop, a):
        OS.started[0].transport.gone = True
        c.emit_event_sync(SignalProcess(signal_number=pick(signal.SIGTERM, 'SIGKILL', signal.SIGINT),
                                        process_matcher=matches_action(a)))
        r = outcome(deliver, c)
        check(r[0] == 'ok', 'no error')
    running(vanish)


def d_timeouts_configured():
    """The escalation follows the timeouts given or configured; the second counts from the first."""
    c, loop = process_model()
    way = pick('given', 'configured', 'late', 'default')
    kw = {}
    if way == 'given':
        kw = {'sigterm_timeout': '1.5', 'sigkill_timeout': '2'}
    elif way == 'configured':
        c.launch_configurations['sigterm_timeout'] = '1.5'
        c.launch_configurations['sigkill_timeout'] = '2'

    def late(c, loop, a):
        if way == 'late':
            c.launch_configurations['sigterm_timeout'] = '1.5'
            c.launch_configurations['sigkill_timeout'] = '2'

    running(late, stop, fire_timers(2), context=(c, loop), action=program(**kw))
    want = [5.0, 10.0] if way == 'default' else [1.5, 3.5]
    check([x[1] for x in logs('delay')] == want, 'SIGTERM after the first, SIGKILL after both')


def d_sigint_from_terminal():
    """When the terminal already interrupted the process, SIGINT is not sent a second time."""
    interactive = pick(True, False)
    c, loop = process_model(noninteractive=not interactive)

    def interrupted(c, loop, a):
        shut_down(c, due_to_sigint=True)
        deliver(c)
        want = [] if interactive else [signal.SIGINT]
        check(signals() == want, 'SIGINT exactly when the terminal did not send it')
        check(len(loop.tasks) == 3, 'the escalation is scheduled in any case')

    running(interrupted, fire_timers(2), context=(c, loop))
    check(signals()[-2:] == [signal.SIGTERM, 'KILL'], 'and carried out')


def d_escalation_survives_shutdown():
    """The shutdown of the launch does not cancel the escalation of a process already stopping."""
    def first(c, loop, a):
        process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
        deliver(c)
        shut_down(c)
        deliver(c)
        check(signals() == [signal.SIGINT], 'SIGINT is sent once')
        check(len(loop.tasks) == 3, 'there is one escalation')
    running(first, fire_timers(2))
    check(signals() == [signal.SIGINT, signal.SIGTERM, 'KILL'], 'carried out completely')


def d_stop_before_start():
    """A process asked to stop while it is being started is stopped as soon as it runs."""
    c, loop = process_model()
    a = program()
    a.visit(c)
    when = pick('before', 'while spawning')
    if when == 'before':
        stop(c, loop, a)
        check(signals() == [], 'nothing to signal yet')
    else:
        OS.while_spawning = lambda: stop(c, loop, a)

    def while_running():
        deliver(c)
        check(signals() == [signal.SIGINT], 'SIGINT is sent, once, when it has started')
        fire_timers(2)(c, loop, a)
        check(signals() == [signal.SIGINT, signal.SIGTERM, 'KILL'], 'and the escalation follows')
        OS.started[0].exits(-2)

    OS.while_running = [while_running]
    r = run_outcome(loop.tasks[0])
    check(r[0] == 'ok', 'the process is monitored to its end')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')


def d_stop_but_never_starts():
    """A process asked to stop that then cannot be started: the action completes."""
    c, loop = process_model()
    a = program()
    a.visit(c)
    stop(c, loop, a)
    OS.fails = True
    r = run_outcome(loop.tasks[0])
    deliver(c)
    check(r[0] == 'ok', 'no error')
    check(signals() == [], 'nothing is sent')
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')


def d_stop_after_end():
    """Asking a process to stop after its end changes nothing."""
    c, loop, a = running()
    deliver(c)
    n = len(loop.tasks)
    r = outcome(stop, c, loop, a)
    check(r[0] == 'ok', 'no error')
    check(signals() == [] and len(loop.tasks) == n, 'nothing is sent or scheduled')


def d_only_addressed():
    """Only the processes an event is meant for are stopped or signalled."""
    c, loop = process_model()
    a, b = program(), program()
    a.visit(c)
    b.visit(c)
    which = pick('a', 'b', 'none', 'both')
    what = pick('stop', 'signal')
    hit = {'a': [a], 'b': [b], 'none': [], 'both': [a, b]}[which]

    def second():
        deliver(c)
        matcher = lambda action: action in hit
        if what == 'stop':
            process_event(c, ShutdownProcess(process_matcher=matcher))
        else:
            process_event(c, SignalProcess(signal_number='SIGINT', process_matcher=matcher))
        deliver(c)
        got = [x[1] for x in logs('signal')]
        want = [p for p, x in (('pid1', a), ('pid2', b)) if x in hit]
        check(sorted(got) == want, 'the addressed ones and no other')
        OS.started[1].exits(0)

    def first():
        OS.while_running = [second]
        run(loop.tasks[1])
        OS.started[0].exits(0)

    OS.while_running = [first]
    run(loop.tasks[0])


def d_escalation_only_own():
    """The timers of one process signal this process only."""
    c, loop = process_model()
    a, b = program(), program()
    a.visit(c)
    b.visit(c)

    def second():
        deliver(c)
        process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
        deliver(c)
        for task in loop.tasks[2:]:
            run(task)
            deliver(c)
        check([x[1] for x in logs('signal')] == ['pid1', 'pid1', 'pid1'], 'the other is spared')
        OS.started[1].exits(0)

    def first():
        OS.while_running = [second]
        run(loop.tasks[1])
        OS.started[0].exits(0)

    OS.while_running = [first]
    run(loop.tasks[0])


def d_signal_number():
    """The signal requested is the signal sent."""
    num = pick(signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, 'SIGKILL', signal.SIGKILL, signal.SIGQUIT,
               signal.SIGHUP, signal.SIGABRT, signal.SIGSTOP, signal.SIGCONT)

    def send(c, loop, a):
        process_event(c, SignalProcess(signal_number=num, process_matcher=matches_action(a)))
        want = 'KILL' if num == 'SIGKILL' or num == signal.SIGKILL else num
        check(signals() in ([want], [num]), 'and nothing else')
    running(send)


def d_signal_too_early():
    """A signal for a process that has not started is an error, not a silent loss."""
    c, loop = process_model()
    a = program()
    a.visit(c)
    r = outcome(process_event, c,
                SignalProcess(signal_number='SIGINT', process_matcher=matches_action(a)))
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'refused')


def d_windows():
    """Where processes cannot be interrupted they are terminated instead."""
    stub('platform.system', 'Windows')
    how = pick('stop', 'SIGINT', signal.SIGINT, signal.SIGTERM, 'SIGKILL')

    def send(c, loop, a):
        if how == 'stop':
            process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
            deliver(c)
        else:
            process_event(c, SignalProcess(signal_number=how, process_matcher=matches_action(a)))
        got = signals()
        check(len(got) == 1, 'one signal')
        want = 'KILL' if how == 'SIGKILL' else signal.SIGTERM
        check(got[0] == want or got[0] == 'SIGTERM', 'never SIGINT')
    running(send)


def d_matchers():
    """A process can be addressed by its pid, its name or the end of its executable; one not started by none of them."""
    from launch.events.process import matches_executable
    from launch.events.process import matches_name
    from launch.events.process import matches_pid
    c, loop = process_model()
    a = ExecuteProcess(cmd=['/bin/prog', 'x'], name='one')
    b = ExecuteProcess(cmd=['/bin/other', 'prog'], name='two')
    matcher, hits = pick(
        ('pid1', [True, False]), ('pid2', [False, True]), ('none', [False, False]),
        ('name1', [True, False]), ('name2', [False, True]), ('base', [False, False]),
        ('prog', [True, False]), ('/bin/prog', [True, False]), ('other', [False, True]),
        ('x', [False, False]), ('/bin', [False, False]), ('r', [False, True]))
    a.visit(c)
    b.visit(c)

    def chosen():
        if matcher in ('pid1', 'pid2', 'none'):
            return matches_pid({'pid1': a.process_details['pid'], 'pid2': b.process_details['pid'], 'none': 'no'}[matcher])
        if matcher in ('name1', 'name2', 'base'):
            return matches_name({'name1': a.name, 'name2': b.name, 'base': 'one'}[matcher])
        return matches_executable(matcher)

    def second():
        deliver(c)
        m = chosen()
        check([bool(m(a)), bool(m(b))] == hits, 'exactly these')
        process_event(c, SignalProcess(signal_number='SIGINT', process_matcher=m))
        deliver(c)
        check([x[1] for x in logs('signal')] == [p for p, hit in zip(['pid1', 'pid2'], hits) if hit], 'and they get it')
        OS.started[1].exits(0)

    def first():
        OS.while_running = [second]
        run(loop.tasks[1])
        OS.started[0].exits(0)

    OS.while_running = [first]
    run(loop.tasks[0])
    must_cover('matched')
    cover('matched')


def d_matchers_unstarted():
    """A process that has not been started yet matches no pid, name or executable."""
    from launch.events.process import matches_executable
    from launch.events.process import matches_name
    from launch.events.process import matches_pid
    a = ExecuteProcess(cmd=['/bin/prog', 'x'], name='one')
    m = pick(matches_pid(0), matches_pid(None), matches_name('one'), matches_name(None), matches_executable('prog'),
             matches_executable(''))
    r = outcome(m, a)
    check(r[0] == 'ok' and not r[1], 'no match, no error')


def d_not_killed_otherwise():
    """A process asked to stop at any time is ended by signals only, in their order."""
    c, loop = process_model()
    a = program()
    a.visit(c)
    when = pick('before', 'while spawning', 'at once', 'later')
    if when == 'before':
        stop(c, loop, a)
    elif when == 'while spawning':
        OS.while_spawning = lambda: stop(c, loop, a)

    def while_running():
        if when == 'at once':
            stop(c, loop, a)
        deliver(c)
        if when == 'later':
            stop(c, loop, a)
            deliver(c)
        check(signals() == [signal.SIGINT], 'SIGINT first')
        check(logs('close') == [], 'nothing else ends it')
        OS.started[0].exits(0)
    OS.while_running = [while_running]
    run(loop.tasks[0])
    check(state_of(a.get_asyncio_future()) == 'done', 'the action completes')
