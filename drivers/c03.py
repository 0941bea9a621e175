"""The run ends exactly when everything is finished, and failures give a non-zero code."""
import logging

import launch.logging
from launch import EventHandler
from launch.actions import EmitEvent
from launch.actions import OpaqueCoroutine
from launch.actions import OpaqueFunction
from launch.event_handlers import OnShutdown
from launch.events import Shutdown

from drv.svc import *


def complete(future):
    def act():
        log('world completes')
        set_state(future, 'done', None)
    return act


def include(service, *entities):
    service.include_launch_description(described(*entities))


def d_empty():
    """With nothing to do the run shuts down by itself and returns zero."""
    s = make_service()
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'returns zero')
    check(len(logs('signals off')) == 1, 'signal handlers are removed')
    check(s.event_loop is None, 'the loop is released')


def d_finished_actions():
    """Once all actions are finished the run shuts down, lets shutdown handlers act, returns zero."""
    s = make_service()
    include(s, Probe('a'), Probe('b'))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'returns zero')
    check([x[1] for x in logs('execute')] == ['a', 'b', 'bye'], 'shutdown handlers run at the end')


def d_waits_for_futures():
    """The run does not shut down while an action is still active."""
    s = make_service()
    f, g = pin(new_future()), pin(new_future())
    include(s, Probe('a', future=f), Probe('b', future=g))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))
    World.stimuli = [complete(g), complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'returns zero once they are done')
    tags = [x[0] if x[0] != 'execute' else x[1] for x in logs('execute', 'world completes')]
    check(tags == ['a', 'b', 'world completes', 'world completes', 'bye'],
          'shuts down only after the last action is done')


def d_waits_for_completion_futures():
    """Futures added to the context keep the run alive until they are done."""
    s = make_service()
    f = pin(new_future())

    class Adds(Probe):
        def execute(self, context):
            context.add_completion_future(f)
    include(s, Adds('a'))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))
    World.stimuli = [complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'returns zero once it is done')
    tags = [x[0] if x[0] != 'execute' else x[1] for x in logs('execute', 'world completes')]
    check(tags == ['world completes', 'bye'], 'shuts down only after it is done')


def d_shutdown_waits():
    """A shutdown while actions are active is announced at once, and awaited."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))

    def stop():
        s.shutdown(force_sync=True)
    World.stimuli = [stop, complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'returns zero')
    tags = [x[0] if x[0] != 'execute' else x[1] for x in logs('execute', 'world completes')]
    check(tags == ['a', 'bye', 'world completes'], 'announced first, returns after the action ended')


def d_events_before_end():
    """Events emitted during shutdown are still processed before the run returns."""
    s = make_service()

    def on_ping(e, c):
        log('ping')
        return None
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [EmitEvent(event=Ping())]))
    from launch import EventHandler
    s.context.register_event_handler(EventHandler(
        matcher=lambda e: isinstance(e, Ping), entities=[Probe('pong')]))
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'returns zero')
    check([x[1] for x in logs('execute')] == ['pong'], 'the late event is processed')
    check(len(queued(s.context)) == 0, 'no event is left')


def d_action_raises():
    """An exception in an action shuts everything down and gives a non-zero return code."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f), Probe('bad', fails=True), Probe('never'))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))
    World.stimuli = [complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 1, 'the run returns 1')
    check(len(logs('world completes')) == 1, 'not before what was started before has ended')
    check([x[1] for x in logs('execute')] == ['a', 'bad', 'bye'],
          'the shutdown handlers run, the entities after the failure do not')
    check(s.context.is_shutdown, 'the context knows')


def d_future_fails():
    """An exception in an asynchronous action shuts everything down, non-zero return code."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))

    def fail_it():
        f.set_exception(UserError('later'))
    World.stimuli = [fail_it]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 1, 'the run returns 1')
    check([x[1] for x in logs('execute')] == ['a', 'bye'], 'and shuts down')


def d_futures_fail():
    """Of several asynchronous actions that fail at once each is told of, and the run ends once."""
    s = make_service()
    fs = [pin(new_future()), pin(new_future()), pin(new_future())]
    include(s, Probe('a', future=fs[0]), Probe('b', future=fs[1]), Probe('c', future=fs[2]))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))
    failing = pick((0, 1), (1, 2), (0, 1, 2))

    def fail_them():
        for i in failing:
            fs[i].set_exception(UserError('broken-%d-' % i))
    World.stimuli = [fail_them] + [complete(fs[i]) for i in range(3) if i not in failing]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 1, 'the run returns 1')
    check([x[1] for x in logs('execute')] == ['a', 'b', 'c', 'bye'], 'and shuts down once')
    told = ' '.join(str(e.args[0]) for e in events('.error'))
    for i in failing:
        check('broken-%d-' % i in told, 'each is told of')


def d_failure_waits():
    """After a failure the run still waits for what is active (processes must be reaped)."""
    s = make_service()
    f = pin(new_future())
    g = pin(new_future())
    include(s, Probe('a', future=f), Probe('b', future=g))

    def fail_it():
        g.set_exception(UserError('later'))
    World.stimuli = [fail_it, complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 1, 'the run returns 1')
    check(len(logs('world completes')) == 1, 'not before the other action ended')


def d_handler_raises():
    """An exception in an event handler gives a non-zero return code, later events still work."""
    s = make_service()

    def bad(event, context):
        raise UserError('bad')
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))
    from launch import EventHandler
    from launch.event_handler import BaseEventHandler

    class Bad(BaseEventHandler):
        def handle(self, event, context):
            raise UserError('bad')
    s.context.register_event_handler(Bad(matcher=lambda e: isinstance(e, Ping)))
    s.emit_event(Ping())
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 1, 'the run returns 1')
    check([x[1] for x in logs('execute')] == ['bye'], 'and shuts down')


def d_keep_running():
    """With shutdown_when_idle off, being idle does not end the run; a shutdown does."""
    s = make_service()
    include(s, Probe('a'))

    def stop():
        log('stop')
        s.shutdown(force_sync=True)
    World.stimuli = [stop]
    r = serve(s, shutdown_when_idle=False)
    check(r[0] == 'ok' and r[1] == 0, 'returns zero')
    check(len(logs('stop')) == 1, 'only after the shutdown was requested')


def d_keep_running_forever():
    """With shutdown_when_idle off and no shutdown the run never returns by itself."""
    s = make_service()
    include(s, Probe('a'))
    r = serve(s, shutdown_when_idle=False)
    check(r[0] == 'raise' and isinstance(r[1], Stuck), 'still running when nothing happens')


def d_main_thread_only():
    """Running in another thread is refused before anything is done."""
    s = make_service()
    main, cur = pick((True, 0), (False, 1))
    stub('threading.current_thread', (lambda: ThreadA) if main else (lambda: ThreadB))
    stub('threading.main_thread', lambda: ThreadA)
    include(s, Probe('a'))
    r = serve(s)
    if main:
        check(r[0] == 'ok', 'the main thread may run')
    else:
        check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'refused in another thread')
        check(len(logs('execute')) == 0 and len(logs('signals on')) == 0, 'nothing was done')


class ThreadA:
    pass


class ThreadB:
    pass


def d_not_concurrent():
    """A second run while one is active is refused and leaves the first one alone."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))

    def again():
        r = serve(s)
        log('second', r[0], isinstance(r[1], RuntimeError))
        log('still', s.event_loop is not None, s.context.asyncio_loop is not None)
    World.stimuli = [again, complete(f)]
    r = serve(s)
    check(logs('second')[0][1] == 'raise' and logs('second')[0][2], 'refused')
    check(logs('still')[0][1] and logs('still')[0][2], 'the first run keeps its loop')
    check(r[0] == 'ok' and r[1] == 0, 'the first run ends normally')


def d_run_again():
    """After a run the service can be run again, events queued meanwhile are processed."""
    s = make_service()
    include(s, Probe('a'))
    serve(s)
    include(s, Probe('b'))
    check([x[1] for x in logs('execute')] == ['a'], 'not processed before the next run')
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'the second run works')
    check([x[1] for x in logs('execute')] == ['a', 'b'], 'and processes what was queued')


def d_loop_exception():
    """An exception reported to the event loop makes the run return non-zero."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))

    def report():
        hs = events('.set_exception_handler')
        check(len(hs) == 1, 'an exception handler is installed')
        hs[0].args[0](LOOP, {'message': 'oops'})
    World.stimuli = [report, complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] != 0, 'non-zero')


def d_cancelled_task():
    """A cancelled run ends with a non-zero code and releases the loop and the signal handlers."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))

    def cancel():
        raise asyncio.CancelledError()
    World.stimuli = [cancel]
    r = serve(s)
    check(r[0] == 'ok' and r[1] != 0, 'non-zero')
    check(s.event_loop is None and s.context.asyncio_loop is None, 'the loop is released')
    check(len(logs('signals off')) == 1, 'the signal handlers are removed')


def d_keyboard_interrupt():
    """KeyboardInterrupt in the loop does not end the run."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))

    def interrupt():
        raise KeyboardInterrupt()
    World.stimuli = [interrupt, complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'the run goes on to its normal end')
    check(len(logs('world completes')) == 1, 'it waited for the action')


def d_cancelled_action():
    """The cancellation of one asynchronous action does not end the run before the others."""
    s = make_service()
    f, g = pin(new_future()), pin(new_future())
    include(s, Probe('a', future=f), Probe('b', future=g))
    s.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: [Probe('bye')]))

    def cancel_it():
        f.cancel()
    World.stimuli = [cancel_it, complete(g)]
    r = serve(s)
    check(r[0] == 'ok', 'the run returns')
    check(len(logs('world completes')) == 1, 'not before the other action ended')


def d_sync_run():
    """run() gives the code of run_async(), and survives KeyboardInterrupt."""
    s = make_service()
    code = unknown('code', int)
    n = Counter()

    def until_complete(loop, task):
        n.value += 1
        if n.value == 1 and pick(True, False):
            raise KeyboardInterrupt()
        log('ran', task)
        return code
    stub('.run_until_complete', until_complete)
    r = outcome(s.run)
    check(r[0] == 'ok' and r[1] is code, 'the code is returned')
    check(len(logs('ran')) == 1 and coro_of(logs('ran')[0][1]) is not None, 'of one run_async task')
    check(len(coros()) == 1, 'only one task is created')


def d_sync_run_idle():
    """run() ends by itself when idle, unless told not to."""
    s = make_service()
    include(s, Probe('a'))
    stub('.run_until_complete', lambda loop, task: run(task))
    how = pick('default', True, False)
    r = outcome(s.run) if how == 'default' else outcome(s.run, shutdown_when_idle=how)
    check([x[1] for x in logs('execute')] == ['a'], 'everything is visited')
    if how is False:
        check(r[0] == 'raise' and isinstance(r[1], Stuck), 'still running')
    else:
        check(r == ('ok', 0), 'returns zero')


def d_asked():
    """The service passes on what it was made with: arguments, interactivity, debugging."""
    argv = pick(None, [], ['a', 'b:=c'])
    alone = pick(None, True, False)
    debug = pick(None, True, False)
    given = {k: v for k, v in (('argv', argv), ('noninteractive', alone), ('debug', debug)) if v is not None}
    s = make_service(**given)
    check(list(s.context.argv) == (argv or []), 'the arguments')
    check(bool(s.context.noninteractive) is bool(alone), 'whether there is a user')
    check(launch.logging.launch_config.level == (logging.DEBUG if debug else logging.INFO), 'the level of logging')
    include(s, Probe('a'))
    serve(s)
    on = [e for e in events('.set_debug') if e.args[0] is True]
    check(bool(on) is bool(debug), 'the loop is set up for debugging as asked')


def d_task():
    """While it runs the task and the loop of a service are known; the loop only then."""
    s = make_service()
    check(s.event_loop is None, 'no loop before')

    def look(c):
        log('look', s.event_loop, s.task)
    include(s, OpaqueFunction(function=look))
    serve(s)
    check(len(logs('look')) == 1, 'visited')
    check(logs('look')[0][1] is LOOP, 'the loop')
    check(logs('look')[0][2] is TASK, 'the task')
    check(s.event_loop is None, 'no loop after')


class Counter:
    value = 0


def d_failure_during_shutdown():
    """A failure while the run is shutting down makes it return non-zero, too; the others are still awaited."""
    s = make_service()
    f = pin(new_future())
    g = pin(new_future())
    how = pick('future', 'completion future', 'shutdown handler', 'entity of it', 'event')
    why = pick('request', 'event', 'other failure')

    def leave(event, context):
        if how == 'shutdown handler':
            raise UserError('handler')
        return [Probe('bye', fails=how == 'entity of it')]

    class Start(Probe):
        def execute(self, context):
            if how == 'completion future':
                context.add_completion_future(g)
            return super().execute(context)
    s.context.register_event_handler(OnShutdown(on_shutdown=leave))
    include(s, Start('a', future=f), Probe('b', future=g if how == 'future' else None),
            *([Probe('c', fails=True)] if why == 'other failure' else []))

    def ask():
        if why == 'request':
            s.shutdown(force_sync=True)
        elif why == 'event':
            s.context.emit_event_sync(Shutdown(reason='x'))

    def fail_it():
        if how in ('future', 'completion future'):
            g.set_exception(UserError('later'))
        elif how == 'event':
            s.context.register_event_handler(EventHandler(
                matcher=lambda e: isinstance(e, Ping), entities=[Probe('x', fails=True)]))
            s.context.emit_event_sync(Ping())
    World.stimuli = [ask, fail_it, complete(f)] if why != 'other failure' else [fail_it, complete(f)]
    r = serve(s)
    check(r == ('ok', 1), 'the run returns 1')
    check(len(logs('world completes')) == 1, 'not before the other action ended')
    if how != 'entity of it' or why != 'event':
        # (if that event does not get to everybody another one is emitted)
        check(len([x for x in logs('execute') if x[1] == 'bye']) == (0 if how == 'shutdown handler' else 1), 'shut down once')


def d_code_of_each_run():
    """The return code is that of this run: a failure in one does not make the next one fail, nor the other way round."""
    s = make_service()
    bad = [pick(True, False) for i in range(2)]
    for i in range(2):
        include(s, Probe('x', fails=bad[i]))
        r = serve(s)
        check(r == ('ok', 1 if bad[i] else 0), 'its own')
