"""Events may be emitted from any thread: nothing is lost, and nobody waits holding a lock."""
from drv.svc import *


def complete(future):
    def act():
        set_state(future, 'done', None)
    return act


OTHER = thing('loop of another thread')


def other_loop():
    assume(not (LOOP == OTHER))
    return OTHER


def no_loop():
    raise RuntimeError('no event loop in this thread')


def running(s, act):
    """Call act in another thread while the service is running."""
    f = pin(new_future())
    s.include_launch_description(described(Probe('a', future=f)))
    World.stimuli = [act, complete(f)]
    return serve(s)


def blocked():
    """Waits for the loop: (target, number of locks held) of each."""
    return [e.nlocks for e in events('.result', '.join', '.wait', '.acquire')]


def handed_over(n):
    """The last n events were queued by the loop, on behalf of a submission."""
    es = [e.name for e in events('asyncio.run_coroutine_threadsafe', '.result', 'enqueue')]
    return es[-3 * n:] == ['asyncio.run_coroutine_threadsafe', '.result', 'enqueue'] * n


def d_not_running():
    """Without a run, events are queued at once and processed by the next run, in order."""
    s = make_service()
    e, g = Ping(), Ping()
    s.emit_event(e)
    s.emit_event(g)
    check(len(coros()) == 0, 'nothing is submitted to a loop')
    q = queued(s.context)
    check(len(q) == 2 and q[0] is e and q[1] is g, 'queued in order')
    check(len(blocked()) == 0, 'nobody waits')


def d_running():
    """During a run, events are handed to the loop of the run with the thread-safe call."""
    s = make_service()
    e = Ping()

    def act():
        s.emit_event(e)
        sub = events('asyncio.run_coroutine_threadsafe')
        check(len(sub) == 1, 'submitted with run_coroutine_threadsafe, once')
        check(sub[0].args[1] is LOOP, 'to the loop of the run')
        check(sub[0].nlocks > 0, 'while the lock keeps the loop from going away')
        check(logs('enqueue')[-1][1] is e, 'the coroutine queues the event')
        check(handed_over(1), 'the queue is not touched by the calling thread')
    running(s, act)


def d_running_waits():
    """The caller waits until the event is queued, but never while holding the lock."""
    s = make_service()

    def act():
        s.emit_event(Ping())
    running(s, act)
    check(len(blocked()) == 1, 'it waits for the result of the submission')
    check(blocked() == [0], 'without holding a lock')


def d_include():
    """include_launch_description is as thread-safe as emit_event, and emits one include event."""
    s = make_service()
    d = described(Probe('x'))

    def act():
        s.include_launch_description(d)
        check(handed_over(1), 'the queue is not touched by the calling thread')
        check(logs('enqueue')[-1][1].launch_description is d, 'with the description')
    running(s, act)
    check([x[1] for x in logs('execute')] == ['a', 'x'], 'and it is visited')


def d_shutdown_other_thread():
    """shutdown() in another thread hands the event to the loop and does not wait under the lock."""
    s = make_service()
    stub_kind = pick('none', 'other')

    def act():
        stub('osrf_pycommon.process_utils.get_loop', no_loop if stub_kind == 'none' else other_loop)
        s.shutdown()
        check(handed_over(1), 'the queue is not touched by the calling thread')
        sub = events('asyncio.run_coroutine_threadsafe')
        check(len(sub) == 1 and sub[0].args[1] is LOOP, 'submitted to the loop of the run')
        stub('osrf_pycommon.process_utils.get_loop', get_loop)
    r = running(s, act)
    check(r[0] == 'ok' and r[1] == 0, 'the run ends')
    check(all([n == 0 for n in blocked()]), 'no lock is held while waiting for the loop')


def d_shutdown_in_loop():
    """shutdown() in the loop thread gives a coroutine and blocks nobody."""
    s = make_service()

    def act():
        r = s.shutdown()
        check(kind(r) == 'coroutine', 'something to await')
        check(len(blocked()) == 0, 'the loop thread never waits for itself')
        run(r)
    r = running(s, act)
    check(r[0] == 'ok' and r[1] == 0, 'the run ends')


def d_loop_under_lock():
    """The loop of the service is set and unset only while the lock is held."""
    s = make_service()
    running(s, lambda: None)
    es = [e for e in effects('setattr') if e.name.endswith('loop_from_run_thread')]
    check(all([e.nlocks > 0 for e in es[1:]]), 'after construction only under the lock')
    check(s.event_loop is None and s.context.asyncio_loop is None, 'unset at the end')
    s.emit_event(Ping())
    check(len(events('asyncio.run_coroutine_threadsafe')) == 0, 'no submission to a dead loop')


def d_queue_transfer():
    """The events queued before a run are moved to the queue of the run in order, none lost."""
    s = make_service()
    from launch import EventHandler
    a, b, c = Ping(), Ping(), Ping()
    for e in (a, b, c):
        s.emit_event(e)

    class Seen(Probe):
        def execute(self, context):
            log('seen', context.locals.event)
    s.context.register_event_handler(EventHandler(
        matcher=lambda e: isinstance(e, Ping), entities=[Seen('x')]))
    serve(s)
    x = logs('seen')
    check(len(x) == 3 and x[0][1] is a and x[1][1] is b and x[2][1] is c, 'in order')


def d_other_loop():
    """Each run may have its own event loop."""
    s = make_service()
    f = pin(new_future())
    s.include_launch_description(described(Probe('a', future=f)))
    World.stimuli = [complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'the first run ends')
    World.loop = thing('other loop')
    g = pin(new_future())
    queued_before = pick(True, False)
    if queued_before:
        s.include_launch_description(described(Probe('b', future=g)))
        World.stimuli = [complete(g)]
        r = serve(s)
    else:
        def later():
            s.include_launch_description(described(Probe('b', future=g)))
        World.stimuli = [later, complete(g), lambda: s.shutdown(force_sync=True)]
        r = serve(s, shutdown_when_idle=False)
    check(r[0] == 'ok' and r[1] == 0, 'and the second')
    check([x[1] for x in logs('execute')] == ['a', 'b'], 'in which everything is done')


def d_no_limit():
    """No number of events is too many, and no waiting for the loop is given up."""
    s = make_service(**pick({}, {'noninteractive': True}, {'debug': True}))

    def act():
        s.emit_event(Ping())
        s.include_launch_description(described())
        for e in events('.result'):
            check([x for x in e.args if x is not None] == [], 'no time limit')
            check(e.kwargs.get('timeout') is None, 'no time limit')
        check(len(events('.result')) == 2, 'waits for both')
    running(s, act)
    for x in logs('new queue'):
        check(x[2] <= 0, 'a queue without limit')
    check(len(logs('new queue')) >= 1, 'there is one')


def d_many_in_order():
    """Events emitted before and during a run are processed in the order of emission, each once."""
    s = make_service()
    from launch import EventHandler
    a, b, c, d, e = Ping(), Ping(), Ping(), Ping(), Ping()

    class Seen(Probe):
        def execute(self, context):
            log('seen', context.locals.event)
    s.context.register_event_handler(EventHandler(
        matcher=lambda e: isinstance(e, Ping), entities=[Seen('x')]))
    for x in (a, b):
        s.emit_event(x)

    def act():
        for x in (c, d):
            s.emit_event(x)

    def more():
        s.emit_event(e)
    f = pin(new_future())
    s.include_launch_description(described(Probe('a', future=f)))
    World.stimuli = [act, more, complete(f)]
    r = serve(s, shutdown_when_idle=True)
    check(r == ('ok', 0), 'the run ends')
    got = [x[1] for x in logs('seen')]
    check(len(got) == 5, 'each once')
    check([x is y for x, y in zip(got, [a, b, c, d, e])] == [True] * 5, 'in order')
    s.emit_event(a)
    serve(s)
    check(len(logs('seen')) == 6, 'one emitted after a run is processed by the next')
