"""A run is shut down at most once, whoever asks for it, and signals lead to it."""
import signal

from launch.actions import EmitEvent
from launch.actions import Shutdown as ShutdownAction
from launch.event_handlers import OnShutdown
from launch.events import Shutdown

from drv.svc import *

SIGINT, SIGTERM, SIGQUIT = signal.SIGINT, signal.SIGTERM, signal.SIGQUIT


def complete(future):
    def act():
        log('world completes')
        set_state(future, 'done', None)
    return act


def include(service, *entities):
    service.include_launch_description(described(*entities))


def shutdowns():
    """The Shutdown events emitted so far."""
    return [x[1] for x in logs('enqueue') if isinstance(x[1], Shutdown)]


def bye(service):
    service.context.register_event_handler(OnShutdown(
        on_shutdown=lambda event, context: [Probe('bye')]))


def d_idle_once():
    """The automatic shutdown emits exactly one shutdown event, not caused by SIGINT."""
    s = make_service()
    include(s, Probe('a'))
    bye(s)
    serve(s)
    check(len(shutdowns()) == 1, 'one shutdown event')
    check(shutdowns()[0].due_to_sigint is False, 'not marked as SIGINT')
    check([x[1] for x in logs('execute')] == ['a', 'bye'], 'handlers run once')


def d_shutdown_requests():
    """Any mix of requests emits one shutdown event; the handlers run once."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))
    bye(s)

    def request(name):
        def act():
            log('request', name)
            if name == 'sigint':
                Signals.current.handlers[SIGINT](SIGINT)
            elif name == 'sync':
                s.shutdown(force_sync=True)
            elif name == 'async':
                r = s.shutdown()
                if r is not None:
                    run(r)
        return act
    first, second = pick(('sigint', 'sigint'), ('sigint', 'sync'), ('sync', 'sigint'),
                         ('sync', 'sync'), ('async', 'sync'), ('sync', 'async'),
                         ('async', 'async'), ('async', 'sigint'), ('sigint', 'async'))
    together = pick(True, False)

    def both():
        request(first)()
        request(second)()
    World.stimuli = [both, complete(f)] if together else [
        request(first), request(second), complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'the run ends with zero')
    check(len(shutdowns()) == 1, 'one shutdown event')
    check([x[1] for x in logs('execute')] == ['a', 'bye'], 'the handlers run once')
    check(shutdowns()[0].due_to_sigint is (first == 'sigint'), 'it is marked as SIGINT iff it is')
    check(s.context.is_shutdown, 'the context knows')


def d_shutdown_action():
    """After the shutdown event of an action was handled, further requests emit nothing."""
    s = make_service()
    f = pin(new_future())
    reason = 'because'
    include(s, Probe('a', future=f), ShutdownAction(reason=reason))
    bye(s)

    def again():
        check(s.context.is_shutdown, 'the context knows of it')
        s.shutdown(force_sync=True)
    World.stimuli = [again, complete(f)]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'the run ends with zero')
    check(len(shutdowns()) == 1, 'one shutdown event')
    check(shutdowns()[0].reason == reason, 'with the reason given')
    check(len([x for x in logs('execute') if x[1] == 'bye']) == 1, 'the handlers run once')


def d_first_sigint():
    """SIGINT is acted upon immediately (no waiting in the handler), marked as SIGINT."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))

    def sigint():
        r = Signals.current.handlers[SIGINT](SIGINT)
        check(len(shutdowns()) == 1, 'the event is queued when the handler returns')
        check(shutdowns()[0].due_to_sigint is True, 'marked as SIGINT')
        check(s.context.is_shutdown, 'the context is shut down')
        check(r is None, 'nothing is left to await')
    World.stimuli = [sigint, complete(f)]
    serve(s)


def d_term_cancels():
    """SIGTERM and SIGQUIT cancel the run task, they do not pretend an orderly shutdown."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))
    signum = pick(SIGTERM, SIGQUIT)
    stub('.call_soon', call_soon)
    stub('.call_soon_threadsafe', call_soon)

    def term():
        check(state_of(TASK) == 'pending', 'not cancelled before')
        Signals.current.handlers[signum](signum)
        check(state_of(TASK) == 'cancelled', 'the run task is cancelled')
        check(len(shutdowns()) == 0, 'no shutdown event')
        raise asyncio.CancelledError()
    World.stimuli = [term]
    r = serve(s)
    check(r[0] == 'ok' and r[1] != 0, 'the run returns non-zero')


def call_soon(loop, callback, *args, **kwargs):
    log('scheduled')
    callback(*args)


def d_signals_handled():
    """The three signals are handled during the run, before the first event is processed."""
    s = make_service()

    class Peek(Probe):
        def execute(self, context):
            for n in (SIGINT, SIGTERM, SIGQUIT):
                check(n in Signals.current.handlers and
                      Signals.current.handlers[n] is not None, 'handled while running')
            check(len(logs('signals on')) == 1 and len(logs('signals off')) == 0, 'in the run')
    include(s, Peek('a'))
    serve(s)
    check(len(logs('signals on')) == 1 and len(logs('signals off')) == 1, 'entered and left once')


def d_not_running():
    """A shutdown request without a run does nothing at all."""
    s = make_service()
    r = s.shutdown(force_sync=pick(True, False))
    check(r is None, 'nothing to await')
    check(len(shutdowns()) == 0, 'no event')
    include(s, Probe('a'))
    q = serve(s)
    check([x[1] for x in logs('execute')] == ['a'], 'a later run is not affected')
    check(q[0] == 'ok' and q[1] == 0, 'it ends normally')


def d_failure_once():
    """Several failures shut the run down once."""
    s = make_service()
    f = pin(new_future())
    g = pin(new_future())
    include(s, Probe('a', future=f), Probe('b', future=g))
    bye(s)

    def fail_both():
        f.set_exception(UserError('f'))
        g.set_exception(UserError('g'))

    def fail_f():
        f.set_exception(UserError('f'))

    def fail_g():
        g.set_exception(UserError('g'))
    World.stimuli = [fail_both] if pick(True, False) else [fail_f, fail_g]
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 1, 'the run returns 1')
    check(len(shutdowns()) == 1, 'one shutdown event')
    check([x[1] for x in logs('execute')] == ['a', 'b', 'bye'], 'the handlers run once')


def d_second_run():
    """A later run can be shut down again, and starts without being shut down."""
    s = make_service()
    include(s, Probe('a'))
    serve(s)

    class Peek(Probe):
        def execute(self, context):
            check(context.is_shutdown is False, 'the second run is not shut down from the start')
    include(s, Peek('b'))
    bye(s)
    r = serve(s)
    check(r[0] == 'ok' and r[1] == 0, 'the second run ends normally')
    check(len(shutdowns()) == 2, 'one shutdown event per run')
    check([x[1] for x in logs('execute')] == ['a', 'bye'], 'the handlers run once')


def d_on_shutdown_handler():
    """OnShutdown reacts to shutdown events only, with the entities or the callable given."""
    c = make_context()
    form = pick('callable', 'entities')
    h = OnShutdown(on_shutdown=(lambda e, c: [Probe('x')]) if form == 'callable' else [Probe('x')])
    e = Shutdown(reason='r')
    check(h.matches(e), 'matches a shutdown')
    check(not h.matches(Ping()), 'matches nothing else')
    r = h.handle(e, c)
    check(len(r) == 1 and r[0].tag == 'x', 'gives the entities')
    check(c.locals.event is e, 'the event is available')


def d_second_run_requested():
    """However a run ended, the next one can be shut down in every way again."""
    s = make_service()
    f = pin(new_future())
    g = pin(new_future())
    include(s, Probe('a', future=f))
    bye(s)
    World.before = 0
    ways = ('sigint', 'sync', 'async', 'failure', 'action', 'term')
    one, two = pick(*ways), pick('sigint', 'sync', 'async')
    stub('.call_soon', call_soon)
    stub('.call_soon_threadsafe', call_soon)

    def ask(way, future):
        def act():
            if way == 'sigint':
                Signals.current.handlers[SIGINT](SIGINT)
            elif way == 'sync':
                s.shutdown(force_sync=True)
            elif way == 'async':
                r = s.shutdown()
                if r is not None:
                    run(r)
            elif way == 'failure':
                future.set_exception(UserError('x'))
            if way in ('sigint', 'sync', 'async'):
                check(s.context.is_shutdown and len(shutdowns()) > World.before, 'it shuts down at once')
            elif way == 'action':
                s.context.emit_event_sync(Shutdown(reason='own'))
            elif way == 'term':
                raise asyncio.CancelledError()
        return act
    World.stimuli = [ask(one, f)] + ([] if one in ('failure', 'term') else [complete(f)])
    r = serve(s)
    check(r[0] == 'ok' and r[1] == (1 if one in ('failure', 'term') else 0), 'the first run ends')
    n = len(shutdowns())
    check(n == (0 if one == 'term' else 1), 'one shutdown event, unless it was cancelled')
    if f is not None and one == 'term':
        set_state(f, 'done', None)
    check(not s.event_loop, 'not running')
    include(s, Probe('b', future=g))
    World.before = n
    before = len(logs('execute'))
    World.stimuli = [ask(two, g), ask(two, g), complete(g)]
    r = serve(s)
    check(r == ('ok', 0), 'the second run ends')
    check(len(shutdowns()) == n + 1, 'one shutdown event')
    check(shutdowns()[-1].due_to_sigint is (two == 'sigint'), 'of this kind')
    check([x[1] for x in logs('execute')][before:][0] == 'b', 'it did something')
    check(len(logs('signals on')) == 2 and len(logs('signals off')) == 2, 'with its own signal handlers')


def d_term_any_time():
    """SIGTERM and SIGQUIT cancel the run also when it is being shut down already."""
    s = make_service()
    f = pin(new_future())
    include(s, Probe('a', future=f))
    signum = pick(SIGTERM, SIGQUIT)
    way = pick('sigint', 'sync', 'nothing')
    stub('.call_soon', call_soon)
    stub('.call_soon_threadsafe', call_soon)

    def before():
        if way == 'sigint':
            Signals.current.handlers[SIGINT](SIGINT)
        elif way == 'sync':
            s.shutdown(force_sync=True)

    def term():
        Signals.current.handlers[signum](signum)
        check(state_of(TASK) == 'cancelled', 'the run task is cancelled')
        raise asyncio.CancelledError()
    World.stimuli = [before, term] if way != 'nothing' else [term]
    r = serve(s)
    check(r[0] == 'ok' and r[1] != 0, 'the run returns non-zero')


def d_however_made():
    """How a service was made makes no difference to the signals and what they do."""
    kw = pick({}, {'noninteractive': True}, {'noninteractive': False}, {'debug': True}, {'argv': ['a:=b']})
    s = make_service(**kw)
    f = pin(new_future())
    include(s, Probe('a', future=f))
    idle = pick(True, False)

    def sigint():
        for n in (SIGINT, SIGTERM, SIGQUIT):
            check(n in Signals.current.handlers, 'handled')
        Signals.current.handlers[SIGINT](SIGINT)
        check(len(shutdowns()) == 1 and shutdowns()[0].due_to_sigint is True, 'marked as SIGINT')

    def more():
        Signals.current.handlers[SIGINT](SIGINT)
        check(len(shutdowns()) == 1, 'once')
    World.stimuli = [sigint, more, complete(f)]
    r = serve(s, shutdown_when_idle=idle)
    check(r == ('ok', 0), 'the run ends')
    check(len(shutdowns()) == 1, 'one shutdown event')


def d_sigint_before_anything():
    """SIGINT that arrives before the first event is processed, or while one is, is not lost."""
    s = make_service()

    class Now(Probe):
        def execute(self, context):
            log('execute', self.tag)
            Signals.current.handlers[SIGINT](SIGINT)
            check(context.is_shutdown, 'known at once')
    include(s, Now('a'), Probe('b'))
    bye(s)
    r = serve(s)
    check(r == ('ok', 0), 'the run ends')
    check([x[1] for x in logs('execute')] == ['a', 'b', 'bye'], 'the handlers run once')
    check(len(shutdowns()) == 1, 'one shutdown event')
