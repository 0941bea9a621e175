"""Actions that call back or emit: the function, the coroutine, the event, the message."""
from launch import LaunchDescription
from launch.actions import EmitEvent
from launch.actions import LogInfo
from launch.actions import OpaqueCoroutine
from launch.actions import OpaqueFunction
from launch.actions import RegisterEventHandler
from launch.actions import SetLaunchConfiguration
from launch.actions import Shutdown
from launch.actions import UnregisterEventHandler
from launch.event_handler import EventHandler
from launch.event_handlers import OnShutdown
from launch.substitutions import LaunchConfiguration

from drv.fe import *
from drv.proc import *


def called(*args, **kwargs):
    log('called', args, kwargs)
    return Called.result


class TaskLoop(Loop):
    """The tasks of this loop can be run and cancelled."""

    def create_task(self, coro, **kwargs):
        task = TaskOf(coro)
        self.tasks.append(task)
        return task


class TaskOf:
    """asyncio.Task"""

    def __init__(self, coro):
        self.coro = coro
        self.state = 'pending'

    def cancel(self, *args, **kwargs):
        if self.state != 'pending':
            return False
        self.state = 'cancelled'
        return True

    def done(self):
        return self.state != 'pending'

    def cancelled(self):
        return self.state == 'cancelled'

    def add_done_callback(self, fn, **kwargs):
        pass

    def go(self):
        run(self.coro)
        self.state = 'done'


def task_model():
    c, _ = process_model()
    loop = TaskLoop()
    c._set_asyncio_loop(loop)
    return c, loop


class Called:
    result = None
    now = None


def d_function():
    """The function is called once per visit, with the context, then the arguments."""
    c, loop = process_model()
    how = pick('nothing', 'positional', 'keywords', 'both')
    a, k = thing('argument'), thing('keyword')
    kwargs = {}
    if how in ('positional', 'both'):
        kwargs['args'] = [a, 2]
    if how in ('keywords', 'both'):
        kwargs['kwargs'] = {'k': k}
    Called.result = pick(None, [Probe('x')])
    action = OpaqueFunction(function=called, **kwargs)
    check(len(logs('called')) == 0, 'not at construction')
    visits = pick(1, 2)
    for i in range(visits):
        got = action.visit(c)
        check((got or None) is Called.result, 'what it returns is visited next')
    check(len(logs('called')) == visits, 'called once per visit')
    for call in logs('called'):
        check(call[1][0] is c, 'with the context')
        check(list(call[1][1:]) == kwargs.get('args', []), 'the arguments')
        check(call[2] == kwargs.get('kwargs', {}), 'and the keywords')


def d_function_arguments_iterator():
    """Arguments given as an iterator are passed."""
    c, loop = process_model()
    action = OpaqueFunction(function=called, args=iter([1, 2]))
    action.visit(c)
    check(list(logs('called')[0][1][1:]) == [1, 2], 'the arguments')


def d_function_refused():
    """What cannot be called, and wrong arguments, are refused at construction."""
    wrong = pick({'function': 'text'}, {'function': called, 'args': 3}, {'function': called, 'kwargs': [1]})
    r = outcome(OpaqueFunction, **wrong)
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def d_function_fails():
    """An error of the function is an error of the launch."""
    c, loop = process_model()
    r = outcome(OpaqueFunction(function=failing).visit, c)
    check(r[0] == 'raise' and isinstance(r[1], UserError), 'not swallowed')


def failing(context):
    raise UserError('x')


async def work(*args, **kwargs):
    log('called', args, kwargs)
    if Called.now is not None:
        Called.now()
    log('worked')


def d_coroutine():
    """The coroutine runs in the loop, with the context unless it is unwanted, then the arguments."""
    c, loop = task_model()
    how = pick('nothing', 'positional', 'keywords', 'both')
    plain = pick(True, False)
    kwargs = {}
    if how in ('positional', 'both'):
        kwargs['args'] = (1, 2)
    if how in ('keywords', 'both'):
        kwargs['kwargs'] = {'k': 3}
    action = OpaqueCoroutine(coroutine=work, ignore_context=plain, **kwargs)
    check(action.get_asyncio_future() is None, 'nothing to wait for before')
    ld = LaunchDescription([action])
    from launch.utilities import visit_all_entities_and_collect_futures
    futures = [f for _, f in visit_all_entities_and_collect_futures(ld, c)]
    check(len(loop.tasks) == 1, 'one task')
    check(len(futures) == 1 and futures[0] is action.get_asyncio_future(), 'the run waits for it')
    check(futures[0] is loop.tasks[0], 'for the task itself')
    check(len(logs('called')) == 0, 'it does not run before')
    loop.tasks[0].go()
    check(len(logs('called')) == 1, 'called once')
    want = list(kwargs.get('args', ()))
    if not plain:
        want = [c] + want
    check(list(logs('called')[0][1]) == want, 'with the arguments')
    check(logs('called')[0][2] == kwargs.get('kwargs', {}), 'and the keywords')
    check(futures[0].state == 'done', 'it is complete')


def d_coroutine_again():
    """Visited again, the coroutine is called again with the same arguments."""
    c, loop = task_model()
    plain = pick(True, False)
    args = pick((), (1,), ['a', 'b'])
    once = pick(True, False)
    action = OpaqueCoroutine(coroutine=work, args=iter(args) if once else args, ignore_context=plain)
    for i in range(3):
        action.visit(c)
        loop.tasks[-1].go()
    want = list(args) if plain else [c] + list(args)
    check([list(x[1]) for x in logs('called')] == [want, want, want], 'the same each time')


def d_function_again():
    """Visited again, the function is called again with the same arguments."""
    c = make_context()
    args = pick((), (1,), ['a', 'b'])
    Called.result = None
    once = pick(True, False)
    action = OpaqueFunction(function=called, args=iter(args) if once else args, kwargs={'k': 1})
    for i in range(3):
        action.visit(c)
    want = [c] + list(args)
    check([list(x[1]) for x in logs('called')] == [want, want, want], 'the same each time')
    check([x[2] for x in logs('called')] == [{'k': 1}] * 3, 'and the same keywords')


def d_coroutine_shutdown():
    """The coroutine is cancelled by the shutdown, and only by that."""
    c, loop = task_model()
    action = OpaqueCoroutine(coroutine=work)
    action.visit(c)
    c.emit_event_sync(Ping())
    deliver(c)
    f = action.get_asyncio_future()
    check(f.state == 'pending', 'other events do not matter')
    when = pick('before its end', 'after its end')
    if when == 'after its end':
        loop.tasks[0].go()
    shut_down(c)
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    check(f.state == ('cancelled' if when == 'before its end' else 'done'), 'cancelled if it still runs')


def d_coroutines_apart():
    """Every coroutine is cancelled by the shutdown."""
    c, loop = task_model()
    acts = [OpaqueCoroutine(coroutine=work), OpaqueCoroutine(coroutine=work)]
    for a in acts:
        a.visit(c)
    shut_down(c)
    deliver(c)
    for a in acts:
        check(a.get_asyncio_future().state == 'cancelled', 'each')


def d_coroutine_refused():
    """What is no coroutine function is refused at construction."""
    wrong = pick({'coroutine': called}, {'coroutine': work, 'args': 3},
                 {'coroutine': work, 'kwargs': [1]}, {'coroutine': work, 'ignore_context': 'yes'})
    r = outcome(OpaqueCoroutine, **wrong)
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def d_emit():
    """The event is queued, once per visit, and is that very event."""
    c = make_context()
    e = Ping()
    action = EmitEvent(event=e)
    check(action.event is e, 'accessible')
    check(queued(c) == [], 'not at construction')
    visits = pick(1, 2)
    for i in range(visits):
        action.visit(c)
    check([x is e for x in queued(c)] == [True] * visits, 'queued')


def d_emit_refused():
    """Only events can be emitted."""
    r = outcome(EmitEvent, event=pick('text', None, 3))
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'refused')


def d_emit_condition():
    """Nothing is emitted if the condition is false."""
    c = make_context()
    answer = pick(True, False)
    make = pick('emit', 'shutdown')
    if make == 'emit':
        EmitEvent(event=Ping(), condition=Flag(answer)).visit(c)
    else:
        Shutdown(reason='x', condition=Flag(answer)).visit(c)
    check(len(queued(c)) == (1 if answer else 0), 'only if it is true')


def d_shutdown():
    """The shutdown event is emitted once, with the reason, not due to SIGINT."""
    c = make_context()
    why = pick(None, 'why')
    inside = pick('no event', 'an event', 'the end of a process')
    action = Shutdown(reason=why) if why else Shutdown()
    if inside == 'an event':
        c.extend_locals({'event': Ping()})
    if inside == 'the end of a process':
        from launch.events.process import ProcessExited
        c.extend_locals({'event': ProcessExited(
            action=Probe('p'), name='p', cmd=['p'], cwd=None, env=None, pid=1, returncode=3)})
    r = outcome(action.visit, c)
    check(r[0] == 'ok', 'no error')
    check(queued_kinds(c) == ['Shutdown'], 'one shutdown event')
    e = queued(c)[0]
    check(e.reason == (why or 'reason not given'), 'with the reason')
    check(e.due_to_sigint is False, 'not due to SIGINT')
    check(e.name == 'launch.events.Shutdown', 'named')


def d_shutdown_reason_evaluated():
    """A reason written in a launch file is a text, evaluated when the action is executed."""
    parser = frontend()
    c = make_context()
    kind_ = pick('xml', 'yaml')
    action = parser.parse_action(entity(kind_, ('shutdown', {'reason': pick('say $(var x)', 'plain', '$(var x)')})))
    written = pick(True, False)
    text = {True: 'V', False: 'W'}[written]
    c.launch_configurations['x'] = text
    action.visit(c)
    reason = queued(c)[0].reason
    check(reason in ('say ' + text, 'plain', text), 'the text')


def d_log():
    """The message is evaluated when the action is visited, and logged once."""
    c = make_context()
    stub('.info', noted)
    c.launch_configurations['x'] = 'old'
    action = LogInfo(msg=['the ', LaunchConfiguration('x')])
    c.launch_configurations['x'] = 'new'
    check(logs('noted') == [], 'not at construction')
    action.visit(c)
    check([x[1] for x in logs('noted')] == ['the new'], 'once, evaluated')
    c.launch_configurations['x'] = 'newer'
    action.visit(c)
    check([x[1] for x in logs('noted')] == ['the new', 'the newer'], 'every time')


def d_log_verbatim():
    """The message is logged as it is, whatever characters it has."""
    c = make_context()
    stub('.info', noted)
    text = pick('', '100%', '{} %s', 'a b', ' a ', '\n', 'a\n', '\tb')
    LogInfo(msg=text).visit(c)
    check([x[1] for x in logs('noted')] == [text], 'verbatim')


def noted(self, msg, *args, **kwargs):
    log('noted', msg)
    check(len(args) == 0, 'the message is no format')


class Named(EventHandler):
    def __init__(self, tag, **kwargs):
        super().__init__(matcher=lambda event: isinstance(event, Ping), **kwargs)
        self.tag = tag

    def handle(self, event, context):
        log('handled', self.tag)
        return super().handle(event, context)


def d_register():
    """A registered handler gets the following events, until it is unregistered."""
    c = make_context()
    h = Named('h')
    c.emit_event_sync(Ping())
    deliver(c)
    check(logs('handled') == [], 'not before')
    r = RegisterEventHandler(h)
    check(r.event_handler is h, 'accessible')
    r.visit(c)
    c.emit_event_sync(Ping())
    deliver(c)
    check(len(logs('handled')) == 1, 'once')
    u = UnregisterEventHandler(h)
    check(u.event_handler is h, 'accessible')
    u.visit(c)
    c.emit_event_sync(Ping())
    deliver(c)
    check(len(logs('handled')) == 1, 'not after')
    r2 = outcome(UnregisterEventHandler(h).visit, c)
    check(r2[0] == 'raise' and isinstance(r2[1], ValueError), 'unknown handlers are an error')


def d_register_during():
    """A handler registered while an event is handled is not offered this event."""
    c = make_context()
    late = Named('late')
    early = Named('early', entities=[RegisterEventHandler(late)])
    c.register_event_handler(early)
    c.emit_event_sync(Ping())
    deliver(c)
    check([x[1] for x in logs('handled')] == ['early'], 'not this one')
    c.emit_event_sync(Ping())
    r = outcome(deliver, c)
    check('late' in [x[1] for x in logs('handled')], 'the next one')


def d_register_describes():
    """The entities of the handler are described as conditional parts of the description."""
    one = Probe('one')
    given = pick('list', 'single', 'none')
    h = EventHandler(matcher=lambda e: True, entities={'list': [one], 'single': one, 'none': None}[given])
    r = outcome(RegisterEventHandler(h).describe_conditional_sub_entities)
    check(r[0] == 'ok', 'no error')
    subs = [e for _, part in r[1] for e in part]
    check(subs == ([] if given == 'none' else [one]), 'its entities')


def d_required():
    """The action of the end of a required process shuts the launch down, once, whatever it returns."""
    c, loop = process_model()
    a = program(on_exit=Shutdown(reason='gone'))
    start(c, a)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    deliver(c)
    check([e.reason for e in seen_events() if kind(e) == 'Shutdown'] == ['gone'], 'the shutdown')


def d_coroutine_started_in_shutdown():
    """A coroutine started while the shutdown is under way is cancelled by its event as well."""
    c, loop = task_model()
    c._set_is_shutdown(True)
    action = OpaqueCoroutine(coroutine=work)
    action.visit(c)
    shut_down(c)
    deliver(c)
    check(action.get_asyncio_future().state == 'cancelled', 'cancelled')
