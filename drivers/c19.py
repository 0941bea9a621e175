"""Event handlers: which events they take, what they do with them, how often."""
from launch import LaunchDescription
from launch.actions import ExecuteLocal
from launch.actions import ExecuteProcess
from launch.actions import OpaqueFunction
from launch.event_handler import BaseEventHandler
from launch.event_handler import EventHandler
from launch.event_handlers import OnExecutionComplete
from launch.event_handlers import OnIncludeLaunchDescription
from launch.event_handlers import OnProcessExit
from launch.event_handlers import OnProcessIO
from launch.event_handlers import OnProcessStart
from launch.event_handlers import OnShutdown
from launch.event_handlers import event_named
from launch.events import ExecutionComplete
from launch.events import IncludeLaunchDescription
from launch.events import Shutdown
from launch.events import matches_action
from launch.events.process import ProcessExited
from launch.events.process import ProcessStarted
from launch.events.process import ProcessStderr
from launch.events.process import ProcessStdin
from launch.events.process import ProcessStdout

from drv.proc import *

WHO = {'name': 'p', 'cmd': ['p'], 'cwd': None, 'env': None, 'pid': 1}


def event_of(kind_, action):
    if kind_ == 'start':
        return ProcessStarted(action=action, **WHO)
    if kind_ == 'exit':
        return ProcessExited(action=action, returncode=0, **WHO)
    if kind_ == 'complete':
        return ExecutionComplete(action=action)
    if kind_ == 'stdout':
        return ProcessStdout(action=action, text=b'o', **WHO)
    if kind_ == 'stderr':
        return ProcessStderr(action=action, text=b'e', **WHO)
    if kind_ == 'stdin':
        return ProcessStdin(action=action, text=b'i', **WHO)
    if kind_ == 'shutdown':
        return Shutdown(reason='x')
    return Ping()


EVENTS = ('start', 'exit', 'complete', 'stdout', 'stderr', 'stdin', 'shutdown', 'ping')


def handler_for(kind_, target=None, do=None, **kwargs):
    if kind_ == 'start':
        return OnProcessStart(target_action=target, on_start=do, **kwargs)
    if kind_ == 'exit':
        return OnProcessExit(target_action=target, on_exit=do, **kwargs)
    return OnExecutionComplete(target_action=target, on_completion=do, **kwargs)


KINDS = ('start', 'exit', 'complete')


def d_kind():
    """A handler takes the events of its kind and no others."""
    c, loop = process_model()
    a = program()
    mine, other = pick(*KINDS), pick(*EVENTS)
    h = handler_for(mine, None, Probe('x'))
    check(bool(h.matches(event_of(other, a))) is (mine == other), 'exactly its kind')


def d_io_kind():
    """An output handler takes the output events and no others."""
    c, loop = process_model()
    a = program()
    other = pick(*EVENTS)
    h = OnProcessIO(on_stdout=noted)
    check(bool(h.matches(event_of(other, a))) is (other in ('stdout', 'stderr', 'stdin')), 'exactly its kind')


def d_target():
    """A handler takes the events of its target only; of all without a target."""
    c, loop = process_model()
    a, b = program(), program()
    mine = pick(*KINDS, 'io')
    target = pick('none', 'this', 'by function', 'by matcher')
    t = {'none': None, 'this': a, 'by function': lambda action: action is a, 'by matcher': matches_action(a)}[target]
    if mine == 'io':
        h = OnProcessIO(target_action=t, on_stdout=noted)
        mine = pick('stdout', 'stderr')
    else:
        h = handler_for(mine, t, Probe('x'))
    check(bool(h.matches(event_of(mine, a))), 'of its target')
    check(bool(h.matches(event_of(mine, b))) is (target == 'none'), 'of no other')


def d_target_kinds():
    """Every action that starts a process can be the target; for completion every action."""
    c, loop = process_model()
    mine = pick(*KINDS)
    what = pick('local', 'process', 'action')
    if what == 'action':
        a = Probe('a')
    elif what == 'process':
        a = ExecuteProcess(cmd=['p'])
    else:
        a = program()
    r = outcome(handler_for, mine, a, Probe('x'))
    if what == 'action' and mine != 'complete':
        check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')
    else:
        check(r[0] == 'ok', 'accepted')


def d_refused():
    """What is no target and what is no entity is refused."""
    mine = pick(*KINDS)
    wrong = pick('target', 'item', 'items')
    if wrong == 'target':
        r = outcome(handler_for, mine, 3, Probe('x'))
    elif wrong == 'item':
        r = outcome(handler_for, mine, None, ['text'])
    else:
        r = outcome(handler_for, mine, None, [Probe('x'), None])
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def noted(event, *args):
    log('noted', event, args)
    return Answer.entities


class Answer:
    entities = None


def d_entities():
    """The entities of the handler are visited, in order, for each event, however they are given."""
    c, loop = process_model()
    mine = pick(*KINDS)
    one, two = Probe('one'), Probe('two')
    given = pick('single', 'list', 'tuple', 'iterator', 'none', 'description')
    do = {'single': one, 'list': [one, two], 'tuple': (one, two), 'iterator': None, 'none': [],
          'description': LaunchDescription([one, two])}[given]
    if given == 'iterator':
        do = iter([one, two])
    h = handler_for(mine, None, do)
    c.register_event_handler(h)
    a = program()
    times = pick(1, 2)
    for i in range(times):
        c.emit_event_sync(event_of(mine, a))
        r = outcome(process_one, c)
        check(r[0] == 'ok', 'no error')
    want = {'single': ['one'], 'none': []}.get(given, ['one', 'two'])
    check([x[1] for x in logs('execute')] == want * times, 'each, in order')


def process_one(context):
    """The next event only: what it leads to stays queued."""
    event = queued(context)[0]
    QUEUES[-1][1].items.pop(0)
    process_event(context, event)


def d_function():
    """A function of the user is called once per event, with the event and the context."""
    c, loop = process_model()
    mine = pick(*KINDS)
    one = Probe('one')
    Answer.entities = pick(None, one, [one], ())
    expected = 0 if Answer.entities is None or Answer.entities == () else 1
    c.register_event_handler(handler_for(mine, None, noted))
    e = event_of(mine, program())
    c.emit_event_sync(e)
    process_one(c)
    check(len(logs('noted')) == 1, 'called once')
    check(logs('noted')[0][1] is e, 'with the event')
    check(logs('noted')[0][2] == (c,), 'and the context')
    check(len(logs('execute')) == expected, 'what it returns is visited')


def d_event_visible():
    """The entities of the handler see the event; it is gone afterwards."""
    c, loop = process_model()
    mine = pick(*KINDS, 'shutdown', 'plain')
    if mine == 'shutdown':
        h = OnShutdown(on_shutdown=OpaqueFunction(function=look))
    elif mine == 'plain':
        h = EventHandler(matcher=lambda event: True, entities=OpaqueFunction(function=look))
    else:
        h = handler_for(mine, None, OpaqueFunction(function=look))
    c.register_event_handler(h)
    e = event_of('ping' if mine == 'plain' else mine, program())
    c.emit_event_sync(e)
    process_one(c)
    check(len(logs('looked')) == 1 and logs('looked')[0][1] is e, 'that event')
    check('event' not in c.get_locals_as_dict(), 'gone')


def look(context):
    log('looked', context.locals.event)


def d_once():
    """A handler made for one event handles one, then it is unregistered; others stay."""
    c, loop = process_model()
    mine = pick(*KINDS, 'io', 'shutdown', 'plain')
    once = pick(True, False)
    one = Probe('one')
    sent = mine
    if mine == 'shutdown':
        h = OnShutdown(on_shutdown=[one], handle_once=once)
    elif mine == 'plain':
        h = EventHandler(matcher=lambda event: isinstance(event, Ping), entities=[one], handle_once=once)
        sent = 'ping'
    elif mine == 'io':
        Answer.entities = [one]
        h = OnProcessIO(on_stdout=noted, handle_once=once)
        sent = 'stdout'
    else:
        h = handler_for(mine, None, [one], handle_once=once)
    check(h.handle_once is once, 'as given')
    c.register_event_handler(h)
    a = program()
    c.emit_event_sync(event_of('ping' if sent != 'ping' else 'shutdown', a))
    process_one(c)
    check(len(logs('execute')) == 0, 'another event does not count')
    for i in range(2):
        c.emit_event_sync(event_of(sent, a))
        r = outcome(process_one, c)
        check(r[0] == 'ok', 'no error')
    check(len(logs('execute')) == (1 if once else 2), 'as often as it should')


def failing(event, context):
    log('failing', event)
    raise UserError()


def d_once_failing():
    """A handler made for one event is used up by it, also if handling it fails or causes such an event."""
    c, loop = process_model()
    mine = pick(*KINDS, 'shutdown')
    a = program()
    c.register_event_handler(OnShutdown(on_shutdown=failing, handle_once=True) if mine == 'shutdown' else
                             handler_for(mine, None, failing, handle_once=True))
    for i in range(2):
        c.emit_event_sync(event_of(mine, a))
        outcome(process_one, c)
    check(len(logs('failing')) == 1, 'called once')


def d_once_target():
    """The events of others do not use up a handler made for one event of its target."""
    c, loop = process_model()
    mine = pick(*KINDS)
    a, b = program(), program()
    c.register_event_handler(handler_for(mine, a, [Probe('one')], handle_once=True))
    c.emit_event_sync(event_of(mine, b))
    process_one(c)
    check(len(logs('execute')) == 0, 'not for another')
    c.emit_event_sync(event_of(mine, a))
    process_one(c)
    check(len(logs('execute')) == 1, 'but for its target')


def d_default_often():
    """By default a handler handles every event."""
    check(BaseEventHandler(matcher=lambda e: True).handle_once is False, 'base')
    check(EventHandler(matcher=lambda e: True).handle_once is False, 'plain')
    check(OnShutdown(on_shutdown=[]).handle_once is False, 'shutdown')
    check(handler_for(pick(*KINDS), None, []).handle_once is False, 'of actions')


def d_shutdown():
    """Shutdown handlers take shutdown events only; function or entities."""
    c, loop = process_model()
    one = Probe('one')
    given = pick('entities', 'function')
    Answer.entities = [one]
    h = OnShutdown(on_shutdown={'entities': [one], 'function': noted}[given])
    other = pick(*EVENTS)
    check(bool(h.matches(event_of(other, program()))) is (other == 'shutdown'), 'exactly shutdown')
    c.register_event_handler(h)
    e = event_of('shutdown', None)
    c.emit_event_sync(e)
    process_one(c)
    check([x[1] for x in logs('execute')] == ['one'], 'visited')
    if given == 'function':
        check(len(logs('noted')) == 1 and logs('noted')[0][1] is e and logs('noted')[0][2] == (c,), 'called once')


def d_io():
    """Output goes to the function for its stream, once, and to no other."""
    c, loop = process_model()
    funcs = {}
    for stream in ('stdin', 'stdout', 'stderr'):
        if pick(True, False):
            funcs['on_' + stream] = streams(stream)
    h = OnProcessIO(**funcs)
    c.register_event_handler(h)
    stream = pick('stdin', 'stdout', 'stderr')
    e = event_of(stream, program())
    c.emit_event_sync(e)
    process_one(c)
    want = [stream] if 'on_' + stream in funcs else []
    check([x[1] for x in logs('stream')] == want, 'its function')
    check(all([x[2] is e for x in logs('stream')]), 'with the event')
    check(len(logs('execute')) == len(want), 'what it returns is visited')


def streams(name):
    def on(event):
        log('stream', name, event)
        return [Probe(name)]
    return on


def d_io_event():
    """An output event knows its stream and its text."""
    c, loop = process_model()
    stream = pick('stdin', 'stdout', 'stderr')
    e = event_of(stream, program())
    check(e.from_stdin is (stream == 'stdin'), 'stdin')
    check(e.from_stdout is (stream == 'stdout'), 'stdout')
    check(e.from_stderr is (stream == 'stderr'), 'stderr')
    check(e.text == {'stdin': b'i', 'stdout': b'o', 'stderr': b'e'}[stream], 'the text')


def d_include():
    """A description in an include event is visited, once, after what is being visited."""
    c, loop = process_model()
    c.register_event_handler(OnIncludeLaunchDescription())
    ld = LaunchDescription([Probe('a'), Probe('b')])
    e = IncludeLaunchDescription(ld)
    check(e.launch_description is ld, 'carried by the event')
    c.emit_event_sync(e)
    process_one(c)
    check([x[1] for x in logs('execute')] == ['a', 'b'], 'its entities')
    other = pick(*EVENTS)
    check(not OnIncludeLaunchDescription().matches(event_of(other, program())), 'no other event')


def d_named():
    """Matching by name takes the events with exactly this name."""
    m = event_named('test.Ping')
    check(bool(m(Ping())) is True, 'that name')
    check(bool(m(Shutdown())) is False, 'no other')
    check(bool(event_named('Ping')(Ping())) is False, 'the whole name')


def d_matches_action():
    """Matching an action takes this action only."""
    a, b = Probe('a'), Probe('a')
    m = matches_action(a)
    check(bool(m(a)) and not m(b), 'identity')


def d_matcher():
    """A plain handler asks its matcher, with the event."""
    yes = pick(True, False)
    seen = []

    def matcher(event):
        seen.append(event)
        return yes
    e = Ping()
    h = EventHandler(matcher=matcher)
    check(bool(h.matches(e)) is yes, 'its answer')
    check(len(seen) == 1 and seen[0] is e, 'asked once, with the event')


def d_describe():
    """Handlers describe the entities they have, without calling anything."""
    mine = pick(*KINDS, 'plain', 'io', 'shutdown', 'include')
    one, two = Probe('one'), Probe('two')
    given = pick('single', 'list', 'function', 'empty')
    do = {'single': one, 'list': [one, two], 'function': noted, 'empty': []}[given]
    if mine == 'plain':
        assume(given != 'function')
        h = EventHandler(matcher=noted, entities=do)
    elif mine == 'io':
        h = OnProcessIO(on_stdout=noted)
    elif mine == 'shutdown':
        h = OnShutdown(on_shutdown=do)
    elif mine == 'include':
        h = OnIncludeLaunchDescription()
    else:
        h = handler_for(mine, None, do)
    r = outcome(h.describe)
    check(r[0] == 'ok', 'no error')
    text, actions = r[1]
    if mine in ('start', 'exit', 'complete', 'plain'):
        check(list(actions) == {'single': [one], 'list': [one, two]}.get(given, []), 'its entities')
    check(logs('noted') == [], 'nothing is called')
    check(type(h).__name__ in text, 'by the name of the class')


def d_target_itself():
    """The target is that action, not one that looks the same."""
    c, loop = process_model()
    a, b = ExecuteProcess(cmd=['p', 'x'], name='n'), ExecuteProcess(cmd=['p', 'x'], name='n')
    mine = pick(*KINDS)
    h = handler_for(mine, a, Probe('x'))
    check(bool(h.matches(event_of(mine, a))) and not h.matches(event_of(mine, b)), 'that one only')


def d_shutdown_entities_always():
    """The entities for a shutdown are visited whatever the shutdown is due to."""
    c, loop = process_model()
    c.register_event_handler(OnShutdown(on_shutdown=pick([Probe('one')], Probe('one'), (Probe('one'),))))
    if pick(True, False):
        c._set_is_shutdown(True)
    c.emit_event_sync(Shutdown(reason='x', due_to_sigint=unknown('sigint', bool)))
    process_one(c)
    check([x[1] for x in logs('execute')] == ['one'], 'visited')


def d_once_again():
    """A handler made for one event handles one more when it is registered again."""
    c, loop = process_model()
    h = handler_for(pick('start', 'exit'), None, [Probe('one')], handle_once=True)
    kind_ = 'start' if isinstance(h, OnProcessStart) else 'exit'
    a = program()
    for i in range(2):
        c.register_event_handler(h)
        c.emit_event_sync(event_of(kind_, a))
        process_one(c)
        c.emit_event_sync(event_of(kind_, a))
        process_one(c)
    check(len(logs('execute')) == 2, 'one for each registration')
    check(h.handle_once is True, 'it stays one of this kind')


def d_order_of_registration():
    """All handlers of an event are called, the one registered last first, until they are unregistered."""
    c, loop = process_model()
    hs = [EventHandler(matcher=lambda e: isinstance(e, Ping), entities=[Probe(str(i))]) for i in range(3)]
    for h in hs:
        c.register_event_handler(h)
    out = pick(None, 0, 1, 2)
    if out is not None:
        c.unregister_event_handler(hs[out])
    c.emit_event_sync(Ping())
    process_one(c)
    want = ['2', '1', '0']
    if out is not None:
        want.remove(str(out))
    check([x[1] for x in logs('execute')] == want, 'each once')
