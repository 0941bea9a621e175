"""Entities are visited in order, events are delivered in order, each handler in its own scope."""
from launch import EventHandler
from launch import SomeSubstitutionsType
from launch.event_handler import BaseEventHandler
from launch.utilities import visit_all_entities_and_collect_futures

from drv.svc import *


def d_depth_first():
    """Sub entities are visited depth first, in the order given, each exactly once."""
    c = make_context()
    tree = Probe('root', subs=[
        Probe('a', subs=[Probe('a1'), Probe('a2', subs=[Probe('a21')]), Probe('a3')]),
        Probe('b'), Probe('c', subs=[Probe('c1')])])
    visit_all_entities_and_collect_futures(tree, c)
    check([x[1] for x in logs('execute')] == [
        'root', 'a', 'a1', 'a2', 'a21', 'a3', 'b', 'c', 'c1'], 'depth first, in order, once each')


def d_futures():
    """Every future of a visited entity is collected, none twice, none of a None."""
    c = make_context()
    f0, f1, f2 = new_future(), new_future(), new_future()
    tree = Probe('root', future=f0, subs=[
        Probe('a', subs=[Probe('a1', future=f1)]), Probe('b', future=f2)])
    pairs = visit_all_entities_and_collect_futures(tree, c)
    check(len(pairs) == 3, 'one pair per future')
    check(pairs[0][1] is f0 and pairs[1][1] is f1 and pairs[2][1] is f2, 'the futures, in order')
    check(pairs[0][0] is tree and pairs[1][0].tag == 'a1' and pairs[2][0].tag == 'b',
          'each with its entity')
    # a later sub entity must not replace the future (e.g. of an action visited twice)
    order = [x[0] + ' ' + x[1] for x in logs('execute', 'future of')]
    check(order.index('future of root') < order.index('execute a'),
          'the future is taken before the sub entities are visited')


def d_skipped_subtree():
    """A skipped action contributes neither sub entities nor effects."""
    c = make_context()
    tree = Probe('root', subs=[
        Probe('a', subs=[Probe('a1')], condition=Flag(False)), Probe('b')])
    visit_all_entities_and_collect_futures(tree, c)
    check([x[1] for x in logs('execute')] == ['root', 'b'], 'the skipped subtree is not visited')


class Recorder(BaseEventHandler):
    """A handler of the user: logs what it handles."""

    def __init__(self, tag, wanted, entities=None, hook=None):
        super().__init__(matcher=wanted)
        self.tag, self.entities, self.hook = tag, entities, hook

    def handle(self, event, context):
        super().handle(event, context)
        log('handle', self.tag, event)
        if self.hook is not None:
            self.hook(event, context)
        return self.entities


def pings(event):
    return isinstance(event, Ping)


def d_registration_order():
    """By default the last registered handler goes first; appended ones go last."""
    s = make_service()
    for tag in ('one', 'two'):
        s.context.register_event_handler(Recorder(tag, pings))
    s.context.register_event_handler(Recorder('last', pings), append=True)
    s.context.register_event_handler(Recorder('other', lambda e: False))
    s.emit_event(Ping())
    serve(s)
    check([x[1] for x in logs('handle')] == ['two', 'one', 'last'],
          'handlers run once each, in order, only if they match')


def d_fifo():
    """Events are processed one at a time in the order of emission, none lost or repeated."""
    s = make_service()
    a, b, c = Ping(), Ping(), Ping()
    s.context.register_event_handler(Recorder('h', pings, [Probe('x')]))
    s.context.register_event_handler(Recorder('g', pings))
    for e in (a, b, c):
        s.emit_event(e)
    serve(s)
    hs = logs('handle')
    check(len(hs) == 6, 'every event reaches every handler once')
    check(hs[0][2] is a and hs[1][2] is a and hs[2][2] is b and hs[3][2] is b and
          hs[4][2] is c and hs[5][2] is c, 'in the order of emission, one event at a time')
    check([x[0] for x in logs('handle', 'execute')] == ['handle', 'handle', 'execute'] * 3,
          'the entities of an event are visited before the next event is processed')


def d_emitted_while_handling():
    """An event emitted while another is processed is processed afterwards."""
    s = make_service()
    later = Ping()

    def emit(event, context):
        if event is first:
            context.emit_event_sync(later)
    first = Ping()
    s.context.register_event_handler(Recorder('h', pings, [Probe('x')]))
    s.context.register_event_handler(Recorder('g', pings, None, emit))
    s.emit_event(first)
    serve(s)
    hs = logs('handle')
    check(len(hs) == 4 and hs[0][2] is first and hs[1][2] is first and hs[2][2] is later and
          hs[3][2] is later, 'after the current event')


def d_unregister_while_handling():
    """Handlers registered or removed while an event is processed do not disturb its delivery."""
    s = make_service()
    new = Recorder('new', pings)
    other = Recorder('other', pings)

    def change(event, context):
        context.unregister_event_handler(changer)
        context.register_event_handler(new)
    changer = Recorder('changer', pings, None, change)
    s.context.register_event_handler(other)
    s.context.register_event_handler(changer)
    s.emit_event(Ping())
    s.emit_event(Ping())
    r = serve(s)
    check([x[1] for x in logs('handle')] == ['changer', 'other', 'new', 'other'],
          'the first event goes to the handlers of its time, the second to the new set')
    check(r == ('ok', 0), 'no error')


def d_handler_scope():
    """Each handler sees the event in the locals, and leaves no locals behind."""
    s = make_service()

    def peek(event, context):
        log('sees', context.locals.event)
        log('keys', sorted(context.get_locals_as_dict().keys()))
        context.extend_locals({'mine': 1})
    s.context.register_event_handler(Recorder('one', pings, None, peek))
    s.context.register_event_handler(Recorder('two', pings, None, peek))
    e = Ping()
    s.emit_event(e)
    serve(s)
    check(len(logs('sees')) == 2 and logs('sees')[0][1] is e and logs('sees')[1][1] is e,
          'the event is available to each handler')
    check(logs('keys')[0][1] == ['event'] and logs('keys')[1][1] == ['event'],
          'locals of one handler are not visible to the next')
    check(len(s.context.get_locals_as_dict()) == 0, 'no locals remain after the event')


def d_entities_scope():
    """The entities of a handler are visited while the event is available to them."""
    s = make_service()
    e = Ping()

    class Look(Probe):
        def execute(self, context):
            log('looks', context.locals.event)
    s.context.register_event_handler(Recorder('h', pings, [Look('x'), Look('y')]))
    s.emit_event(e)
    serve(s)
    check(len(logs('looks')) == 2 and logs('looks')[0][1] is e and logs('looks')[1][1] is e,
          'the event is in the locals of the entities')


def d_handle_results():
    """A handler may give nothing, one entity or an iterable; None entries are ignored."""
    s = make_service()
    result, expected = pick(
        (None, []), (Probe('x'), ['x']), ([Probe('x'), None, Probe('y')], ['x', 'y']),
        ((Probe('x'), Probe('y')), ['x', 'y']), ([], []), ((Probe(n) for n in ('x', 'y')), ['x', 'y']),
        ({'x': Probe('x'), 'y': Probe('y')}.values(), ['x', 'y']), (LaunchDescription([Probe('x')]), ['x']))
    s.context.register_event_handler(Recorder('h', pings, result))
    s.emit_event(Ping())
    r = serve(s)
    check([x[1] for x in logs('execute')] == expected, 'exactly the entities are visited')
    check(r[0] == 'ok' and r[1] == 0, 'no error')


def d_handle_garbage():
    """A handler giving something that is not an entity is reported as an error."""
    s = make_service()
    s.context.register_event_handler(Recorder('h', pings, [pick('text', 3, Ping())]))
    s.emit_event(Ping())
    r = serve(s)
    check(r[0] == 'ok' and r[1] != 0, 'the run returns an error code')


def d_failing_handler_scope():
    """A handler or entity that raises must not leave its locals behind."""
    s = make_service()
    how = pick('handler', 'entity')

    def boom(event, context):
        if how == 'handler':
            raise UserError('handler')
    s.context.register_event_handler(
        Recorder('h', pings, [Probe('x', fails=how == 'entity')], boom))
    s.emit_event(Ping())
    serve(s)
    check(len(s.context.get_locals_as_dict()) == 0, 'no locals remain after a failure')


def d_event_handler_class():
    """The plain event handler returns its entities for each event that matches, once if asked."""
    s = make_service()
    once = pick(True, False)
    h = EventHandler(matcher=pings, entities=[Probe('x')], handle_once=once)
    s.context.register_event_handler(h)
    s.emit_event(Ping())
    s.emit_event(Ping())
    serve(s)
    check(len(logs('execute')) == (1 if once else 2), 'once iff handle_once')


class Working(Probe):
    """An action that has a future once it was executed; it gives its entities, too."""

    def __init__(self, tag, subs=None, **kwargs):
        super().__init__(tag, subs=subs, **kwargs)
        self.working = None

    def execute(self, context):
        self.working = new_future()
        return super().execute(context)

    def get_asyncio_future(self):
        log('asked', self.tag)
        return self.working


def d_future_after_visit():
    """An action is asked for its future after it was executed and before what it gives is visited."""
    c = make_context()
    inner, leaf = Working('inner'), Probe('leaf')
    outer = Working('outer', [inner, leaf])
    r = visit_all_entities_and_collect_futures(outer, c)
    check([x[1] for x in logs('execute')] == ['outer', 'inner', 'leaf'], 'depth first')
    check(len(r) == 2, 'a pair for each')
    check(r[0][0] is outer and r[0][1] is outer.working, 'its own')
    check(r[1][0] is inner and r[1][1] is inner.working, 'its own')
    check([x[1] for x in logs('execute', 'asked') if x[1] == 'outer' or x[1] == 'inner'][-2:] == ['inner', 'inner'],
          'asked before the inner ones')


def d_handlers_of_a_handler():
    """Handlers an entity registers or removes apply from the next event on; nothing fails."""
    s = make_service()
    from launch.actions import RegisterEventHandler
    from launch.actions import UnregisterEventHandler
    late = Recorder('late', pings)
    gone = Recorder('gone', pings)
    what = pick('register', 'unregister', 'both', 'itself')
    first = Recorder('first', pings)
    first.entities = {'register': [RegisterEventHandler(late)], 'unregister': [UnregisterEventHandler(gone)],
                      'both': [RegisterEventHandler(late), UnregisterEventHandler(gone)],
                      'itself': UnregisterEventHandler(first)}[what]
    s.context.register_event_handler(gone)
    s.context.register_event_handler(first)

    def second(event, context):
        first.entities = None
    last = Recorder('last', pings, None, second)
    s.context.register_event_handler(last, append=True)
    s.emit_event(Ping())
    s.emit_event(Ping())
    r = serve(s)
    check(r == ('ok', 0), 'no error')
    seen = [x[1] for x in logs('handle')]
    check(seen[:3] == ['first', 'gone', 'last'], 'the event is delivered to all of its time')
    check(seen[3:] == {'register': ['late', 'first', 'gone', 'last'], 'unregister': ['first', 'last'],
                       'both': ['late', 'first', 'last'], 'itself': ['gone', 'last']}[what], 'the next to the new set')


def d_failing_goes_on():
    """After a handler or an entity failed the later events are still processed, in order, in clean scopes."""
    s = make_service()
    bad, e, f = Ping(), Ping(), Ping()
    how = pick('handler', 'entity', 'entity of entity', 'matcher')

    def look(event, context):
        log('keys', sorted(context.get_locals_as_dict().keys()))
        if event is bad and how == 'handler':
            raise UserError('handler')

    def wanted(event):
        if event is bad and how == 'matcher':
            raise UserError('matcher')
        return isinstance(event, Ping)

    class Once(Probe):
        def execute(self, context):
            log('visits', context.locals.event)
            if context.locals.event is bad and how == 'entity':
                raise UserError('entity')
            if context.locals.event is bad and how == 'entity of entity':
                return [Probe('fine'), Probe('x', fails=True)]
            return None
    s.context.register_event_handler(Recorder('h', wanted, [Once('x')], look))
    for x in (bad, e, f):
        s.emit_event(x)
    r = serve(s)
    check(r == ('ok', 1), 'reported')
    ok = [x[1] for x in logs('visits') if x[1] is not bad]
    check(len(ok) == 2 and ok[0] is e and ok[1] is f, 'the others in order')
    check([x[1] for x in logs('keys') if x[1] != ['event']] == [], 'clean scopes')
    check(len(s.context.get_locals_as_dict()) == 0, 'none remain')
