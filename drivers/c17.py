"""Timers: one shot after the period, unless cancelled; always complete."""
from launch.actions import TimerAction
from launch.events import TimerEvent
from launch.substitutions import LaunchConfiguration

from drv.fe import *
from drv.proc import *


def timer_model():
    c, loop = process_model()
    unstub('asyncio.wait')
    stub('asyncio.wait', elapse)
    return c, loop


class Clock:
    meanwhile = None


async def elapse(fs, timeout=None, **kwargs):
    log('wait', timeout, [state_of(f) for f in fs])
    check(len(fs) == 1, 'only the cancellation cuts the waiting short')
    if Clock.meanwhile is not None:
        Clock.meanwhile()
    return (set(), set(fs))


def done(t):
    return state_of(t.get_asyncio_future()) == 'done'


def d_fires():
    """After the period, and not before, the actions are executed once, then never again."""
    c, loop = timer_model()
    p = unknown('period', float)
    t = TimerAction(period=p, actions=[Probe('a'), Probe('b')])
    t.visit(c)
    check(len(logs('execute')) == 0, 'not at once')
    check(state_of(t.get_asyncio_future()) == 'pending', 'it is pending')
    check(len(loop.tasks) == 1, 'one waiting')
    run(loop.tasks[0])
    check(logs('wait')[0][1] is p, 'for the period')
    deliver(c)
    check([x[1] for x in logs('execute')] == ['a', 'b'], 'each action once, in order')
    check(done(t), 'it is complete')
    deliver(c)
    check(len(logs('execute')) == 2 and len(loop.tasks) == 1, 'it is not repeated')


def d_fires_before_done():
    """The event is emitted before the timer counts as complete, so that the run waits for it."""
    c, loop = timer_model()
    t = TimerAction(period=1.0, actions=[Probe('a')])
    t.visit(c)
    stub('launch.launch_context.LaunchContext.emit_event', emitted)
    Watch.timer = t
    run(loop.tasks[0])
    check(len(logs('emitted')) == 1, 'emitted')
    check(logs('emitted')[0][1] == 'pending', 'while it is still pending')


class Watch:
    timer = None


async def emitted(*args, **kwargs):
    log('emitted', state_of(Watch.timer.get_asyncio_future()))


def d_cancelled():
    """A timer cancelled at any moment before its event is handled does nothing, and is complete."""
    c, loop = timer_model()
    t = TimerAction(period=1.0, actions=[Probe('a')])
    when = pick('before execution', 'before waiting', 'while waiting', 'event queued')
    if when == 'before execution':
        t.cancel()
    t.visit(c)
    if when == 'before waiting':
        t.cancel()
    if when == 'while waiting':
        Clock.meanwhile = lambda: t.cancel()
    for task in list(loop.tasks):
        run(task)
    if when == 'event queued':
        t.cancel()
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    check(len(logs('execute')) == 0, 'nothing is executed')
    check(done(t), 'it is complete')
    if when == 'before execution':
        check('pending' not in [s for x in logs('wait') for s in x[2]], 'there is no waiting')


def d_cancel_wakes():
    """Cancelling ends the waiting at once."""
    c, loop = timer_model()
    t = TimerAction(period=1000.0, actions=[Probe('a')])
    t.visit(c)
    Watch.timer = t
    stub('asyncio.wait', cancel_inside)
    run(loop.tasks[0])
    check(logs('woken')[0][1] == 'done', 'what is waited for is done')


async def cancel_inside(fs, timeout=None, **kwargs):
    f = list(fs)[0]
    check(state_of(f) == 'pending', 'it waits')
    Watch.timer.cancel()
    log('woken', state_of(f))
    return (set(), set())


def d_cancel_harmless():
    """Cancelling twice, or after the timer has finished, changes nothing."""
    c, loop = timer_model()
    t = TimerAction(period=1.0, actions=[Probe('a')])
    if pick(True, False):
        t.cancel()
    t.visit(c)
    for task in list(loop.tasks):
        run(task)
    deliver(c)
    n = len(logs('execute'))
    for i in (1, 2):
        r = outcome(t.cancel)
        check(r[0] == 'ok', 'no error')
    deliver(c)
    check(len(logs('execute')) == n and done(t), 'nothing changes')


def d_shutdown():
    """A shutdown cancels the timer, unless it is made to survive it."""
    c, loop = timer_model()
    how = pick('default', True, False, 'yes', 'no')
    kw = {}
    if how in (True, False):
        kw = {'cancel_on_shutdown': how}
    elif how != 'default':
        c.launch_configurations['c'] = 'true' if how == 'yes' else 'false'
        kw = {'cancel_on_shutdown': LaunchConfiguration('c')}
    t = TimerAction(period=1.0, actions=[Probe('a')], **kw)
    t.visit(c)
    Clock.meanwhile = lambda: shut_down(c)
    run(loop.tasks[0])
    deliver(c)
    survives = how in (False, 'no')
    check(len(logs('execute')) == (1 if survives else 0), 'executed exactly if it survives')
    check(done(t), 'it is complete in any case')


def d_locals():
    """The actions see the context-local values of the place of the timer, as they were there."""
    c, loop = timer_model()
    x, y = thing('x'), thing('y')
    t = TimerAction(period=1.0, actions=[OpaqueLook()])
    c._push_locals()
    c.extend_locals({'word': x})
    t.visit(c)
    c.extend_locals({'word': y})
    c._pop_locals()
    run(loop.tasks[0])
    deliver(c)
    check(logs('look')[0][1] is x, 'the value at the place of the timer')
    check('word' not in c.get_locals_as_dict(), 'and nothing stays behind')


class OpaqueLook(Action):

    def execute(self, context):
        log('look', context.locals.word)


def d_several():
    """Timers do not fire for one another, whatever the order in which they elapse."""
    c, loop = timer_model()
    a = TimerAction(period=1.0, actions=[Probe('a')])
    b = TimerAction(period=2.0, actions=[Probe('b')])
    a.visit(c)
    b.visit(c)
    n = pick(0, 1)
    run(loop.tasks[n])
    deliver(c)
    check([x[1] for x in logs('execute')] == [['a', 'b'][n]], 'the one that elapsed, once')
    check([done(a), done(b)] == [n == 0, n == 1], 'the other is still pending')
    run(loop.tasks[1 - n])
    deliver(c)
    check(len(logs('execute')) == 2, 'then the other')


def d_two_contexts():
    """Timers work in every context, not only in the first one."""
    for i in (1, 2):
        c, loop = timer_model()
        t = TimerAction(period=1.0, actions=[Probe(i)])
        t.visit(c)
        run(loop.tasks[0])
        deliver(c)
    check([x[1] for x in logs('execute')] == [1, 2], 'each in its own')


def d_period():
    """The period may be a number or a substitution, evaluated where the timer is."""
    c, loop = timer_model()
    c.launch_configurations['p'] = '2.5'
    t = TimerAction(period=pick(2.5, LaunchConfiguration('p'), [LaunchConfiguration('p')]),
                    actions=[])
    t.visit(c)
    c.launch_configurations['p'] = '9.0'
    run(loop.tasks[0])
    check(logs('wait')[0][1] == 2.5, 'the period')


def d_bad_period():
    """A period that is no number, or not known, is an error of the action; nothing stays behind."""
    c, loop = timer_model()
    c.launch_configurations['p'] = 'soon'
    t = TimerAction(period=LaunchConfiguration(pick('p', 'q')), actions=[Probe('a')])
    r = outcome(t.visit, c)
    check(r[0] == 'raise', 'reported')
    check(len(loop.tasks) == 0, 'nothing waits')


def d_iterable():
    """The actions may be any iterable, and looking at them does not use them up."""
    c, loop = timer_model()
    given = [Probe('a'), Probe('b')]
    t = TimerAction(period=1.0, actions=pick(given, tuple(given), (x for x in given), iter(given)))
    if pick(True, False):
        check(list(t.actions) == given, 'the actions')
    if pick(True, False):
        described = t.describe_conditional_sub_entities()
        check(len(described) == 1 and list(described[0][1]) == given, 'what depends on the timer')
    t.visit(c)
    run(loop.tasks[0])
    deliver(c)
    check([x[1] for x in logs('execute')] == ['a', 'b'], 'each is executed once, in order')


def d_wrong_arguments():
    """A period that is no time, and actions that are no list of actions, are refused."""
    bad = pick({'period': None}, {'period': []}, {'period': object()}, {'period': 'soon'}, {'actions': None},
               {'actions': Probe('a')}, {'cancel_on_shutdown': 3}, {'cancel_on_shutdown': None})
    kw = {'period': 1.0, 'actions': []}
    kw.update(bad)
    if bad == {'period': []}:
        r = outcome(lambda: TimerAction(**kw).visit(timer_model()[0]))
    else:
        r = outcome(TimerAction, **kw)
    check(r[0] == 'raise', 'refused')


def d_text_period():
    """A period given as text is the number it says."""
    c, loop = timer_model()
    t = TimerAction(period='2.5', actions=[Probe('a')])
    t.visit(c)
    run(loop.tasks[0])
    check(logs('wait')[0][1] == 2.5, 'the period')


def d_file():
    """A timer of a launch file waits for the period written, and survives a shutdown as written."""
    c, loop = timer_model()
    c.launch_configurations['p'] = '2.5'
    c.launch_configurations['off'] = 'false'
    attrs = {'period': pick(2.5, '$(var p)')}
    stays = pick(None, True, False, '$(var off)')
    if stays is not None:
        attrs['cancel_on_shutdown'] = stays
    children = [('let', {'name': 'x', 'value': '1'}), ('let', {'name': 'y', 'value': '$(var x)'})]
    t = frontend().parse_action(entity(pick('xml', 'yaml'), ('timer', attrs, children)))
    check(isinstance(t, TimerAction), 'a timer')
    t.visit(c)
    check(len(loop.tasks) == 1, 'one waiting')
    down = pick(True, False)
    if down:
        Clock.meanwhile = lambda: shut_down(c)
    run(loop.tasks[0])
    deliver(c)
    check(logs('wait')[0][1] == 2.5, 'the period')
    fires = not down or stays in (False, '$(var off)')
    check(('y' in c.launch_configurations) == fires, 'executed exactly if it is not cancelled')
    if fires:
        check(c.launch_configurations['y'] == '1', 'in order')


def d_period_told():
    """A timer tells the period it was given."""
    p = pick(2.5, 0.0)
    check(perform_any(TimerAction(period=p, actions=[]).period) == p, 'a number')
    lc = LaunchConfiguration('p')
    t = TimerAction(period=pick(lc, [lc]), actions=[])
    c = make_context()
    c.launch_configurations['p'] = '4.5'
    check(float(perform_substitutions(c, normal(t.period))) == 4.5, 'a substitution')


def perform_any(period):
    return period if isinstance(period, (int, float)) else float(perform_substitutions(make_context(), normal(period)))


def normal(period):
    return list(period) if isinstance(period, (list, tuple)) else [period]


def d_no_time():
    """A timer without any time to wait is a timer like any other: it fires, and is cancelled by a shutdown before."""
    c, loop = timer_model()
    t = TimerAction(period=pick(0.0, 0.001), actions=[Probe('a')])
    t.visit(c)
    down = pick(True, False)
    check(len(logs('execute')) == 0, 'not within its visit')
    if down:
        shut_down(c)
        deliver(c)
    run(loop.tasks[0])
    deliver(c)
    check(logs('wait') == [] or logs('wait')[0][1] in (0.0, 0.001), 'it waits no longer')
    check(len(logs('execute')) == (0 if down else 1), 'fired unless the shutdown was before')
    check(done(t), 'it is complete in any case')
