"""When the tests start: readiness; and how long a test process may take."""
from launch import LaunchDescription
from launch.actions import GroupAction
from launch.actions import TimerAction
from launch.events import TimerEvent
from launch.substitutions import TextSubstitution
from launch_testing.actions import GTest
from launch_testing.actions import PyTest
from launch_testing.actions import ReadyToTest
from launch_testing.actions.test import Test
from launch_testing.event_handlers import StdoutReadyListener
from launch_testing.loader import TestRun
from launch_testing.ready_aggregator import ReadyAggregator
from launch_testing.ready_to_test_action_timeout import ready_to_test_action_timeout

from drv.proc import *
from drv.lt import *


def ready_run(description, params=None):
    return TestRun('name', description, params or {}, [], [])


def d_ready_to_test():
    """Executing the action calls every callback once, in order, whatever one of them raises."""
    r = ReadyToTest()
    where = pick('top', 'group', 'timer', 'nested')
    if where == 'top':
        entities = [Probe('a'), r]
    elif where == 'group':
        entities = [Probe('a'), GroupAction([Probe('b'), r])]
    elif where == 'timer':
        entities = [TimerAction(period=1.0, actions=[r]), Probe('a')]
    else:
        entities = [GroupAction([TimerAction(period=1.0, actions=[LaunchDescription([r])])])]
    t = ready_run(lambda: LaunchDescription(entities))
    bad = pick(None, 0, 1)
    for i in range(3):
        ld, context = t.normalized_test_description(ready_fn=callback(i, bad))
        check(list(ld.entities) == entities and context == {}, 'the description, no test context')
    check(len(logs('ready')) == 0, 'not before it is executed')
    c = make_context()
    r.execute(c)
    check([x[1] for x in logs('ready')] == [0, 1, 2], 'every callback, once')


def callback(i, bad):
    def f():
        log('ready', i)
        if i == bad:
            raise RuntimeError('no')
    return f


def d_no_ready_to_test():
    """A description that never says when it is ready is refused."""
    t = ready_run(lambda: LaunchDescription(pick([], [Probe('a')], [GroupAction([Probe('a')])])))
    check(raised(Exception, lambda: t.normalized_test_description(ready_fn=lambda: None)), 'refused')


def d_test_context():
    """The description may come with a test context; its parameters are passed on."""
    ld = LaunchDescription([ReadyToTest()])
    def describe(**kwargs):
        log('described', kwargs)
        return ld, {'dut': 7}
    t = ready_run(describe)
    got, context = t.normalized_test_description(ready_fn=lambda: None, x=1, y='b')
    check(got is ld and context == {'dut': 7}, 'both')
    check([x[1] for x in logs('described')] == [{'x': 1, 'y': 'b'}], 'called once, with its parameters')
    check(t.get_launch_description is not None, 'introspection')


def d_ready_timeout():
    """15 seconds, or what the decorator says."""
    v = unknown('v', float)
    def plain():
        return LaunchDescription([ReadyToTest()])
    given = pick(True, False)
    f = ready_to_test_action_timeout(v)(plain) if given else plain
    t = ready_run(f)
    check(t.timeout is v if given else t.timeout == 15, 'the time to wait')
    check(t.get_launch_description().entities is not None, 'it is still the description function')


def d_ready_aggregator():
    """The parent is told exactly once, at the n-th call, and not while a lock is held."""
    locks()
    n = pick(1, 2, 3)
    ready = ReadyAggregator(parent, n)
    for i in range(4):
        check(len(logs('parent')) == (1 if i >= n else 0), 'told at the n-th call, and once')
        ready.ready_fn()
        check(held() == 0, 'no lock is left held')
    check(len(logs('parent')) == 1, 'told once')


def parent():
    check(held() == 0, 'it is not called under a lock')
    log('parent')


def d_ready_aggregator_threads():
    """Another thread that calls it while one is in it does not change how often the parent is told."""
    locks()
    n = pick(2, 3)
    ready = ReadyAggregator(parent, n)
    for i in range(n - 2):
        ready.ready_fn()
    Lock.released = ready.ready_fn
    ready.ready_fn()
    check(len(logs('parent')) == 1, 'told once')


def d_ready_aggregator_parent_raises():
    """What the parent raises leaves no lock behind."""
    locks()
    ready = ReadyAggregator(refuse, 1)
    check(raised(ValueError, ready.ready_fn), 'the exception is not hidden')
    check(held() == 0, 'no lock is left held')


def refuse():
    raise ValueError('no')


def d_stdout_ready_parts():
    """The text is noticed each time it is complete, however it was cut into parts."""
    a = Process('alpha')
    c = make_context()
    h = StdoutReadyListener(target_action=a, ready_txt='aab', actions=[Probe('go')])
    parts, times = pick(((b'a', b'aab'), 1), ((b'aa', b'ab'), 1), ((b'aab', b'ab'), 1), ((b'aaba', b'ab'), 2),
                        ((b'a', b'a', b'b'), 1), ((b'aa', b'x', b'b'), 0), ((b'xaab', b'b', b'aab'), 2),
                        ((b'b', b'aa'), 0), ((b'aaab', b'', b'aab'), 2))
    got = [p for p in parts if h.handle(out(a, p), c)]
    check(len(got) == times, 'each time')


def d_stdout_ready():
    """The actions are returned when the process prints the text, on standard output."""
    a, b = Process('alpha'), Process('beta')
    target = pick(a, None)
    actions = [Probe('x')]
    h = StdoutReadyListener(target_action=target, ready_txt='ready', actions=actions)
    c = make_context()
    say = pick('whole', 'in a line', 'error', 'other process', 'other text', 'split', 'ready twice')
    if say == 'whole':
        es = [out(a, b'ready')]
    elif say == 'in a line':
        es = [out(a, b'hello\r\nI am ready now\r\n')]
    elif say == 'error':
        es = [err(a, b'ready')]
    elif say == 'other process':
        es = [out(b, b'ready')]
    elif say == 'other text':
        es = [out(a, b'read'), out(a, b'Ready')]
    elif say == 'split':
        es = [out(a, b'hello rea'), out(a, b'dy\n')]
    else:
        es = [out(a, b'ready'), out(a, b'again'), out(a, b'ready\n')]
    got = []
    for e in es:
        if h.matches(e):
            r = h.handle(e, c)
            if r is not None:
                got.append(list(r))
    n = 0 if say in ('error', 'other text') else 2 if say == 'ready twice' else 1
    if say == 'other process' and target is a:
        n = 0
    check(got == [actions] * n, 'the actions, each time the text is printed')


def d_stdout_ready_split():
    """Text and characters may arrive in parts; processes do not mix."""
    a, b = Process('alpha'), Process('beta')
    h = StdoutReadyListener(ready_txt='gr\xfcn!', actions=[Probe('x')])
    c = make_context()
    es = pick((out(a, b'gr\xc3'), out(b, b'\xbcn!'), 0), (out(a, b'gr\xc3'), out(a, b'\xbcn!'), 1),
              (out(a, b'gr'), err(a, b'\xc3\xbcn!'), 0), (out(a, b'\xff'), out(a, b'gr\xc3\xbcn!'), 1))
    got = []
    for e in es[:2]:
        if h.matches(e):
            r = h.handle(e, c)
            if r is not None:
                got.append(r)
    check(len(got) == es[2], 'the text of one process and one stream')


def d_stdout_ready_described():
    actions = [Probe('x'), Probe('y')]
    h = StdoutReadyListener(ready_txt='ready', actions=actions)
    check(h.describe()[1] == actions, 'its actions are described')


# ---------------------------------------------------------------- test processes

def d_test_without_timeout():
    """Without a timeout a test action is just a process action."""
    c, loop = process_model()
    t = make_test(None)
    visit_all_entities_and_collect_futures(t, c)
    check(len(loop.tasks) == 1, 'its process only')


def make_test(timeout):
    which = pick('test', 'gtest', 'pytest')
    kwargs = {} if timeout is None else {'timeout': timeout}
    if which == 'test':
        return Test(cmd=['prog'], **kwargs)
    if which == 'gtest':
        return GTest(path='prog', **kwargs)
    return PyTest(path='prog', **kwargs)


def d_test_timeout():
    """A test process that takes longer than its timeout is interrupted, then escalated."""
    c, loop = process_model()
    limit = pick(5.0, '5', [TextSubstitution(text='5.0')])
    t = make_test(limit)
    check(t.timeout is not None, 'the timeout')
    visit_all_entities_and_collect_futures(t, c)
    check(len(loop.tasks) == 2, 'the process and the timer')
    Case.loop, Case.context = loop, c
    OS.while_running = [time_is_up]
    process, timer = loop.tasks
    run(process)
    deliver(c)
    check(signals() == [signal.SIGINT], 'it is interrupted')
    check(logs('delay')[0][1] == 5.0, 'after the timeout')
    check([e.returncode for e in seen_events() if isinstance(e, ProcessExited)] == [2], 'its end is seen')


class Case:
    loop = None
    context = None


def time_is_up():
    run(Case.loop.tasks[1])
    check(signals() == [], 'not before')
    deliver(Case.context)
    OS.started[0].exits(2)


def d_test_in_time():
    """A test process that ends in time cancels its timer: nothing keeps the launch alive."""
    c, loop = process_model()
    t = make_test(5.0)
    visit_all_entities_and_collect_futures(t, c)
    process, timer = loop.tasks
    code = pick(0, 3, -9)
    OS.while_running = [lambda: OS.started[0].exits(code)]
    run(process)
    deliver(c)
    OS.while_delayed = lambda: log('waits', OS.waited)
    run(timer)
    deliver(c)
    check(signals() == [], 'no signal')
    check(len([e for e in seen_events() if isinstance(e, TimerEvent)]) == 0, 'the timer is cancelled')


def d_other_process_exits():
    """The end of another process does not cancel the timer."""
    c, loop = process_model()
    t = make_test(5.0)
    visit_all_entities_and_collect_futures(t, c)
    other = Process('other')
    process_event(c, exited(other))
    Case.loop, Case.context = loop, c
    OS.while_running = [time_is_up]
    run(loop.tasks[0])
    deliver(c)
    check(signals() == [signal.SIGINT], 'it is interrupted all the same')


def d_test_commands():
    """What the actions run."""
    c, loop = process_model()
    which = pick('gtest', 'pytest')
    p = pick('a/test', [TextSubstitution(text='a/'), TextSubstitution(text='test')])
    t = GTest(path=p) if which == 'gtest' else PyTest(path=p)
    check(t.path is p, 'the path')
    visit_all_entities_and_collect_futures(t, c)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    cmd = logs('spawn')[0][1]
    check(cmd[-1] == 'a/test', 'the test')
    check(len(cmd) == 1 if which == 'gtest' else cmd[1:3] == ['-m', 'pytest'], 'with its runner')


def d_test_options():
    """The other arguments are those of a process action."""
    c, loop = process_model()
    which = pick('gtest', 'pytest')
    kwargs = {'name': 'me', 'timeout': 3.0, 'kill_timeout': 1.0}
    t = GTest(path='x', **kwargs) if which == 'gtest' else PyTest(path='x', **kwargs)
    check(t.timeout == 3.0, 'its timeout')
    visit_all_entities_and_collect_futures(t, c)
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    check(t.process_details['name'].startswith('me'), 'its name')
