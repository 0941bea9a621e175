"""Launch tests of pytest: what runs when, and what is reported."""
import pytest

from launch import LaunchDescription
from launch import LaunchDescriptionEntity
from launch.actions import GroupAction
from launch.actions import OpaqueFunction
from launch_pytest import fixture
from launch_pytest import plugin
from launch_pytest.actions import ReadyToTest
from launch_pytest.tools import assert_output
from launch_pytest.tools import assert_output_sync
from launch_pytest.tools import assert_stderr
from launch_pytest.tools import assert_stderr_sync
from launch_pytest.tools import wait_for_exit
from launch_pytest.tools import wait_for_exit_sync
from launch_pytest.tools import wait_for_output
from launch_pytest.tools import wait_for_output_sync
from launch_pytest.tools import wait_for_start
from launch_pytest.tools import wait_for_start_sync
from launch_pytest.tools import wait_for_stderr
from launch_pytest.tools import wait_for_stderr_sync

from drv.pt import *
from drv.lt import Process
from drv.lt import started
from drv.lt import exited
from drv.lt import out
from drv.lt import err

OPTIONS = {'d_order': {'budget': 4000000}, '*': {'modules': {'pytest': ['=_pytest.outcomes', '=_pytest.python', '=_pytest.scope',
                                        '=_pytest.fixtures']}}}


class Namespace:
    pass


class Collector:
    """The module whose tests are collected."""

    def __init__(self, **names):
        self.names = names
        self.session = Session()

    def funcnamefilter(self, name):
        return name.startswith('test')

    def _genfunctions(self, name, obj):
        params = None
        key = None
        for m in getattr(obj, 'pytestmark', []):
            if m.name == 'usefixtures':
                for f in World.fixtures:
                    if f.name in m.args and f._fixture_function_marker.params is not None:
                        params = f._fixture_function_marker.params
                        key = f.name
        if params is None:
            yield pytest.Function(name, self, obj)
            return
        for p in params:
            i = pytest.Function('%s[%s]' % (name, p), self, obj)
            i.callspec = pytest.CallSpec({key: p})
            yield i

    def collect(self):
        items = []
        for name, obj in self.names.items():
            r = plugin.pytest_pycollect_makeitem(collector=self, name=name, obj=obj)
            if r is not None:
                items.extend(r)
        return items


class Here:
    """What the functions of inspect say about the caller."""

    module = None

    def stack(*args):
        return [('inner',), ('outer',)]

    def getmodule(frame, *args):
        return Here.module


def wrapped(hook, inner, **kwargs):
    """Call the wrapper of a hook."""
    results = []
    new = hook.pytest_impl.get('wrapper', False)

    def at_yield(_):
        if new:
            results.append(pytest.Outcome(inner(), None))
            return results[-1].value
        try:
            results.append(pytest.Outcome(inner(), None))
        except BaseException as e:
            results.append(pytest.Outcome(None, e))
        return results[-1]
    drive(hook(**kwargs), at_yield)
    check(len(results) == 1, 'a wrapper of a hook lets the others do their part once')
    return results[0].get_result()


def set_up(definition, service):
    """Set up a fixture -> (definition, how it went)."""
    fd = FixtureDef(definition)

    def inner():
        value = fd.func()
        fd.cached_result = (value, None, None)
        return value
    r = outcome(wrapped, plugin.pytest_fixture_setup, inner, fixturedef=fd,
                request=Request({'launch_service': service, 'event_loop': World.loop}))
    return (fd, r)


def tear_down(fd):
    r = ('ok', None)
    while fd.finalizers:
        o = outcome(fd.finalizers.pop())
        r = o if o[0] == 'raise' else r
    return r


def call_item(item, service, **values):
    """Run a test item -> how it went."""
    item.funcargs = dict(values, launch_service=service, event_loop=World.loop)
    if item._fixtureinfo is None:
        item._fixtureinfo = item.session._fixturemanager.getfixtureinfo(item, item.obj, item.cls)

    def inner():
        f = item.obj
        return f(**{a: item.funcargs[a] for a in item._fixtureinfo.argnames})
    return outcome(wrapped, plugin.pytest_pyfunc_call, inner, pyfuncitem=item)


def begin(*stimuli):
    pytest_world(*stimuli)
    stub('inspect.stack', Here.stack)
    stub('inspect.getmodule', Here.getmodule)
    Here.module = Namespace()
    World.fixtures = []
    return Service()


def launch_fixture(value, name=None, **kwargs):
    """A fixture of the user, which gives the value."""
    def it():
        log('fixture')
        if isinstance(value, BaseException):
            raise value
        return value
    f = fixture(name=name, **kwargs)(it)
    World.fixtures.append(f)
    return f


def ready(service, ld):
    """The ReadyToTest action of a launch description is executed."""
    for e in ld.entities:
        if isinstance(e, ReadyToTest):
            log('ready')
            e.execute(service.context)


def running(scope='function', value=None, **kwargs):
    """A launch which is being tested -> (service, fixture, its definition)."""
    s = begin()
    ld = LaunchDescription([ReadyToTest()])
    fx = launch_fixture(ld, scope=scope, **kwargs)
    World.stimuli = [(101, lambda: ready(s, ld))]
    fd, r = set_up(fx, s)
    check(r == ('ok', ld), 'a launch which gets ready is set up')
    return (s, fx, fd)


def launch_test(fx, obj, **kwargs):
    return pytest.mark.launch(fixture=fx, **kwargs)(obj)


# ------------------------------------------------------------------------------------- fixtures
def d_fixture():
    """The launch description of a fixture is run, and the tests wait until it is ready."""
    idle = pick(True, False)
    how = pick('plain', 'tuple', 'list')
    s = begin()
    ld = LaunchDescription([ReadyToTest()])
    value = ld if how == 'plain' else (ld, 'more') if how == 'tuple' else [ld, 'more']
    fx = launch_fixture(value, shutdown_when_idle=idle)
    World.stimuli = [(101, lambda: log('meanwhile')), (102, lambda: ready(s, ld)), (103, lambda: log('later'))]
    fd, r = set_up(fx, s)
    check(r[0] == 'ok' and r[1] is value, 'the tests get what the fixture gave')
    check(s.included == [ld], 'the launch description of the fixture is launched')
    check(len(logs('launch')) == 1 and s.options is idle, 'the launch runs once, with its options')
    check(len(logs('ready')) == 1 and not logs('later'), 'the tests start once the launch is ready')
    check(s.state == 'running' and not s.stopping, 'the launch keeps running')
    check(fd.cached_result is not None and fd.cached_result[0] is value,
          'other tests get the fixture once it is set up')


def d_other_fixture():
    """Other fixtures do not launch anything."""
    s = begin()
    value = pick('x', None)
    broken = pick(True, False)

    def it():
        if broken:
            raise UserError('it')
        return value
    fd, r = set_up(pytest.fixture(it), s)
    check(r[0] == 'raise' and isinstance(r[1], UserError) if broken else r == ('ok', value),
          'other fixtures are as they are')
    check(s.included == [] and s.state == 'new' and not fd.finalizers, 'other fixtures launch nothing')
    check(broken or fd.cached_result == (value, None, None), 'other fixtures are kept')


def d_bad_fixture():
    """A launch fixture which does not give a launch description fails its tests."""
    s = begin()
    value = pick(None, [], (), [1], 'text', (None, LaunchDescription([])), UserError('x'))
    fd, r = set_up(launch_fixture(value), s)
    check(r[0] == 'raise', 'a fixture without launch description fails')
    check(not isinstance(value, UserError) or r[1] is value, 'what a fixture raises is reported')
    check(not logs('launch') and s.state == 'new', 'nothing is launched')
    check(fd.cached_result is None, 'no other test gets a fixture which could not be set up')
    check(tear_down(fd)[0] == 'ok', 'nothing has to be ended')


def d_not_ready():
    """A launch which ends before it is ready fails the tests, and does not block them."""
    s = begin()
    code = pick(0, 1)
    error = pick(None, UserError('launch'))
    ld = LaunchDescription([ReadyToTest()])
    World.stimuli = [(101, lambda: log('meanwhile')), (102, lambda: s.ends(code, error))]
    fd, r = set_up(launch_fixture(ld, scope=pick('function', 'module')), s)
    check(not logs('stuck'), 'tests do not wait for a launch which has ended')
    check(r[0] == 'raise' and isinstance(r[1], Exception), 'a launch which ends before it is ready fails its tests')
    check(fd.cached_result is None, 'no other test gets a launch which never became ready')


class Branches(LaunchDescriptionEntity):
    """What is below it depends on something."""

    def __init__(self, *branches):
        self.branches = branches

    def describe_sub_entities(self):
        return []

    def describe_conditional_sub_entities(self):
        return [('it is so', b) for b in self.branches]


def d_ready_action():
    """A ReadyToTest action is found wherever it is, or added; two of them are refused."""
    s = begin()
    where = pick('none', 'first', 'nested', 'deep', 'two', 'two nested', 'branch', 'two branches')
    r1 = ReadyToTest()
    other = OpaqueFunction(function=lambda context: None)
    if where == 'none':
        entities = [other]
    elif where == 'first':
        entities = [r1, other]
    elif where == 'nested':
        entities = [other, GroupAction([r1])]
    elif where == 'deep':
        entities = [LaunchDescription([GroupAction([other, r1])])]
    elif where == 'two':
        entities = [r1, other, ReadyToTest()]
    elif where == 'branch':
        entities = pick([Branches([other], [r1])], [Branches([r1], [other])],
                        [Branches([], [GroupAction([r1])])])
    elif where == 'two branches':
        entities = [Branches([r1], [ReadyToTest()])]
    else:
        entities = [r1, GroupAction([ReadyToTest()])]
    ld = LaunchDescription(list(entities))

    def get_ready():
        if where == 'none':
            ready(s, ld)
        else:
            r1.execute(s.context)
    World.stimuli = [(101, get_ready)]
    fd, r = set_up(launch_fixture(ld), s)
    if where.startswith('two'):
        check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'two actions to get ready are refused')
        check(fd.cached_result is None, 'no other test gets a refused launch')
    else:
        check(r == ('ok', ld), 'the action to get ready is found')
        if where == 'none':
            check(len(ld.entities) == 2 and ld.entities[0] is other and
                  isinstance(ld.entities[-1], ReadyToTest), 'an action to get ready is added at the end')
        else:
            check(ld.entities == entities, 'no second action to get ready is added')


def d_teardown():
    """After its tests, a launch is shut down and run to its end; a failure is reported."""
    auto = pick(True, False)
    code = pick(0, 1)
    s, fx, fd = running(pick('function', 'module'), auto_shutdown=auto,
                        shutdown_when_idle=pick(True, False))
    s.code = code
    World.stimuli = [(150, lambda: log('last words')), (151, lambda: s.ends())]
    r = tear_down(fd)
    check(s.stopping is auto, 'a launch is shut down after its tests, unless it does so itself')
    check(s.state == 'ended', 'a launch has ended after its tests')
    check(bool(logs('last words')) is not auto, 'a launch which is not shut down is waited for')
    check((r[0] == 'raise' and isinstance(r[1], AssertionError)) if code else r[0] == 'ok',
          'a launch which failed is reported')


def d_ended_meanwhile():
    """A launch which fails while the tests run is reported."""
    code = pick(0, 1)
    s, fx, fd = running(pick('function', 'module'), auto_shutdown=pick(True, False))

    def test_it():
        s.ends(code)
    item, = Collector(test_it=launch_test(fx, test_it)).collect()
    r = call_item(item, s)
    check(r[0] == 'ok', 'the test itself passes')
    r = tear_down(fd)
    check((r[0] == 'raise' and isinstance(r[1], AssertionError)) if code else r[0] == 'ok',
          'a launch which failed meanwhile is reported')


# ---------------------------------------------------------------------------------------- tests
def d_test():
    """Functions and coroutines run once, alongside the launch or after it."""
    is_async = pick(False, True)
    after = pick(False, True)
    auto = pick(True, False)
    error = pick(None, AssertionError('wrong'), UserError('broken'))
    s, fx, fd = running(pick('function', 'module'), auto_shutdown=auto)
    World.stimuli = [(150, lambda: s.ends())]

    def test_it(value):
        log('test', value, s.state)
        if error is not None:
            raise error

    async def atest_it(value):
        log('test', value, s.state)
        if error is not None:
            raise error
    item, = Collector(test_it=launch_test(fx, atest_it if is_async else test_it, shutdown=after)).collect()
    r = call_item(item, s, value=3)
    check([x[1] for x in logs('test')] == [3], 'a test runs once, with its arguments')
    check([x[2] for x in logs('test')] == ['ended' if after else 'running'],
          'a test runs alongside the launch, or after it')
    check(s.stopping is (after and auto), 'the launch is shut down before the tests for after it')
    check(len(logs('in a thread')) == (0 if is_async else 1), 'functions run alongside the launch in a thread')
    check(r[0] == 'ok' if error is None else r[0] == 'raise' and r[1] is error, 'a failing test is reported')
    check(tear_down(fd)[0] == 'ok', 'the launch is ended')
    check(s.state == 'ended', 'the launch has ended')


def d_failed_launch():
    """When the launch fails as it is shut down, tests for after it fail and are not run."""
    s, fx, fd = running('module')

    def test_it():
        log('test')

    async def atest_it():
        log('test')
    item, = Collector(test_it=launch_test(fx, pick(test_it, atest_it), shutdown=True)).collect()
    s.code = 1
    r = call_item(item, s)
    check(r[0] == 'raise' and isinstance(r[1], AssertionError), 'the failure of the launch is reported')
    check(not logs('test'), 'the test is not run after a launch which failed')


def d_two_parts():
    """The first part of a generator runs alongside the launch, the second one after it."""
    is_async = pick(False, True)
    scope = pick('module', 'class')
    yields = pick(1, 2)
    first = pick(None, AssertionError('first'))
    second = pick(None, AssertionError('second'))
    s, fx, fd = running(scope, auto_shutdown=True)
    f = two_part('two', is_async=is_async, yields=yields, first=first, second=second)
    item, later = Collector(test_it=launch_test(fx, f)).collect()
    r = call_item(item, s, value=4)
    check([x[1:] for x in logs('called')] == [('two', 4)], 'the generator is made once, with its arguments')
    check(len(logs('step')) == 1 and not s.stopping, 'the first part runs alongside the launch')
    check(r[0] == 'ok' if first is None else r[0] == 'raise' and r[1] is first,
          'the failure of the first part is reported')
    check(len(logs('in a thread')) == (0 if is_async else 1), 'the first part of a function runs in a thread')
    r = call_item(later, s, value=4)
    if first is not None:
        check(r[0] == 'raise' and isinstance(r[1], pytest.Skipped), 'the second part is skipped after a failure')
        check(len(logs('step')) == 1, 'the second part is not run after a failure')
        return
    check(s.state == 'ended' and s.stopping, 'the launch ends before the second part')
    check(len(logs('step')) == 2, 'the second part runs once')
    check([i for i, x in enumerate(logs('launch ended', 'step')) if x[0] == 'launch ended'] == [1],
          'the second part runs after the launch')
    if second is not None:
        check(r[0] == 'raise' and r[1] is second, 'the failure of the second part is reported')
    elif yields == 2:
        check(r[0] == 'raise' and isinstance(r[1], pytest.Failed), 'a test which yields twice fails')
    else:
        check(r[0] == 'ok', 'a test passes when both its parts pass')


def d_two_parts_each():
    """Each of the tests that are made of one function has its own second part."""
    s, fx, fd = running('module', params=['a', 'b'])
    f = two_part('two', is_async=pick(False, True))
    one, two, later_one, later_two = Collector(test_it=launch_test(fx, f)).collect()
    first = pick(True, False)
    check(call_item(one, s, value=1)[0] == 'ok', 'the first of them')
    if first:
        check(call_item(two, s, value=2)[0] == 'ok', 'the other one')
    check(call_item(later_one, s, value=1)[0] == 'ok', 'the second part of the first')
    r = call_item(later_two, s, value=2)
    if first:
        check(r[0] == 'ok', 'the second part of the other')
        check([x[2] for x in logs('step')] == [1, 1, 2, 2], 'each part once')
    else:
        check(r[0] == 'raise' and isinstance(r[1], pytest.Skipped), 'none without its first part')


def d_two_parts_failed_launch():
    """The second part fails, and does not run, when the launch fails."""
    scope = pick('function', 'module')
    s, fx, fd = running(scope)
    f = two_part('two', is_async=pick(False, True))
    items = Collector(test_it=launch_test(fx, f)).collect()
    check(len(items) == (1 if scope == 'function' else 2), 'the parts run one after the other')
    if scope == 'module':
        check(call_item(items[0], s, value=1)[0] == 'ok', 'the first part passes')
    s.code = 1
    r = call_item(items[-1], s, value=1)
    check(r[0] == 'raise' and isinstance(r[1], AssertionError), 'the failure of the launch is reported')
    check(len(logs('step')) == 1, 'the second part is not run after a launch which failed')


def d_one_launch_each():
    """When every test has its own launch, both parts of a generator run for it."""
    is_async = pick(False, True)
    yields = pick(0, 1, 2)
    first = pick(None, AssertionError('first'))
    second = pick(None, AssertionError('second'))
    s, fx, fd = running('function')
    f = two_part('two', is_async=is_async, yields=yields, first=first, second=second)
    item, = Collector(test_it=launch_test(fx, f)).collect()
    r = call_item(item, s, value=4)
    check([x[1:] for x in logs('called')] == [('two', 4)], 'the generator is made once, with its arguments')
    if first is not None or yields == 0:
        check(r[0] == 'raise' and (first is None or r[1] is first), 'the failure of the first part is reported')
        check(len(logs('step')) == 1, 'the second part is not run after a failure')
        return
    check([x[0] for x in logs('step', 'shut down', 'launch ended')] ==
          ['step', 'shut down', 'launch ended', 'step'], 'the launch is shut down between the parts')
    if second is not None:
        check(r[0] == 'raise' and r[1] is second, 'the failure of the second part is reported')
    elif yields == 2:
        check(r[0] == 'raise' and isinstance(r[1], pytest.Failed), 'a test which yields twice fails')
    else:
        check(r[0] == 'ok', 'a test passes when both its parts pass')


def d_only_second_part():
    """The second part of a test is skipped when the first one is not run."""
    s, fx, fd = running('module')
    f = two_part('two', is_async=pick(False, True))
    item, later = Collector(test_it=launch_test(fx, f)).collect()
    r = call_item(later, s, value=4)
    check(r[0] == 'raise' and isinstance(r[1], pytest.Skipped), 'the second part is skipped')
    check(not logs('step') and not logs('called'), 'nothing is run')


def d_shutdown_generator():
    """A generator cannot be a test for after the launch."""
    s, fx, fd = running(pick('function', 'module'))
    f = two_part('two', is_async=pick(False, True))
    for item in Collector(test_it=launch_test(fx, f, shutdown=True)).collect():
        r = call_item(item, s, value=4)
        check(r[0] == 'raise' and isinstance(r[1], pytest.Failed), 'the test fails')
    check(not logs('step'), 'nothing is run')


def d_other_test():
    """Other tests are run as they are."""
    s = begin()
    mark = pick(True, False)

    def test_it(value):
        log('test', value)
        return 1
    item = pytest.Function('test_it', Collector(test_it=pytest.mark.slow(test_it) if mark else test_it))
    r = call_item(item, s, value=2)
    check(logs('test') == [('test', 2)] and r == ('ok', 1), 'other tests are run once')
    check(item.obj is test_it and not logs('loop runs'), 'other tests are run as they are')


# ----------------------------------------------------------------------------------- collecting
def d_collect():
    """Tests marked as launch tests are collected, with the fixtures they need."""
    s = begin()
    scope = pick('function', 'module')
    kind_ = pick('function', 'coroutine', 'generator', 'async generator')
    after = pick(None, False, True) if kind_ in ('function', 'coroutine') else None
    name = pick(None, 'other')
    params = pick(None, ['a', 'b'])
    fx = launch_fixture(LaunchDescription([]), name=name, scope=scope, params=params)

    def f():
        pass

    async def af():
        pass
    f = f if kind_ == 'function' else af if kind_ == 'coroutine' else two_part(
        'g', is_async=kind_ != 'generator')
    kwargs = {} if after is None else {'shutdown': after}
    c = Collector(test_it=launch_test(fx, f, **kwargs))
    items = c.collect()
    parts = 2 if kind_.endswith('generator') and scope == 'module' else 1
    check(len(items) == parts * (1 if params is None else 2),
          'a test is collected for every parameter, and for both of its parts')
    for i in items:
        names = [n for m in i.iter_markers('usefixtures') for n in m.args]
        check((name or 'it') in names, 'a launch test uses its launch')
        check('event_loop' in names and 'launch_service' in names, 'a launch test uses the loop and the service')
        check(not i.extra and not i.warned, 'a launch test is run')
    check(len(set([i.name for i in items])) == len(items), 'the tests have different names')
    check([i for i in items if i.name == 'test_it' or i.name.startswith('test_it[')] == items,
          'the tests are called after their function')


def d_collect_other():
    """Other objects are left to pytest."""
    s = begin()
    fx = launch_fixture(LaunchDescription([]))

    def f():
        pass
    what = pick('unmarked', 'name', 'object')
    if what == 'unmarked':
        c = Collector(test_it=f)
    elif what == 'name':
        c = Collector(helper=launch_test(fx, f))
    else:
        c = Collector(test_it='text')
    check(c.collect() == [], 'other objects are left to pytest')


def d_collect_invalid():
    """A launch test which does not say its fixture is skipped, with a warning."""
    s = begin()
    kwargs = pick({}, {'fixture': None}, {'shutdown': True})

    def f():
        pass
    items = Collector(test_it=pytest.mark.launch(**kwargs)(pick(f, two_part('g')))).collect()
    check(len(items) == 1, 'the test is collected')
    check([m.name for m in items[0].extra] == ['skip'], 'the test is skipped')
    check(len(items[0].warned) == 1 and isinstance(items[0].warned[0], pytest.PytestWarning),
          'the user is warned')


def order_of(n, scope):
    s = begin()
    a = launch_fixture(LaunchDescription([]), scope=scope)
    b = launch_fixture(LaunchDescription([]), scope='module')
    moved = a._fixture_function_marker.scope == 'module'

    def one(i):
        what = pick('a', 'a after', 'b', 'b after', 'plain') if i else pick('a after', 'b after', 'plain')

        def test_it():
            pass
        if what == 'plain':
            it = pytest.Function('test_it', Collector(test_it=test_it))
        else:
            it, = Collector(test_it=launch_test(a if what[0] == 'a' else b, test_it,
                                                shutdown=what.endswith('after'))).collect()
        return (what, it)
    tests = [one(i) for i in range(n)]
    items = [t[1] for t in tests]
    plugin.pytest_collection_modifyitems(session=None, config=None, items=items)
    what = []
    at = []
    for i in items:
        for j, t in enumerate(tests):
            if t[1] is i:
                what.append(t[0])
                at.append(j)
    check(sorted(at) == list(range(n)), 'all tests are run once')
    for f in ('a', 'b'):
        if f == 'b' or moved:
            order = [w for w in what if w.startswith(f)]
            check(order == sorted(order), 'tests for after a launch are run after its other tests')
        else:
            order = [j for w, j in zip(what, at) if w.startswith(f)]
            check(order == sorted(order), 'tests which have their own launches stay in order')
    for f in ('a', 'a after', 'b', 'b after'):
        order = [j for w, j in zip(what, at) if w == f]
        check(order == sorted(order), 'tests of the same kind stay in order')
    for j in range(n):
        kind_ = tests[j][0]
        if kind_.endswith('after') and not (
                (kind_[0] == 'b' or moved) and kind_[0] in [t[0] for t in tests[j + 1:]]):
            check([k for k in at[:at.index(j)] if k > j and not tests[k][0].endswith('after')] == [],
                  'no test is moved without need')
    rest = [j for w, j in zip(what, at) if not w.endswith('after')]
    check(rest == sorted(rest), 'other tests stay in order')


def d_order():
    """Tests for after a launch are run after all other tests of that launch."""
    order_of(4, 'module')


def d_order_own():
    """Tests which have their own launches stay where they are."""
    order_of(3, 'function')


def d_order_parameters():
    """Launches with different parameters are different launches."""
    s = begin()
    fx = launch_fixture(LaunchDescription([]), scope='module', params=['x', 'y'])

    def test_it():
        pass

    def test_after():
        pass
    items = Collector(test_after=launch_test(fx, test_after, shutdown=True),
                      test_it=launch_test(fx, test_it)).collect()
    check([i.name for i in items] == ['test_after[x]', 'test_after[y]', 'test_it[x]', 'test_it[y]'],
          'the tests are collected')
    items = [items[0], items[2], items[1], items[3]]
    plugin.pytest_collection_modifyitems(session=None, config=None, items=items)
    check([i.name for i in items] == ['test_it[x]', 'test_after[x]', 'test_it[y]', 'test_after[y]'],
          'a test for after a launch is run after the other tests of the same launch')


# ------------------------------------------------------------------------------- other fixtures
def d_service():
    """Every test which needs one has a launch service, which has ended afterwards."""
    begin()
    f = plugin.launch_service._fixture_function
    given = []
    code = pick(0, 1)

    def use(service):
        given.append(service)
        World.loop.create_task(service.run_async())
        if state == 'running':
            service.begins()
            service.code = code
        return None
    state = pick('new', 'running')
    r = outcome(drive, f(World.loop), use)
    check(len(given) == 1 and isinstance(given[0], Service), 'a test gets a launch service')
    check(given[0].stopping and (state == 'new' or given[0].state == 'ended'), 'the launch has ended after the test')
    check(r[0] == 'ok' if state == 'new' or code == 0 else r[0] == 'raise', 'a launch which failed is reported')
    s = Service()
    check(plugin.launch_context._fixture_function(s) is s.context, 'a test gets the context of its launch')


def d_loop():
    """Every test which needs one has an event loop, closed afterwards."""
    begin()
    given = []

    def use(loop):
        given.append(loop)
        check(not loop.closed, 'the loop of a test is open')
        check([x[1] for x in logs('current loop')] == [loop], 'the loop of a test is the current one')
    drive(plugin.event_loop._fixture_function(), use)
    check(len(given) == 1 and isinstance(given[0], Loop) and given[0].closed, 'the loop is closed after the test')


def of_the_user():
    pass


def d_decorator():
    """A launch fixture is a fixture; what it needs gets a scope as wide."""
    begin()
    scope = pick('function', 'class', 'module')
    order = pick(0, 1)
    plain = pick(True, False)
    m = Here.module
    own = pick('of the user', pytest.fixture(of_the_user), of_the_user)
    m.launch_context = own

    def it():
        return 1
    if order:
        other = fixture(scope='class')(it)
    if plain:
        f = fixture(it)
        scope = 'function'
    else:
        f = fixture(scope=scope, params=[1])(it)
        check(f._fixture_function_marker.params == [1], 'a launch fixture has the options of a fixture')
    check(f._fixture_function is it and f._fixture_function_marker.scope == scope,
          'a launch fixture is a fixture')
    if not order:
        other = fixture(scope='class')(it)
    wide = scope if scope == 'module' else 'class'
    check(m.launch_context is own, 'the fixtures of the user are left alone')
    check(m.launch_service._fixture_function_marker.scope == wide, 'the service lives as long as any launch')
    check(m.event_loop._fixture_function_marker.scope == wide, 'the loop lives as long as any launch')
    m2 = Namespace()
    Here.module = m2
    fixture(scope='function')(it)
    check(vars(m2) == {}, 'nothing is replaced for a launch of every test')


# ----------------------------------------------------------------------------------------- tools
class Talker(Process):
    """A process which has said something."""

    def __init__(self, name):
        super().__init__(name)
        self.said = {'out': '', 'err': ''}

    def says(self, context, text, stream):
        self.said[stream] += text
        context.deliver(out(self, text.encode()) if stream == 'out' else err(self, text.encode()))

    def get_stdout(self):
        return self.said['out']

    def get_stderr(self):
        return self.said['err']


def watched():
    """The tools which wait for output: (how to call it, its stream, does it assert, is it a thread)."""
    return pick(('wait', 'out', True), ('wait', 'out', False), ('wait', 'err', True), ('wait', 'err', False),
                ('assert', 'out', True), ('assert', 'out', False), ('assert', 'err', True),
                ('assert', 'err', False))


TOOLS = {
    ('wait', 'out', True): wait_for_output, ('wait', 'out', False): wait_for_output_sync,
    ('wait', 'err', True): wait_for_stderr, ('wait', 'err', False): wait_for_stderr_sync,
    ('assert', 'out', True): assert_output, ('assert', 'out', False): assert_output_sync,
    ('assert', 'err', True): assert_stderr, ('assert', 'err', False): assert_stderr_sync,
}


def use_tool(tool, context, process, want, **kwargs):
    """-> (has it been said, how the tool ended)"""
    def found(text):
        log('asked', text)
        return want in text

    def assert_found(text):
        log('asked', text)
        assert want in text

    def go():
        r = TOOLS[tool](context, process, assert_found if tool[0] == 'assert' else found, **kwargs)
        return run(waited(r)) if tool[2] else r
    r = outcome(go)
    if tool[0] == 'assert':
        ok = r[0] == 'ok'
        check(r == ('ok', None) or r[0] == 'raise' and isinstance(r[1], (AssertionError, Stuck)),
              'an assertion passes or fails')
        return (ok, r)
    check(r[0] == 'ok' and (r[1] is True or r[1] is False) or isinstance(r[1], Stuck), 'waiting ends with an answer')
    return (r[0] == 'ok' and r[1], r)


def other_stream(stream):
    return 'err' if stream == 'out' else 'out'


def d_output():
    """Waiting for output ends once it is there, or in time."""
    begin()
    tool = watched()
    c = Context()
    p = Talker('p')
    q = Talker('q')
    stream = tool[1]
    timeout = pick(None, 20)
    when = pick(105, 140)
    if pick(True, False):
        p.says(c, 'he', stream)
        more = 'llo'
    else:
        more = 'hello'
    World.stimuli = [(103, lambda: p.says(c, 'x' if more == 'hello' else '', stream)),
                     (104, lambda: q.says(c, 'hello', stream)),
                     (104, lambda: p.says(c, 'hello', other_stream(stream))),
                     (when, lambda: p.says(c, more, stream)), (500, lambda: log('too late'))]
    ok, r = use_tool(tool, c, p, 'hello', timeout=timeout)
    check(ok is (timeout is None or when == 105), 'waiting ends with success if, and only if, the output is there')
    check(timeout is None or World.now <= 140, 'waiting ends in time')
    check(not logs('too late'), 'waiting ends once the output is there')
    check(c.handlers == [], 'nothing stays registered')


def d_output_already():
    """Output which is there already is not waited for."""
    begin()
    tool = watched()
    c = Context()
    p = Talker('p')
    p.says(c, 'hello', tool[1])
    kwargs = pick({}, {'timeout': 5}, {'timeout': 0})
    there = pick(True, False) if kwargs == {'timeout': 0} else True
    ok, r = use_tool(tool, c, p, 'hello' if there else 'bye', **kwargs)
    check(ok is there, 'output which is there is found')
    check(not there or not logs('waits'), 'output which is there is not waited for')
    check(c.handlers == [], 'nothing stays registered')


def d_output_total():
    """Other output does not make the waiting longer."""
    begin()
    tool = watched()
    c = Context()
    p = Talker('p')
    times = pick([108, 116, 124, 132, 140, 148], [125, 190])
    World.stimuli = [(t, lambda: p.says(c, 'x', tool[1])) for t in times]
    ok, r = use_tool(tool, c, p, 'hello', timeout=30)
    check(ok is False and not logs('stuck'), 'waiting fails in time')
    check(World.now <= 145, 'the waiting takes no longer than asked for, in all')


def d_output_meanwhile():
    """Output which arrives while a test begins to wait for it is not missed."""
    begin()
    c = Context()
    p = Talker('p')
    how = pick('wait', 'assert')
    stream = pick('out', 'err')
    late = pick(False, True)

    def validate(text):
        ok = 'hello' in text
        if not logs('said') and ('x' in text or not late):
            log('said')
            p.says(c, 'hello', stream)
        if how == 'assert':
            assert ok
        return ok
    World.stimuli = [(103, lambda: p.says(c, 'x', stream))] if late else []
    World.stimuli.append((200, lambda: log('later')))
    r = outcome(TOOLS[(how, stream, False)], c, p, validate, timeout=pick(None, 50))
    check(r == ('ok', True if how == 'wait' else None), 'output which arrives meanwhile is found')
    check(not logs('later') and World.now < 130, 'output which arrives meanwhile is not waited for')
    check(c.handlers == [], 'nothing stays registered')


def d_output_error():
    """What the check of the user raises is raised, and nothing stays registered."""
    begin()
    tool = watched()
    c = Context()
    p = Talker('p')
    at = pick(0, 1)

    def validate(text):
        if len(text) == at:
            raise UserError('broken')
        if tool[0] == 'assert':
            assert False
        return False
    World.stimuli = [(103, lambda: p.says(c, 'x', tool[1]))]

    def go():
        r = TOOLS[tool](c, p, validate, timeout=50)
        return run(waited(r)) if tool[2] else r
    r = outcome(go)
    check(r[0] == 'raise' and isinstance(r[1], UserError), 'what the check raises is raised')
    check(c.handlers == [], 'nothing stays registered')


def d_started():
    """Waiting for the start or the exit of a process ends when it happens, or in time."""
    begin()
    tool, event = pick((wait_for_start, started), (wait_for_start_sync, started),
                       (wait_for_exit, exited), (wait_for_exit_sync, exited))
    c = Context()
    p = Talker('p')
    q = Talker('q')
    timeout = pick(None, 20)
    when = pick(105, 140)
    World.stimuli = [(103, lambda: c.deliver(event(q))),
                     (104, lambda: c.deliver(exited(p) if event is started else started(p))),
                     (104, lambda: p.says(c, 'x', 'out')),
                     (when, lambda: c.deliver(event(p))), (500, lambda: log('too late'))]

    def go():
        r = tool(c, p, **({} if timeout is None else {'timeout': timeout}))
        return run(waited(r)) if tool in (wait_for_start, wait_for_exit) else r
    r = outcome(go)
    check(r == ('ok', timeout is None or when == 105), 'waiting succeeds if, and only if, it happens in time')
    check(timeout is None or World.now <= 140, 'waiting ends in time')
    check(not logs('too late'), 'waiting ends once it happens')
    check(c.handlers == [], 'nothing stays registered')
