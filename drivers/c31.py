"""Launch tests: what runs when, with what, and what is reported."""
from drv.ltw import *

OPTIONS = {'*': {'modules': {'unittest': ['case'], 'xml.etree.ElementTree': []}}}


def d_run():
    """Tests run once everything is ready, the others once the launch is over; what fails counts."""
    test_world(turn)
    Bad.where = pick(None, 'one', 'three')
    Bad.how = pick(AssertionError, RuntimeError)
    alive = pick(False, True)

    def description():
        return describe()
    runs = load(keep_alive(description) if alive else description)
    check(len(runs) == 1, 'one run without parameters')
    runner = LaunchTestRunner(runs)
    runner.validate()
    results = runner.run()
    check(order() == ['thread started', 'launch', 'launched', 'thread runs', 'one', 'two',
                      'thread ends', 'launch ended', 'three'], 'each test once, at its time')
    check(logs('launch')[0][1] == (not alive), 'kept alive only if marked')
    check(list(results) == runs, 'a result for the run')
    r = results[runs[0]]
    check(r.testsRun == 3, 'all tests are counted')
    check(ids(r.testCases) == ['test_one', 'test_three', 'test_two'], 'all tests are listed')
    bad = [] if Bad.where is None else ['test_' + Bad.where]
    asserts = issubclass(Bad.how, AssertionError)
    check(ids([t for t, m in r.failures]) == (bad if asserts else []), 'what failed')
    check(ids([t for t, m in r.errors]) == ([] if asserts else bad), 'what raised')
    check(r.wasSuccessful() == (Bad.where is None), 'successful only if nothing failed')
    check(sorted([(t.id(), d) for t, d in r.testTimes.items()]) == sorted(
        [(t.id(), 1) for t in r.testCases]), 'how long each of them took')


class Other(unittest.TestCase):

    @unittest.skip('not now')
    def test_skipped(self):
        log('test', 'skipped')

    @unittest.expectedFailure
    def test_expected(self):
        happen('expected')

    def test_subtests(self):
        for i in range(3):
            with self.subTest(i=i):
                happen('sub%d' % i)
        log('test', 'after the subtests')


class OtherAfter(Other):
    __post_shutdown_test__ = True


def d_other_results():
    """Skipped tests, expected failures and subtests keep their meaning before and after shutdown."""
    test_world(turn)
    Bad.where = pick(None, 'expected', 'sub1')
    Bad.how = AssertionError
    runs = load(describe, pick(Other, OtherAfter), Before if pick(False, True) else After)
    r = LaunchTestRunner(runs).run()[runs[0]]
    check('skipped' not in executed(), 'a skipped test does not run')
    check('after the subtests' in executed(), 'subtests do not end the test')
    check([m for t, m in r.skipped] == ['not now'], 'reported as skipped')
    check(ids([t for t, m in r.expectedFailures]) == (
        ['test_expected'] if Bad.where == 'expected' else []), 'an expected failure')
    check(ids(r.unexpectedSuccesses) == (
        [] if Bad.where == 'expected' else ['test_expected']), 'an unexpected success')
    check(ids([t for t, m in r.failures]) == (
        ['test_subtests (i=1)'] if Bad.where == 'sub1' else []), 'failures of subtests')
    check(r.errors == [], 'no errors')
    check(r.wasSuccessful() == (Bad.where == 'expected'), 'success only without any of those')


def d_never_ready():
    """If it does not get ready in time, the run fails, no test runs, and nothing else is run."""
    test_world(turn, turn)
    timeout = pick(None, 7)

    def description():
        return LaunchDescription([Fixture(), Probe('later', subs=[]), Late([ReadyToTest()])])
    if timeout is not None:
        description = ready_to_test_action_timeout(timeout)(description)
    wanted = timeout or 15
    runs = load(description) + load(describe)
    results = LaunchTestRunner(runs).run()
    check([x[1] for x in logs('waited')][:1] == [wanted], 'waits for as long as it is told')
    check(executed() == [], 'no test without the processes')
    check(len(logs('launch ended')) == 1, 'the launch is ended, and it was the last one')
    failed(results, runs)


class Late(GroupAction):
    """Its actions are never executed."""

    def execute(self, context):
        return []


def failed(results, runs):
    check(list(results) == runs[:1], 'a result for the run')
    r = results[runs[0]]
    check(r.wasSuccessful() is False, 'not a success')
    check(r.testsRun == 3, 'all tests are counted')
    check(ids([t for t, m in r.failures]) == ['test_one', 'test_three', 'test_two'],
          'all tests have failed')
    check(ids(r.testCases) == ['test_one', 'test_three', 'test_two'], 'all are listed')
    check(sorted([t.id() for t in r.testTimes]) == sorted([t.id() for t in r.testCases]),
          'times of all of them')


def d_launch_dies():
    """If everything ends before the tests are done, the run fails, and nothing else is run."""
    code = pick(0, 1)
    where = []

    def description():
        where.append(Fixture(code=code))
        return LaunchDescription([where[-1], Fixture('q'), ReadyToTest()])

    test_world(lambda: where[0].says(b'last words'), lambda: interrupt())
    runs = load(description) + load(describe)
    results = LaunchTestRunner(runs).run()
    check(executed() == [], 'no test ran')
    check(len(logs('launch')) == 1, 'it was the last launch')
    failed(results, runs)


def interrupt():
    """Ctrl+C."""
    for s in Signals.current.handlers:
        if s == 2:
            Signals.current.handlers[s](s)


def d_skipped():
    """A skipped description skips all of its tests, and only these."""
    test_world(turn)

    def skipped():
        raise unittest.SkipTest('no hardware')
    runs = load(skipped) + load(describe)
    results = LaunchTestRunner(runs).run()
    check(list(results) == runs, 'a result for each run')
    r = results[runs[0]]
    check(ids([t for t, m in r.skipped]) == ['test_one', 'test_three', 'test_two'], 'all skipped')
    check([m for t, m in r.skipped] == ['no hardware'] * 3, 'with the reason')
    check(r.wasSuccessful() is True and r.testsRun == 3 and r.failures == [] and r.errors == [],
          'which is no failure')
    check(ids(r.testCases) == ['test_one', 'test_three', 'test_two'] and
          len(r.testTimes) == 3, 'all are listed')
    check(executed() == ['one', 'two', 'three'], 'the other run is not')
    check(results[runs[1]].wasSuccessful(), 'its result')


class Wants(unittest.TestCase):
    """Asks for everything."""

    @classmethod
    def setUpClass(cls, proc_info, given=None):
        log('class', proc_info, given)

    @classmethod
    def tearDownClass(cls, arg):
        log('class ends', arg)

    def setUp(self, proc_output, given=None):
        log('set up', proc_output, given)

    def tearDown(self, test_args):
        log('tear down', test_args)

    def test_it(self, proc_info, proc_output, test_args, arg, given, *, other='default'):
        log('test', 'it')
        log('given', proc_info, proc_output, test_args, arg, given, other)
        log('attributes', self.proc_info, self.proc_output, self.test_args)


class WantsService(Wants):

    def test_it(self, launch_service, proc_info, proc_output, test_args, arg, given):
        super().test_it(proc_info, proc_output, test_args, arg, given)
        log('service', launch_service, self.launch_service)


class WantsAfter(Wants):
    __post_shutdown_test__ = True


def d_arguments():
    """Tests get what their parameters are named after: the same while and after it runs."""
    test_world(turn)
    thing_given = thing('given')
    clash = pick({}, {'arg': 6})

    @parametrize('arg', [5])
    def description(arg):
        log('described', arg)
        return describe(DeclareLaunchArgument('x'), DeclareLaunchArgument('y', default_value='d'),
                        Configs()), dict({'given': thing_given}, **clash)
    runs = load(description, WantsService, WantsAfter)
    more = pick([], ['y:=e'])
    runner = LaunchTestRunner(runs, ['x:=1', 'x:=2:=3', *more])
    runner.validate()
    r = runner.run()[runs[0]]
    check([m for t, m in r.errors] == [] and r.wasSuccessful(), 'they run')
    check(executed() == ['it', 'it'], 'each once')
    check([x[1] for x in logs('described')] == [5], 'described once, with the parameter')
    check([x[1:] for x in logs('configs')] == [('2:=3', 'e' if more else 'd')], 'arguments reach the description')
    before, after = logs('given')
    all_given = {'x': '2:=3', 'y': 'e'} if more else {'x': '2:=3'}
    for x in (before, after):
        check(dict(x[3]) == all_given, 'the launch arguments, the last one wins')
        check(x[4] == 5 and x[5] is thing_given and x[6] == 'default', 'parameters and context')
    check(kind(before[1]) == 'ActiveProcInfoHandler' and
          kind(before[2]) == 'ActiveIoHandler', 'what can wait')
    check(kind(after[1]) == 'ProcInfoHandler' and
          kind(after[2]) == 'IoHandler', 'what is known in the end')
    for x, y in zip(logs('given'), logs('attributes')):
        check([a is b for a, b in zip(x[1:3], y[1:3])] == [True, True] and
              dict(y[3]) == dict(x[3]), 'the attributes are the same')
    check(logs('service')[0][1] is logs('service')[0][2] and
          logs('service')[0][1] is World.service, 'the service that runs')
    check([x[1] is y[2] for x, y in zip(logs('set up'), logs('given'))] == [True, True],
          'also when a test is set up')
    check([x[2] is thing_given for x in logs('set up')] == [True, True], 'the context, too')
    check([dict(x[1]) for x in logs('tear down')] == [all_given] * 2, 'and torn down')
    check([x[1] is y[1] for x, y in zip(logs('class'), logs('given'))] == [True, True] and
          [x[2] is thing_given for x in logs('class')] == [True, True], 'or a class')
    check([x[1] for x in logs('class ends')] == [5, 5], 'is torn down')


class Configs(Probe):

    def __init__(self):
        super().__init__('configs')

    def execute(self, context):
        log('configs', *[context.launch_configurations.get(n) for n in ('x', 'y')])


def d_no_service_after():
    """After the launch there is no service: a test that asks for it fails."""
    test_world(turn)

    class AsksFor(unittest.TestCase):
        __post_shutdown_test__ = True

        def test_it(self, launch_service):
            log('test', 'it')
    runs = load(describe, AsksFor)
    r = LaunchTestRunner(runs).run()[runs[0]]
    check(executed() == [] and len(r.errors) == 1 and not r.wasSuccessful(), 'it fails')


class Prepared(LaunchTestRunner):

    def generate_preamble(self):
        return [Probe('first'), Probe('second')]


def d_preamble():
    """Runners can have entities of their own in each launch, before all others."""
    test_world(turn, turn)

    @parametrize('a', [1, 2])
    def description(a):
        return describe(Probe('described'))
    results = Prepared(load(description)).run()
    check([x[1] for x in logs('execute')] == ['first', 'second', 'described'] * 2, 'all, in order')
    check(all([x.wasSuccessful() for x in results.values()]), 'and the tests run')


class Preempted(BaseException):
    pass


def preempted():
    try:
        turn()
    except Preempted:
        log('thread stopped')


def shut_down_slowly(self, *args, **kwargs):
    unstub('launch.launch_service.LaunchService.shutdown')
    self.shutdown(*args, **kwargs)
    raise Preempted()


def d_launch_ends_first():
    """The launch may be over before the thread of the tests has got any further."""
    test_world(preempted)
    stub('launch.launch_service.LaunchService.shutdown', shut_down_slowly)
    runs = load(describe)
    r = LaunchTestRunner(runs).run()[runs[0]]
    check(len(logs('thread stopped')) == 1, 'the thread is slow')
    check(r.wasSuccessful() and r.testsRun == 3, 'that is no failure')


def d_malformed_arguments():
    """Launch arguments that are not name:=value are refused before anything is launched."""
    test_world(turn)
    bad = pick('x', ':=1', 'x:=', 'x=1', '')
    runs = load(describe)
    check(raised(Exception, lambda: LaunchTestRunner(runs, ['y:=1', bad]).run()), 'refused')
    check(len(logs('launch')) == 0, 'nothing is launched')


def d_recorded():
    """What the processes do is known to the tests, also what they do before the tests start."""
    p = Fixture('p', 3)
    q = Fixture('q')
    test_world(lambda: p.says(b'a'), lambda: p.says(b'b', True), lambda: p.stop(), turn)

    class Looks(unittest.TestCase):

        def test_it(self, proc_info, proc_output):
            log('test', 'it')
            looks(proc_info, proc_output, p, q)
            check(len([x for x in proc_info if isinstance(x, ProcessExited)]) == 1, 'still running')

    class LooksAfter(unittest.TestCase):
        __post_shutdown_test__ = True

        def test_it(self, proc_info, proc_output):
            log('test', 'it')
            looks(proc_info, proc_output, p, q)
            check(proc_info['q'].returncode == 0, 'what exits in the end')
    runs = load(lambda: LaunchDescription([p, q, ReadyToTest()]), Looks, LooksAfter)
    r = LaunchTestRunner(runs).run()[runs[0]]
    check([m for t, m in r.errors + r.failures] == [], 'no failure')
    check(executed() == ['it', 'it'], 'each once')


def looks(proc_info, proc_output, p, q):
    check(proc_info[p].returncode == 3 and proc_info['p'].returncode == 3, 'exit codes')
    check([x.text for x in proc_output[p]] == [b'a', b'b'], 'output, in order')
    check([x.from_stderr for x in proc_output[p]] == [False, True], 'of each stream')
    check(sorted(proc_info.process_names()) == ['p', 'q'], 'all processes that started')
    check(list(proc_output[q]) == [], 'also of a process without output')


def d_parametrized():
    """With parameters there is a launch for each of their values, with tests of its own."""
    test_world(turn, turn)
    how = pick('one', 'two', 'spaces')
    names = {'one': 'a', 'two': 'a,b', 'spaces': ' a , b ,'}[how]
    values = [1, 2] if how == 'one' else [(1, 'x'), (2, 'y')]
    if how == 'one' and pick(False, True):
        values = [[1, 2], None]
    marked = pick('below', 'above', 'no')

    def one(a):
        log('described', a)
        return describe(DeclareLaunchArgument('x', default_value='d'))

    def two(a, b):
        log('described', a, b)
        return describe()
    f = one if how == 'one' else two
    if marked == 'below':
        f = keep_alive(ready_to_test_action_timeout(3)(f))
    f = parametrize(names, values)(f)
    if marked == 'above':
        f = keep_alive(ready_to_test_action_timeout(3)(f))
    runs = load(f, Before, Keeps)
    check(len(runs) == 2, 'a run for each value')
    check([x.timeout for x in runs] == [15 if marked == 'no' else 3] * 2, 'each with its timeout')
    runner = LaunchTestRunner(runs)
    runner.validate()
    results = runner.run()
    check(list(results) == runs, 'a result for each run')
    check([x[1:] for x in logs('described')] == ([(x,) for x in values] if how == 'one' else values),
          'each described with its value')
    check(executed() == ['one', 'two', 'keeps', 'one', 'two', 'keeps'], 'all tests for each')
    check([x[1] for x in logs('keeps')] == [None, None], 'classes are not shared by runs')
    check([x[1] for x in logs('launch')] == [marked == 'no'] * 2, 'each as marked')
    check([str(x) for x in runs] == (['name[%s]' % x for x in values] if how == 'one' else
                                     ['name[1, x]', 'name[2, y]']), 'names')
    check([ids(results[x].testCases)[0] for x in runs] == (
        ['test_keeps[%s]' % x for x in values] if how == 'one' else
        ['test_keeps[1, x]', 'test_keeps[2, y]']), 'names of the tests')
    check(all([results[x].wasSuccessful() and results[x].testsRun == 3 for x in runs]), 'all ran')


class Keeps(unittest.TestCase):
    kept = None

    def test_keeps(self):
        log('test', 'keeps')
        log('keeps', type(self).kept)
        type(self).kept = 1


def d_validated():
    """Descriptions whose parameters are not those of the run are refused."""
    test_world(turn)

    @parametrize('a', [1])
    def fine(a):
        return describe()

    @parametrize('b', [1])
    def other(a):
        return describe()

    @parametrize('a,b', [(1, 2)])
    def more(a):
        return describe()

    @parametrize('a', [1])
    def less(a, b):
        return describe()

    @parametrize('a', [1])
    def keyword(*, a):
        return describe()

    def unexpected(a):
        return describe()
    for f in (fine, keyword, describe_nothing):
        LaunchTestRunner(load(f)).validate()
    for f in (other, more, less, unexpected):
        check(raised(Exception, lambda: LaunchTestRunner(load(f)).validate()), 'refused')
        check(raised(Exception, lambda: LaunchTestRunner(load(describe_nothing) + load(f)).validate()),
              'whichever run it is')


def describe_nothing():
    return describe()


def document(results):
    from launch_testing.junitxml import unittestResultsToXml
    return unittestResultsToXml(name='n', test_results=results).getroot()


def cases_of(suite):
    return {c.get('name'): (c.get('classname'), c.get('time'),
                            sorted([(x.tag, x.get('message')) for x in c])) for c in suite}


def d_report():
    """The report has every run and test once, with everything that went wrong, in XML's characters."""
    test_world(turn, turn)
    text = pick('plain', 'nul \x00 esc \x1b[31m', 'snow \u2603', 'half \ud83d', '\ufffe', 'tab\tline\n')
    shown = {'plain': 'plain', 'nul \x00 esc \x1b[31m': 'nul \\x00 esc \\x1b[31m',
             'half \ud83d': 'half \\ud83d', '\ufffe': '\\ufffe'}.get(text, text)

    class Fails(unittest.TestCase):

        def test_assert(self):
            self.fail(text)

        def test_error(self):
            raise RuntimeError(text)

        @unittest.expectedFailure
        def test_fine(self):
            pass

        @unittest.skip(text)
        def test_skip(self):
            pass

        def test_subs(self):
            for i in range(2):
                with self.subTest(i=i):
                    self.fail(text)

    class FailsAfter(unittest.TestCase):
        __post_shutdown_test__ = True

        def test_after(self):
            self.fail(text)

        def test_passes(self):
            pass
    runs = load(describe, Fails, FailsAfter) + load(describe, Before)
    root = document(LaunchTestRunner(runs).run())
    check(root.tag == 'testsuites' and root.get('name') == 'n', 'a document')
    check([root.get(x) for x in ('tests', 'failures', 'errors')] == ['9', '5', '1'], 'sums of all runs')
    check([x.tag for x in root] == ['testsuite'] * 2, 'a suite for each run')
    first, second = root
    check([first.get(x) for x in ('name', 'tests', 'failures', 'errors', 'skipped')] ==
          ['name', '7', '5', '1', '1'], 'what the suite counts')
    check([second.get(x) for x in ('tests', 'failures', 'errors', 'skipped')] == ['2', '0', '0', '0'],
          'what the other counts')
    check(all([x.tag == 'testcase' for x in list(first) + list(second)]), 'elements for tests')
    c = cases_of(first)
    assertion = 'AssertionError: ' + shown + '\n'
    check(sorted(c) == ['test_after', 'test_assert', 'test_error', 'test_fine', 'test_passes',
                        'test_skip', 'test_subs'], 'every test once')
    check(len(first) == 7 and len(second) == 2, 'and nothing else')
    check(c['test_passes'][2] == [], 'nothing for a test that passes')
    check(c['test_assert'][2] == [('failure', assertion)], 'a failure')
    check(c['test_after'][2] == [('failure', assertion)], 'a failure after shutdown')
    check(c['test_error'][2] == [('error', 'RuntimeError: ' + shown + '\n')], 'an error')
    check([x[0] for x in c['test_fine'][2]] == ['failure'], 'an unexpected success')
    check(c['test_skip'][2] == [('skipped', shown)], 'a skipped test')
    check(c['test_subs'][2] == [('failure', assertion)] * 2, 'failures of subtests')
    check(all([x[1] == '1' for x in c.values()]), 'times')
    check(sorted(cases_of(second)) == ['test_one', 'test_two'], 'tests of the other run')


def d_report_of_fixtures():
    """What goes wrong in the fixtures of a class is in the report as well, each once."""
    test_world(turn)
    where = pick('setup', 'teardown', 'both')
    skips = pick(False, True)

    class Prepared(unittest.TestCase):

        def setUpClass():
            if where != 'teardown':
                if skips:
                    raise unittest.SkipTest('no')
                raise RuntimeError('setup')

        def tearDownClass():
            raise RuntimeError('teardown')

        def test_it(self):
            log('executed', 'it')

    class PreparedAfter(unittest.TestCase):
        __post_shutdown_test__ = True

        def tearDownClass():
            if where == 'both':
                raise RuntimeError('teardown')

        def test_after(self):
            log('executed', 'after')
    results = LaunchTestRunner(load(describe, Prepared, PreparedAfter)).run()
    suite = document(results).children[0]
    ran = ['test_after'] + (['test_it'] if where == 'teardown' else [])
    errors = (1 if where == 'teardown' or not skips else 0) + (1 if where == 'both' else 0)
    check([suite.get(x) for x in ('tests', 'failures', 'errors', 'skipped')] ==
          [str(len(ran)), '0', str(errors), '1' if skips and where != 'teardown' else '0'], 'what is counted')
    found = sorted([(x.tag, x.get('message')) for c in suite for x in c])
    expected = [('error', 'RuntimeError: setup\n')] if where != 'teardown' and not skips else []
    if where in ('teardown', 'both'):
        expected.append(('error', 'RuntimeError: teardown\n'))
    if where != 'teardown' and skips:
        expected.append(('skipped', 'no'))
    check(found == expected, 'is in the report')
    check(sorted([c.get('name') for c in suite if not list(c)]) == ran, 'the tests as well')
    check(list(results.values())[0].wasSuccessful() == (errors == 0), 'a skipped class is no failure')


def d_report_of_dead():
    """Runs that died or were skipped are in the report, too."""
    dead = pick(True, False)
    test_world(interrupt)

    def description():
        if not dead:
            raise unittest.SkipTest('no')
        return describe()
    root = document(LaunchTestRunner(load(description)).run())
    counts = [root.get(x) for x in ('tests', 'failures', 'errors')]
    check(counts == ['3', '3' if dead else '0', '0'], 'what is counted')
    c = cases_of(root.children[0])
    check(sorted(c) == ['test_one', 'test_three', 'test_two'], 'every test once')
    check([[y[0] for y in x[2]] for x in c.values()] == [['failure' if dead else 'skipped']] * 3,
          'with what became of it')


class Nothing(unittest.TestCase):
    pass


def d_dead_without_tests():
    """A launch that dies is a failure, also when there is nothing to test."""
    test_world(interrupt)
    results = LaunchTestRunner(load(describe, Nothing)).run()
    check([x.wasSuccessful() for x in results.values()] == [False], 'it fails')


def d_report_names():
    """Names are made of parameters, whatever these are."""
    test_world(turn)
    value, shown = pick(('nul \x00', 'nul \\x00'), ('snow \u2603', 'snow \u2603'), (7, '7'))

    @parametrize('a', [value])
    def description(a):
        return describe()
    root = document(LaunchTestRunner(load(description, Before)).run())
    check([x.get('name') for x in root] == ['name[%s]' % shown], 'the name of the suite')
    check(sorted([x.get('name') for x in root.children[0]]) == [
        'test_one[%s]' % shown, 'test_two[%s]' % shown], 'names of the tests')


def d_names():
    """Values are named in their order."""
    def description(a, b):
        return describe()
    runs = load(parametrize('a,b', [('y', 'b'), ('a', 'c')])(description), Before)
    check([str(x) for x in runs] == ['name[y, b]', 'name[a, c]'], 'names')


class Parser:
    """argparse.ArgumentParser: error() exits."""

    def error(self, message):
        log('usage error')
        raise SystemExit(2)


class Args:

    def __init__(self, **names):
        self.launch_test_file = '/tests/test_it.py'
        self.package_name = None
        self.verbose = False
        self.show_args = False
        self.launch_arguments = []
        self.xmlpath = None
        for k, v in names.items():
            setattr(self, k, v)


class Spec:
    loader = None

    def exec_module(self, module):
        log('loaded', module)


def command(module, args):
    from launch_testing.launch_test import run as run_command
    stub('os.path.isfile', lambda path: path == '/tests/test_it.py')
    stub('os.path.abspath', lambda path: path)
    Spec.loader = Spec()
    stub('importlib.util.spec_from_file_location', lambda name, path, **k: Spec)
    stub('importlib.util.module_from_spec', lambda spec: module)
    ET.ElementTree.written = []
    return outcome(run_command, Parser(), args)


def d_command():
    """The command succeeds only if every run did, and writes the report in any case."""
    Bad.where = pick(None, 'one', 'three', 'launch', 'skipped')
    Bad.how = AssertionError
    test_world(interrupt if Bad.where == 'launch' else turn, turn)

    @parametrize('a', [1, 2])
    def description(a):
        if Bad.where == 'skipped':
            raise unittest.SkipTest('no')
        return describe()
    path = pick(None, '/out/report.xml')
    package = pick(None, 'pkg', '')
    module = Namespace(generate_test_description=description, A=Before, B=After)
    r = command(module, Args(xmlpath=path, package_name=package))
    check(r[0] == 'ok', 'an exit code')
    check((not r[1]) == (Bad.where in (None, 'skipped')), 'which is 0 only if all is well')
    check([x[0] for x in ET.ElementTree.written] == ([path] if path else []), 'the report')
    for p, root in ET.ElementTree.written:
        check(len(root.children) == (1 if Bad.where == 'launch' else 2), 'of all runs')
        check((root.get('failures') == '0') == (r[1] == 0), 'with what went wrong')
        check(root.get('name') == ('pkg' if package else 'test_it') + '.test_it', 'by its name')


class One(unittest.TestCase):

    def test_it(self, a):
        log('test', a)
        if a == Bad.where:
            self.fail('no')


class OneAfter(One):
    __post_shutdown_test__ = True


def d_command_any():
    """One run that fails is enough."""
    Bad.where = pick(1, 2, 3)
    test_world(turn, turn, turn)

    @parametrize('a', [1, 2, 3])
    def description(a):
        return describe()
    r = command(Namespace(generate_test_description=description, A=pick(One, OneAfter)), Args())
    check(executed() == [1, 2, 3], 'each run has its test')
    check(r[0] == 'ok' and bool(r[1]), 'it fails')


def d_command_refused():
    """A file that does not exist, or whose description is wrong, is no success."""
    test_world(turn)
    what = pick('file', 'parameters', 'arguments', 'description', 'not ready')

    def description():
        if what == 'description':
            raise RuntimeError('no')
        return LaunchDescription([]) if what == 'not ready' else describe()

    def more(a):
        return describe()
    module = Namespace(generate_test_description=more if what == 'parameters' else description,
                       A=Before)
    args = Args()
    if what == 'file':
        args.launch_test_file = '/tests/other.py'
    if what == 'arguments':
        args.launch_arguments = ['x']
    r = command(module, args)
    check(r[0] == 'raise', 'an exception')
    check((len(logs('usage error')) == 1) == (what == 'file'), 'the usage for a missing file')
    check(executed() == [], 'no test')


def d_retry():
    """Only the last attempt of a test counts; what other tests did stays."""
    test_world(turn)
    Bad.where = None
    times = pick(1, 3)
    bad = pick(0, 1, 2, 3, 4)
    how = pick('assert', 'sub', 'error')
    delay = pick(None, 2)
    stub('time.sleep', lambda t: log('sleep', t))

    class Earlier(unittest.TestCase):

        def test_a_error(self):
            raise RuntimeError('earlier')

        def test_b_fails(self):
            self.fail('earlier')

        @retry_on_failure(times=times, delay=delay)
        def test_c_retried(self, proc_info):
            log('attempt', proc_info)
            n = len(logs('attempt'))
            with self.subTest(i=0):
                if n <= bad and how == 'sub':
                    self.fail('sub')
            if n <= bad and how == 'assert':
                self.fail('now')
            if n <= bad and how == 'error':
                raise RuntimeError('now')

        def test_d_later(self):
            self.fail('later')
    runs = load(describe, Earlier)
    r = LaunchTestRunner(runs).run()[runs[0]]
    n = 1 if how == 'error' else min(times, bad + 1)
    check(len(logs('attempt')) == n, 'as often as needed, at most as told')
    check([x[1] for x in logs('sleep')] == [2] * (n - 1 if delay else 0), 'with the delay')
    check(all([kind(x[1]) == 'ActiveProcInfoHandler' for x in logs('attempt')]), 'with its arguments')
    failing = bad >= 1 if how == 'error' else bad >= times
    check(ids([t for t, m in r.errors]) == ['test_a_error'] + (
        ['test_c_retried'] if failing and how == 'error' else []), 'errors')
    check(ids([t for t, m in r.failures]) == sorted(['test_b_fails', 'test_d_later'] + (
        [] if not failing or how == 'error' else ['test_c_retried'] if how == 'assert' else
        ['test_c_retried (i=0)'])), 'failures')
    check(r.testsRun == 4, 'each counts once')


def d_retry_plain():
    """A method that is not a unittest test is retried as well."""
    test_world()
    times = pick(1, 3)
    bad = pick(0, 1, 2, 3, 4)

    class Plain:

        @retry_on_failure(times=times)
        def work(self, x, *, y):
            log('attempt', x, y)
            assert len(logs('attempt')) > bad
            return 'done'
    r = outcome(Plain().work, 1, y=2)
    check(len(logs('attempt')) == min(times, bad + 1), 'as often as needed')
    check(all([x[1:] == (1, 2) for x in logs('attempt')]), 'with its arguments')
    check(r == ('ok', 'done') if bad < times else r[0] == 'raise', 'the last result')


def summary(p, *stimuli):
    test_world(*stimuli, interrupt)
    lines = []
    stub('builtins.print', lambda *a, **k: lines.append(a[0] if a else ''))
    runs = load(lambda: LaunchDescription([p, Fixture('q', 1), ReadyToTest()]))
    r = outcome(LaunchTestRunner(runs).run)
    return r, '\n'.join([str(x) for x in lines])


def d_summary():
    """If the launch dies, the output of the processes that failed is shown."""
    p = Fixture('p', pick(0, 3))
    r, text = summary(p, lambda: p.says(b'coffee'), lambda: p.stop())
    check(r[0] == 'ok', 'it is not an error of the runner')
    check(('coffee' in text) == (p.code == 3), 'output of a process that failed')
    check(("'p' exited with 3" in text) == (p.code == 3), 'and its exit code')


def d_summary_of_any_output():
    """A process that failed may have written anything: the run still counts as failed."""
    p = Fixture('p', 3)
    r, text = summary(p, lambda: p.says(b'caf\xc3\xa9'), lambda: p.stop())
    e = kind(r[1]) if r[0] == 'raise' else None
    check(e != 'UnicodeDecodeError', 'also if the output is not ASCII')
    check(e in (None, 'UnicodeDecodeError'), 'nothing else goes wrong')


def d_summary_of_running():
    """A process may have been left running: the run still counts as failed."""
    p = Fixture('p', 3)
    p.lingers = True
    r, text = summary(p, lambda: p.says(b'x'))
    e = kind(r[1]) if r[0] == 'raise' else None
    check(e != 'AttributeError', 'also if a process has not ended')
    check(e in (None, 'AttributeError'), 'nothing else goes wrong')


def d_post_shutdown_only_classes():
    """The decorator is for classes."""
    test_world()
    check(raised(TypeError, lambda: post_shutdown_test()(lambda: None)), 'refused')
    check(post_shutdown_test()(Before).__post_shutdown_test__ is True, 'marked')
    check(len(load(describe, Before)[0].pre_shutdown_tests._tests[0]._tests) == 0, 'not before')
