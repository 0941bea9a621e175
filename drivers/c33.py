"""Legacy launch tests: what they wait for, what ends them, what is reported."""
import re

from launch import LaunchDescription
from launch import LaunchService
from launch.action import Action
from launch_testing.legacy import LaunchTestService
from launch_testing.legacy.output import create_output_lines_filter
from launch_testing.legacy.output import create_output_lines_test
from launch_testing.legacy.output import create_output_regex_test
from launch_testing.legacy.output import create_output_test_from_file

from drv.svc import *
from drv.lt import *


def run_service(self, *args, **kwargs):
    World.service = self
    log('launch', args, kwargs)
    r = serve(self)
    log('launch ended')
    if r[0] == 'raise':
        raise r[1]
    return Late.rc if Late.rc is not None else r[1]


class Late:
    rc = None


class Buffer:
    """io.BytesIO."""

    def __init__(self, initial=b''):
        self.data = initial
        self.position = 0

    def write(self, data):
        self.data = self.data[:self.position] + data + self.data[self.position + len(data):]
        self.position += len(data)
        return len(data)

    def read(self):
        r = self.data[self.position:]
        self.position = len(self.data)
        return r

    def seek(self, position, whence=0):
        self.position = position + (len(self.data) if whence == 2 else 0)
        return self.position

    def tell(self):
        return self.position

    def truncate(self, size=None):
        self.data = self.data[:self.position if size is None else size]
        return len(self.data)

    def getvalue(self):
        return self.data


class Job(Action):
    """An action which is done when the world says so."""

    def __init__(self, future=True):
        super().__init__()
        self.has_future = future
        self.future = None

    def execute(self, context):
        log('launched', 'job')
        if self.has_future:
            self.future = new_future()
            context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: self.stop()))

    def stop(self):
        if state_of(self.future) == 'pending':
            set_state(self.future, 'done', None)
            fire(self.future)

    def ends(self, how, value=None):
        log('ends', how)
        set_state(self.future, how, value)
        fire(self.future)

    def get_asyncio_future(self):
        return self.future


class Tests:
    """A description with its tests."""

    def __init__(self):
        self.ld = LaunchDescription()
        self.service = LaunchTestService()
        Late.rc = None
        environ({})
        stub('io.BytesIO', Buffer)
        stub('launch.launch_service.LaunchService.run', run_service)

    def fixture(self, name='fixture', **kwargs):
        p = Fixture(name)
        check(self.service.add_fixture_action(self.ld, p, **kwargs) is p, 'gives the action')
        return p

    def test(self, action):
        check(self.service.add_test_action(self.ld, action) is action, 'gives the action under test')
        return action

    def output(self, p, test, **kwargs):
        check(self.service.add_output_test(self.ld, p, test, **kwargs) is p,
              'gives the action with output')

    def run(self, *stimuli):
        """The outcome of a run, where these things happen one after the other."""
        ls = make_service()
        World.stimuli = list(stimuli)
        ls.include_launch_description(self.ld)
        return self.service.run(ls)


def exits(p, code=0):
    """The process ends by itself."""
    def f():
        if state_of(p.future) == 'pending':
            log('exits', p.details['name'], code)
            p.code = code
            p.stop()
    return f


def says(p, text, stderr=False):
    def f():
        if state_of(p.future) == 'pending':
            log('says', text)
            p.says(text, stderr)
    return f


def interrupted():
    log('interrupted')
    World.service.shutdown(force_sync=True)


def happened():
    return [x[0] for x in logs('exits', 'says', 'ends', 'interrupted', 'later')]


def later():
    log('later')


def ended():
    return len(logs('launch ended')) == 1 and not logs('stuck')


def d_test_processes():
    """The launch ends when all test processes have ended, or when one of them fails."""
    t = Tests()
    t.fixture()
    a = t.test(Fixture('a'))
    b = t.test(Fixture('b'))
    ra = pick(0, 3)
    rb = pick(0, 5, -2)
    rc = t.run(exits(a, ra), exits(b, rb), later)
    check(ended(), 'the launch ends')
    if ra:
        check(rc == 3, 'code of the first failed test process')
        check(happened() == ['exits'], 'no more tests once one of them failed')
    else:
        check(rc == rb, 'code of the failed test process, or zero')
        check(happened() == ['exits', 'exits'], 'until all the tests have ended')


def d_test_processes_dropped():
    """A test process which is ended since another one failed does not change what is reported."""
    t = Tests()
    a = t.test(Fixture('a'))
    b = t.test(Fixture('b'))
    b.code = pick(-15, 0, 9)
    rc = t.run(exits(a, 4))
    check(ended(), 'the launch ends when a test failed')
    check(rc == 4, 'the first failure is reported')


def d_fixture_dies():
    """A fixture process may only exit with an allowed code; else the launch fails."""
    allowed = pick(None, [0], [0, 3], [], True, False)
    code = pick(0, 3, -11) if allowed is not None else pick(0, 1, 2, 3, 127, -11)
    t = Tests()
    f = t.fixture() if allowed is None else t.fixture(exit_allowed=allowed)
    a = t.test(Fixture('a'))
    rc = t.run(exits(f, code), exits(a, 0))
    if allowed is None:
        allowed = [0]
    ok = allowed if isinstance(allowed, bool) else code in allowed
    check(ended(), 'the launch ends, whatever the fixture does')
    if ok:
        check(happened() == ['exits', 'exits'], 'the tests go on')
        check(rc == 0, 'success if the fixture may exit')
    else:
        check(happened() == ['exits'], 'the fixture ends the launch')
        check(rc == (code or 1), 'failure if a fixture died')


def d_fixture_at_shutdown():
    """A fixture process which is ended by the shutdown may give any code."""
    t = Tests()
    f = t.fixture(exit_allowed=pick([0], [], False))
    f.code = pick(0, -15, 1)
    a = t.test(Fixture('a'))
    rc = t.run(exits(a, 0))
    check(ended(), 'the launch ends with the last test')
    check(rc == 0, 'fixtures may be ended')


def d_two_failures():
    """The first process which failed gives the return code."""
    t = Tests()
    f = t.fixture()
    a = t.test(Fixture('a'))
    first = pick('fixture', 'test')
    if first == 'fixture':
        a.code = 7
        rc = t.run(exits(f, 4))
        check(rc == 4, 'the code of the fixture which died')
    else:
        f.code = 4
        rc = t.run(exits(a, 7))
        check(rc == 7, 'the code of the test which failed')
    check(ended(), 'one failure ends the launch')


def d_test_jobs():
    """Test actions which are not processes: done, failed or cancelled."""
    t = Tests()
    t.fixture()
    a = t.test(Job())
    how = pick('done', 'exception', 'cancelled')
    value = RuntimeError('no') if how == 'exception' else None
    rc = t.run(lambda: a.ends(how, value), later)
    check(ended(), 'the launch ends when the only test is over')
    check(happened() == ['ends'], 'the launch ends at once')
    check(rc == (1 if how == 'exception' else 0), 'fails if the action failed')


def d_two_jobs():
    """The launch goes on while a test is not over, unless one fails."""
    t = Tests()
    t.fixture()
    a = t.test(Job())
    b = t.test(pick(lambda: Job(), lambda: Fixture('b'))())
    how = pick('done', 'exception', 'cancelled')
    value = RuntimeError('no') if how == 'exception' else None

    def b_ends():
        if kind(b) == 'Job':
            b.ends('done')
        else:
            exits(b)()
    order = pick('a', 'b')
    steps = [lambda: a.ends(how, value), b_ends]
    rc = t.run(*(steps if order == 'a' else [steps[1], steps[0]]), later)
    check(ended(), 'the launch ends when all tests are over')
    if how == 'exception':
        check(rc == 1, 'a failed action fails the launch')
        check(len(happened()) == (1 if order == 'a' else 2), 'ended by the failure')
    else:
        check(rc == 0, 'all went well')
        check(len(happened()) == 2 and 'later' not in happened(), 'not ended before the last test')


def d_job_at_once():
    """A test action without a future is over once it has been executed."""
    t = Tests()
    t.fixture()
    t.test(Job(future=False))
    two = pick(False, True)
    if two:
        p = t.test(Fixture('p'))
        rc = t.run(exits(p, 0), later)
    else:
        rc = t.run(later)
    check(rc == 0, 'an action which is done succeeds')
    check(ended(), 'the launch ends after an action without future')
    check(happened() == (['exits'] if two else []), 'the launch waits for the others only')


def d_interrupted():
    """A run which is interrupted reports no failure of what did not fail."""
    t = Tests()
    f = t.fixture(exit_allowed=False)
    f.code = -2
    t.test(Job())
    rc = t.run(interrupted)
    check(ended(), 'the launch can be interrupted')
    check(rc == 0, 'interrupted, but nothing failed')


def lines(*expected):
    return create_output_lines_test(list(expected))


def d_output():
    """Output tests: matched when all that is expected has been said, on the way or at the end."""
    t = Tests()
    p = t.fixture()
    t.output(p, lines(b'one', b'two'))
    what = pick((b'one\n', b'two\n'), (b'two\n', b'a one b\n'), (b'one\ntwo\n',),
                (b'on', b'e\ntw', b'o\n'), (b'one\n', b'one\n'), (b'two\n',), (b'o\n', b'ne two\n'), ())
    steps = [says(p, x) for x in what]
    rc = t.run(*steps, exits(p, 0))
    said = b''.join(list(what)).splitlines()
    met = any([b'one' in x for x in said]) and any([b'two' in x for x in said])
    check(ended(), 'the launch ends when the process has ended')
    check(rc == (0 if met else 1), 'succeeds if and only if all has been said')
    if met:
        check('exits' not in happened(), 'ends as soon as the output is matched')


def d_output_others():
    """Only the standard output of the process under test counts."""
    t = Tests()
    p = t.fixture('p')
    q = t.fixture('q')
    t.output(p, lines(b'one'))
    who = pick('p', 'err', 'q')
    rc = t.run(says(q if who == 'q' else p, b'one\n', stderr=who == 'err'), exits(p, 0))
    check(ended(), 'the launch ends when the process has ended or its output is matched')
    check(rc == (0 if who == 'p' else 1), 'what others say does not count')


def d_output_late():
    """Output which arrives after the process has ended still counts."""
    t = Tests()
    p = t.fixture('p')
    t.output(p, lines(b'one'))
    a = t.test(Fixture('a'))
    text = pick(b'one\n', b'two\n')

    def late():
        log('later')
        p.says(text)
    rc = t.run(exits(p, 0), late, exits(a, 0))
    check(ended(), 'the launch ends with the other test')
    check(happened() == ['exits', 'later', 'exits'], 'the other test goes on')
    check(rc == (0 if text == b'one\n' else 1), 'late output counts')


def d_output_shutdown():
    """What has not been said when the launch ends is a failure."""
    t = Tests()
    p = t.fixture('p')
    t.output(p, lines(b'one'))
    said = pick(False, True)
    a = t.test(Fixture('a'))
    rc = t.run(*([says(p, b'one\n')] if said else []), pick(interrupted, exits(a, 0)), exits(p, 0))
    check(ended(), 'the launch ends, matched or not')
    check(rc == (0 if said else 1), 'fails without the output')


def d_output_side_effect():
    """A test with this side effect ends the launch, even if other tests go on."""
    effect = pick(None, 'shutdown')
    t = Tests()
    p = t.fixture('p')
    t.output(p, lines(b'one'), side_effect=effect)
    a = t.test(Fixture('a'))
    rc = t.run(says(p, b'one\n'), exits(a, 0))
    check(ended(), 'the launch ends with or without side effect')
    check(rc == 0, 'side effect is no failure')
    check(happened() == (['says'] if effect else ['says', 'exits']), 'ended by the side effect only')


def d_output_two():
    """Two output tests of the same action."""
    t = Tests()
    p = t.fixture('p')
    t.output(p, lines(b'one'))
    t.output(p, lines(b'two'), test_suffix='more')
    second = pick(b'two\n', b'three\n')
    rc = t.run(says(p, b'one\n'), says(p, second), exits(p, 0))
    check(ended(), 'the launch ends with two output tests')
    check(rc == (0 if second == b'two\n' else 1), 'both of them count')
    check(happened()[:2] == ['says', 'says'], 'one of two does not end the launch')


def d_output_filtered():
    """What the filter removes is not seen by the test."""
    t = Tests()
    p = t.fixture('p')
    text = pick(b'pid 7 one\n', b'rc one\n', b'one\n', b'noise\none\n', b'ignored one\n')
    f = pick(None, 'prefix', 'pattern')
    output_filter = {
        None: create_output_lines_filter(),
        'prefix': create_output_lines_filter(filtered_prefixes=[b'ignored', b'noise']),
        'pattern': create_output_lines_filter(filtered_patterns=[b'ignored .*', b'noise']),
    }[f]
    t.output(p, lines(b'one'), output_filter=output_filter)
    rc = t.run(says(p, text), exits(p, 0))
    seen = not (text.startswith(b'ignored') and f is not None or
                text.startswith((b'pid', b'rc')) and f != 'prefix')
    check(rc == (0 if seen else 1), 'ignored lines do not count')
    check(ended(), 'the launch ends with a filter')


def d_filter():
    """A filter keeps the other lines, as they are."""
    f = create_output_lines_filter(filtered_prefixes=[b'x', b'yy'], filtered_patterns=[b'.*z$'])
    check(f(b'a\nb\n') == b'a\nb\n', 'lines which are not filtered')
    check(f(b'a\nxa\nb\nyy\nyb\n') == b'a\nb\nyb\n', 'without lines with a prefix')
    check(f(b'az\nb\nzb\n') == b'b\nzb\n', 'without lines which match')
    check(f(b'a\nb') == b'a\nb', 'the last line may not be complete')
    check(f(b'x\n') == b'', 'nothing left')
    check(f(b'') == b'', 'nothing at all')
    f = create_output_lines_filter(filtered_patterns=[b'z'])
    check(f(b'az\nz\nza\n') == b'az\n', 'patterns are about the start of a line')
    check(f(b'a\n\nb\n') == b'a\n\nb\n', 'empty lines')


def resources(known):
    stub('ament_index_python.has_resource', lambda kind, name: '/prefix' if (kind, name) in known else False)
    stub('ament_index_python.get_resource', lambda kind, name: (known[(kind, name)], '/prefix'))


def d_filter_rmw():
    """The lines which an RMW implementation prints are ignored too."""
    from launch_testing.legacy.output import get_rmw_output_filter
    resources({('rmw_output_prefixes', 'rmw_a'): 'WARN\nINFO',
               ('rmw_output_patterns', 'rmw_b'): 'a+$'})
    given = pick([b'x'], (b'x',))
    f = create_output_lines_filter(filtered_prefixes=given, filtered_rmw_implementation='rmw_a')
    check(list(given) == [b'x'], 'what was given is left as it was')
    check(f(b'WARN x\na\nINFO\nx\nb\n') == b'a\nb\n', 'prefixes of the implementation')
    f = create_output_lines_filter(filtered_prefixes=[b'x'], filtered_rmw_implementation='rmw_b')
    check(f(b'aa\nxa\nWARN\nab\n') == b'WARN\nab\n', 'patterns of the implementation')
    f = create_output_lines_filter(filtered_rmw_implementation='rmw_c')
    check(f(b'pid a\nxa\nWARN\n') == b'xa\nWARN\n', 'an unknown implementation')
    check(get_rmw_output_filter('rmw_a', 'prefixes') == [b'WARN', b'INFO'], 'each line is a prefix')
    check(raised(TypeError, get_rmw_output_filter, 'rmw_a', 'names'), 'no other kind of filter')


def d_regex():
    """Patterns are searched in all that has been said, also across chunks."""
    t = Tests()
    p = t.fixture('p')
    pattern = pick(b'on. two', b'one\ntwo', b'onetwo', b'^one', b'x')
    t.output(p, create_output_regex_test([re.compile(pattern)]))
    what = pick((b'one\n', b'two\n'), (b'one\ntwo\n',), (b'one', b' two\n'), (b'one', b'two'),
                (b'one\r\ntwo\r\n',), (b'one\r', b'two\n'))
    rc = t.run(*[says(p, x) for x in what], exits(p, 0))
    said = b''.join(list(what)).replace(b'\r\n', b'\n').replace(b'\r', b'\n')
    met = {b'on. two': b'one two' in said, b'one\ntwo': b'one\ntwo' in said,
           b'onetwo': b'onetwo' in said, b'^one': said.startswith(b'one'), b'x': False}[pattern]
    check(ended(), 'the launch ends with patterns')
    check(rc == (0 if met else 1), 'the patterns are found in what has been said')


def d_regex_many():
    """All the patterns have to be found."""
    t = Tests()
    p = t.fixture('p')
    t.output(p, create_output_regex_test([re.compile(b'a+'), re.compile(b'b+')]))
    what = pick((b'aa\n', b'b\n'), (b'b\n', b'c\n'), (b'a\n', b'c\n'), (b'ab\n', b'\n'))
    rc = t.run(*[says(p, x) for x in what], exits(p, 0))
    check(ended(), 'the launch ends with many patterns')
    check(rc == (0 if b'a' in b''.join(list(what)) and b'b' in b''.join(list(what)) else 1),
          'all patterns are required')


def d_output_own():
    """Output tests of one's own: what collecting gives is what is matched, and collected further."""
    t = Tests()
    p = t.fixture('p')
    t.output(p, ('', lambda so_far, text: so_far + text.decode(), lambda said, n: len(said) >= n,
                 [3, 5]))
    last = pick(b'cd', b'cde')
    rc = t.run(says(p, b'ab'), says(p, last), exits(p, 0))
    check(ended(), 'the launch ends with a test of its own')
    check(rc == (0 if last == b'cde' else 1), 'all of it counts')


def d_output_many():
    """Each action has its own tests, and nothing is shared between them."""
    t = Tests()
    p = t.fixture('p')
    q = t.fixture('q')
    t.output(p, lines(b'one'))
    t.output(q, lines(b'one'))
    second = pick(b'one\n', b'two\n')
    rc = t.run(says(p, b'one\n'), says(q, second), exits(q, 0))
    check(ended(), 'the launch ends when both processes said what they should')
    check(rc == (0 if second == b'one\n' else 1), 'each process has to say it')


class File:
    """An open file."""

    def __init__(self, content):
        self.content = content

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def read(self):
        return self.content


def files(known):
    stub('os.path.isfile', lambda path: path in known)

    def opened(path, mode='r', *args, **kwargs):
        check('b' in mode, 'opened to read bytes')
        return File(known[path])
    stub('builtins.open', opened)


def d_from_file():
    """The expected output may be in a file of lines, or of patterns."""
    which = pick('txt', 'regex', 'both')
    known = {}
    if which != 'regex':
        known['/t/it.txt'] = b'a.c\nb'
    if which != 'txt':
        known['/t/it.regex'] = b'x.z\nb'
    files(known)
    t = Tests()
    p = t.fixture('p')
    t.output(p, create_output_test_from_file('/t/it'))
    first = pick(b'a.c\n', b'abc\n', b'x.z\n', b'xyz\n')
    rc = t.run(says(p, first), says(p, b'b\n'), exits(p, 0))
    met = first in (b'x.z\n', b'xyz\n') if which == 'regex' else first == b'a.c\n'
    check(ended(), 'the launch ends with a file')
    check(rc == (0 if met else 1), 'lines are literal, patterns are not')


def d_from_file_missing():
    """Without a file there is no test."""
    files({})
    check(raised(RuntimeError, create_output_test_from_file, '/t/it'), 'a missing file is an error')


def d_run():
    """The run of the launch service decides, unless it went well and a test did not."""
    t = Tests()
    a = t.test(Fixture('a'))
    Late.rc = pick(None, 1, 2)
    code = pick(0, 6)
    rc = t.run(exits(a, code))
    check(rc == (Late.rc or code), 'the return code of the launch service comes first')


def d_run_arguments():
    """The arguments are those of the launch service."""
    t = Tests()
    t.test(Job(future=False))
    ls = make_service()
    ls.include_launch_description(t.ld)
    check(t.service.run(ls, shutdown_when_idle=False) == 0, 'the run succeeds')
    check(logs('launch') == [('launch', (), {'shutdown_when_idle': False})], 'arguments are given on')


def d_armed_twice():
    """The same test can not be added twice."""
    t = Tests()
    p = t.fixture('p')
    which = pick('output', 'test')
    if which == 'output':
        t.output(p, lines(b'one'))
        check(raised(AssertionError, t.output, p, lines(b'one')), 'one output test with the same name')
        check(raised(AssertionError, t.output, Job(), lines(b'one')), 'only processes have output')
        check(raised(AssertionError, t.output, Fixture('r'), lines()), 'something has to be expected')
    else:
        t.test(p)
        check(raised(AssertionError, t.test, p), 'a test once only')
