"""The assertions and matchers of launch_testing say what the recorded output and exit codes say."""
import re

from launch_testing.asserts import assertExitCodes
from launch_testing.asserts import assertInStderr
from launch_testing.asserts import assertInStdout
from launch_testing.asserts import assertSequentialStdout
from launch_testing.asserts import EXIT_OK
from launch_testing.asserts import SequentialTextChecker
from launch_testing.tools.output import basic_output_filter
from launch_testing.tools.output import expect_output
from launch_testing.tools.output import expected_output_from_file
from launch_testing.tools.text import build_line_match
from launch_testing.tools.text import build_text_match
from launch_testing.util import NO_CMD_ARGS
from launch_testing.util import NoMatchingProcessException
from launch_testing.util import resolveProcesses

from drv.env import *
from drv.lt import *


# ---------------------------------------------------------------- which processes

def d_resolve_all():
    """No process given: all that were recorded; none recorded is an error."""
    kind_ = pick('info', 'active info', 'output', 'active output')
    h, add = recorder(kind_)
    check(raised(NoMatchingProcessException, lambda: resolveProcesses(h)), 'nothing recorded')
    a, b = Process('alpha'), Process('beta')
    add(a)
    add(b)
    check(list(resolveProcesses(h)) == [a, b], 'all')
    check(list(resolveProcesses(h, process=None, cmd_args='x')) == [a, b], 'all')


def recorder(which):
    ansi()
    if which == 'info':
        h = ProcInfoHandler()
    elif which == 'active info':
        h = ActiveProcInfoHandler()
    elif which == 'output':
        h = IoHandler()
    else:
        h = ActiveIoHandler()
    if which.endswith('info'):
        return h, lambda p: h.append(started(p))
    return h, lambda p: h.append(out(p, b'text'))


def d_resolve_action():
    """An action: itself, if something was recorded of it."""
    h, add = recorder(pick('info', 'output'))
    a, b = Process('same'), Process('same')
    add(a)
    check(list(resolveProcesses(h, process=a)) == [a], 'itself')
    check(raised(NoMatchingProcessException, lambda: resolveProcesses(h, process=b)),
          'nothing recorded of it')


def d_resolve_unstarted():
    """An action that was never started is an error that can be told, whatever its command is."""
    from launch.actions import ExecuteLocal
    from launch.descriptions import Executable
    from launch.substitutions import LaunchConfiguration
    h, add = recorder('info')
    cmd = pick(['prog', 'x'], [LaunchConfiguration('x'), 'y'])
    p = ExecuteProcess(cmd=cmd) if pick(True, False) else ExecuteLocal(
        process_description=Executable(cmd=cmd))
    check(raised(NoMatchingProcessException, lambda: resolveProcesses(h, process=p)), 'not started')


def d_resolve_name():
    """A name: the processes whose name contains it, with those arguments."""
    h, add = recorder(pick('info', 'output'))
    a, b, c = Process('node-1', ['-a', '-b']), Process('node-2'), Process('other', ['-a'])
    d = Process('late', ['-ab', '-c x'])
    for p in (a, b, c, d):
        add(p)
    name = pick('node', 'node-1', 'other', 'o', 'none', 'late')
    args = pick(None, NO_CMD_ARGS, '-a', ['-a', '-b'], ['-b', '-a'], ['-a', '-c'], [], '-b -', ['-c', 'x'], '-c x', 'prog',
                ['prog', '-a'])
    expect = []
    for p, n, given in ((a, 'node-1', ['-a', '-b']), (b, 'node-2', []), (c, 'other', ['-a']),
                        (d, 'late', ['-ab', '-c x'])):
        if name not in n:
            continue
        if args is None or (args is NO_CMD_ARGS and given == []):
            expect.append(p)
        elif args is NO_CMD_ARGS:
            pass
        elif all(x in given for x in ([args] if isinstance(args, str) else args)):
            expect.append(p)
    strict = pick(True, False)
    try:
        got = list(resolveProcesses(h, process=name, cmd_args=args, strict_proc_matching=strict))
    except NoMatchingProcessException:
        check(len(expect) == 0, 'an error when there is none')
        return
    except Exception:
        check(len(expect) > 1 and strict, 'an error when it is ambiguous')
        return
    check(len(expect) > 0 and not (strict and len(expect) > 1), 'else no error')
    check(got == expect, 'exactly those')


def d_resolve_invalid():
    h, add = recorder('info')
    add(Process('a'))
    check(raised(TypeError, lambda: resolveProcesses(h, process=7)), 'neither action nor name')


# ---------------------------------------------------------------- exit codes

def d_exit_codes():
    """It fails exactly when one of the processes looked at exited with another code."""
    h = pick(ProcInfoHandler, ActiveProcInfoHandler)()
    a, b = Process('alpha'), Process('beta')
    ca, cb = pick(0, 1, -2), pick(0, 3)
    h.append(started(a))
    h.append(exited(a, ca))
    h.append(exited(b, cb))
    who = pick(None, 'alpha', b)
    allowed = pick(None, [1], [0, 3], [-2, 0, 1, 3])
    codes = [ca, cb] if who is None else [ca] if who == 'alpha' else [cb]
    ok = all(c in ([EXIT_OK] if allowed is None else allowed) for c in codes)
    kwargs = {} if allowed is None else {'allowable_exit_codes': allowed}
    check(raised(AssertionError, lambda: assertExitCodes(h, process=who, **kwargs)) == (not ok),
          'exactly when a code is not allowed')
    check(EXIT_OK == 0, 'zero is success')


def d_exit_codes_any():
    """The same for every code."""
    h = ProcInfoHandler()
    a = Process('alpha')
    n, m = unknown('n', int), unknown('m', int)
    h.append(exited(a, n))
    same = n == m
    check(raised(AssertionError, lambda: assertExitCodes(h, [m], a)) == (not same), 'that code only')


def d_exit_codes_arguments():
    h = ProcInfoHandler()
    a, b = Process('node-1', ['x']), Process('node-2', ['y'])
    h.append(exited(a, 0))
    h.append(exited(b, 1))
    assertExitCodes(h, process='node', cmd_args='x')
    check(raised(AssertionError, lambda: assertExitCodes(h, process='node', cmd_args='y')), 'it failed')
    check(raised(AssertionError, lambda: assertExitCodes(
        h, process='node', strict_proc_matching=False)), 'one of them failed')
    try:
        assertExitCodes(h, process='node')
        fail('an ambiguous name is an error')
    except AssertionError:
        fail('ambiguity is not a wrong exit code')
    except Exception:
        pass
    check(raised(NoMatchingProcessException, lambda: assertExitCodes(h, process='gone')), 'no such process')
    check(raised(AssertionError, lambda: assertExitCodes(h, ['0'], a)), 'codes are numbers')
    check(raised(AssertionError, lambda: assertExitCodes(h, [0, pick('1', 1.5)], a)), 'all of them')


# ---------------------------------------------------------------- output

def d_in_stream():
    """Found exactly when one of the processes printed it, on that stream."""
    h, add = recorder(pick('output', 'active output'))
    a, b = Process('alpha'), Process('beta')
    h.append(out(a, b'one '))
    h.append(err(a, b'one two'))
    h.append(out(b, b'three'))
    h.append(out(a, b'two'))
    h.append(err(b, b'four'))
    texts = {'alpha': {'out': 'one two', 'err': 'one two'}, 'beta': {'out': 'three', 'err': 'four'}}
    text = pick('one', 'one two', 'three', 'four', 'twothree', 'onetwo')
    who = pick('alpha', a, b, None)
    stream = pick('out', 'err')
    f = assertInStdout if stream == 'out' else assertInStderr
    names = ['alpha', 'beta'] if who is None else ['beta'] if who is b else ['alpha']
    expect = any(text in texts[n][stream] for n in names)
    check(raised(AssertionError, lambda: f(h, text, who)) == (not expect), 'exactly when it was')


def d_in_stream_default():
    """The general one looks at stderr, or the stream named; another name is an error."""
    from launch_testing.asserts import assertDefaultStream
    from launch_testing.asserts import assertInStream
    h, add = recorder('output')
    a = Process('alpha')
    h.append(out(a, b'to out'))
    h.append(err(a, b'to err'))
    assertInStream(h, 'to err', a)
    check(raised(AssertionError, lambda: assertInStream(h, 'to out', a)), 'stderr by default')
    assertInStream(h, 'to out', a, stream='stdout')
    assertInStream(h, 'to err', a, stream='stderr')
    check(raised(AssertionError, lambda: assertInStream(h, 'to err', a, stream='stdout')), 'stdout')
    check(raised(ValueError, lambda: assertInStream(h, 'to err', a, stream='both')), 'no such stream')
    check(assertDefaultStream() == 'stderr', 'as documented')


def d_in_stream_options():
    """Escape sequences are removed unless asked; then the filter is applied; then it is compared."""
    h, add = recorder('output')
    a = Process('alpha')
    h.append(err(a, b'he\x1b[31mll\x1b[0mo'))
    strip = pick(True, False, None)
    kwargs = {} if strip is None else {'strip_ansi_escape_sequences': strip}
    f = pick(None, lambda t: t.replace('hello', 'bye'))
    if f is not None:
        kwargs['output_filter'] = f
    text = pick('hello', 'bye', 'he\x1b[31mll')
    if strip is False:
        expect = text == 'he\x1b[31mll'
    else:
        expect = text == ('hello' if f is None else 'bye')
    check(raised(AssertionError, lambda: assertInStderr(h, text, 'alpha', **kwargs)) == (not expect),
          'exactly then')
    h.append(out(a, b'he\x1b[31mll\x1b[0mo'))
    check(raised(AssertionError, lambda: assertInStdout(h, text, 'alpha', **kwargs)) == (not expect),
          'exactly then')
    check(raised(ValueError, lambda: assertInStderr(h, text, 'alpha', output_filter='x')),
          'the filter is a function')


def d_in_stream_strict():
    """A name is ambiguous unless the arguments tell the processes apart, or any of them will do."""
    h, add = recorder('output')
    a, b = Process('node-1', ['x']), Process('node-2', ['y'])
    make, f = pick((out, assertInStdout), (err, assertInStderr))
    h.append(make(a, b'from x'))
    h.append(make(b, b'from y'))
    f(h, 'from x', 'node', 'x')
    f(h, 'from y', 'node', strict_proc_matching=False)
    f(h, 'from x', 'node', strict_proc_matching=False)
    check(raised(AssertionError, lambda: f(h, 'from y', 'node', 'x')), 'the other said it')
    check(raised(Exception, lambda: f(h, 'from x', 'node')), 'ambiguous')
    check(raised(NoMatchingProcessException, lambda: f(h, 'x', 'gone')), 'no such process')


def d_in_stream_patterns():
    """Patterns, and sequences of texts and patterns."""
    h, add = recorder('output')
    a = Process('alpha')
    h.append(out(a, b'count 1\ncount '))
    h.append(out(a, b'2\r\ndone'))
    good = pick(re.compile('count [0-9]'), ['count 1', 'count 2', 'done'],
                ['count 1', re.compile('d.ne')], '2\ndone')
    assertInStdout(h, good, a)
    bad = pick(re.compile('count [3-9]'), ['count 2', 'count 1'], ['done', re.compile('count')])
    check(raised(AssertionError, lambda: assertInStdout(h, bad, a)), 'not there, or not in that order')


def d_in_stream_split_characters():
    """Characters whose bytes arrive in different parts are whole; bytes that are no text do no harm."""
    h, add = recorder('output')
    a = Process('alpha')
    make, other, f = pick((out, err, assertInStdout), (err, out, assertInStderr))
    h.append(make(a, b'gr\xc3'))
    h.append(other(a, b'-'))
    h.append(make(a, b'\xbcn'))
    if pick(True, False):
        h.append(make(a, b' \xff end'))
        f(h, 'end', a)
    f(h, 'gr\xfcn', a)


def d_sequential():
    """Each text is looked for after the one found before, on stdout; a miss does not lose the place."""
    h, add = recorder('output')
    a, b = Process('alpha'), Process('beta')
    h.append(out(a, b'one two\n'))
    h.append(err(a, b'noise'))
    h.append(out(b, b'beta'))
    h.append(out(a, b'three one\n'))
    with assertSequentialStdout(h, pick('alpha', a)) as cm:
        first = pick('one', 'two')
        cm.assertInStdout(first)
        check(raised(AssertionError, lambda: cm.assertInStdout('beta')), 'of that process')
        check(raised(AssertionError, lambda: cm.assertInStdout('noise')), 'of its stdout')
        if first == 'two':
            check(raised(AssertionError, lambda: cm.assertInStdout('two')), 'once only')
            cm.assertInStdout('one')
            check(raised(AssertionError, lambda: cm.assertInStdout('three')), 'it came before')
        else:
            cm.assertInStdout('two')
            cm.assertInStdout('three')
            cm.assertInStdout('one')
        check(raised(AssertionError, lambda: cm.assertInStdout('one')), 'no more')


def d_sequential_parts():
    """How the output was cut into parts makes no difference."""
    h, add = recorder('output')
    a = Process('alpha')
    for part in pick((b'gr', b'\xc3', b'\xbcn two'), (b'gr\xc3\xbc', b'n t', b'wo')):
        h.append(out(a, part))
    with assertSequentialStdout(h, 'alpha') as cm:
        cm.assertInStdout('gr\xfc')
        cm.assertInStdout('n')
        cm.assertInStdout('two')


def d_sequential_bytes():
    """Bytes that are no text do no harm."""
    h, add = recorder('output')
    a = Process('alpha')
    h.append(out(a, b'one \xff '))
    h.append(out(a, b'two'))
    with assertSequentialStdout(h, 'alpha') as cm:
        cm.assertInStdout('one')
        cm.assertInStdout('two')


def d_sequential_failure():
    """What fails inside the block fails the test."""
    h, add = recorder('output')
    a = Process('alpha-1', ['x'])
    h.append(out(a, b'one\n'))
    h.append(out(Process('alpha-2', ['y']), b'two\n'))
    try:
        with assertSequentialStdout(h, 'alpha', 'x') as cm:
            cm.assertInStdout(pick('two', 'three'))
        fail('it fails')
    except AssertionError:
        pass
    try:
        with assertSequentialStdout(h, 'alpha') as cm:
            fail('one process only')
    except AssertionError:
        fail('another error')
    except Exception:
        pass


def d_sequential_checker():
    """The checker itself, over any cutting into parts."""
    c = SequentialTextChecker(['ab', 'ab\ncd', '', 'ef'])
    seq = pick(['ab', 'ab', 'cd', 'ef'], ['a', 'b', 'a', 'b\nc', 'd', 'e', 'f'], ['ef'], ['cd', 'f'])
    for t in seq:
        (c.assertInText if pick(True, False) else c.assertInStdout)(t)
    check(raised(AssertionError, lambda: c.assertInText('ab')), 'nothing of that is left')
    c = SequentialTextChecker(['aaa', 'aa'])
    c.assertInText('aa')
    c.assertInText('aa')
    check(raised(AssertionError, lambda: c.assertInText('a')), 'what was found is used up')


def d_nearby():
    """The context of a failure is text of the output, around the place."""
    c = SequentialTextChecker(['l1\nl2\n', 'l3\nl4\n', 'l5\nl6\nl7\nl8\nl9\n'])
    c.assertInText('l3')
    near = c.get_nearby_lines()
    check('l3' in near and 'l4' in near and 'l2' in near, 'the lines around')
    check('l9' not in near, 'not everything')


# ---------------------------------------------------------------- matchers

def d_text_match():
    """A text: where it is first found from the start; strictly: all there is."""
    text = pick('a', 'ab', 'b\na')
    actual = pick('', 'a', 'ab', 'xab', 'b\r\nab', 'aa')
    strict = pick(True, False)
    start = pick(0, 1)
    norm = actual.replace('\r\n', '\n')
    got = build_text_match(text, strict=strict)(actual, start) if start else \
        build_text_match(text, strict=strict)(actual)
    if strict:
        expect = (start, start + len(text)) if norm[start:] == text else None
    else:
        i = norm.find(text, start)
        expect = None if i < 0 else (i, i + len(text))
    check(got == expect, 'where it is, or None')


def d_text_pattern():
    strict = pick(True, False)
    m = build_text_match(re.compile('b+'), strict=strict)
    check(m('abba') == (None if strict else (1, 3)), 'anywhere, or strictly at the start')
    check(m('bb') == (0, 2) and m('xx') is None, 'where it is')
    check(m('bab', 1) == (None if strict else (2, 3)), 'from the start given')


def d_text_sequence():
    """Several: one after the other; strictly: without anything between."""
    strict = pick(True, False)
    m = build_text_match(['a', re.compile('b|c'), 'd'], strict=strict)
    actual = pick('abd', 'acd', 'xabd', 'a-bd', 'ab-d', 'abd-', 'bad', 'ab', 'adb', 'dba', '')
    got = m(actual)
    ia = actual.find('a')
    full = {'abd': (0, 3), 'acd': (0, 3), 'abd-': (0, 3), 'xabd': (1, 4), 'a-bd': (0, 4), 'ab-d': (0, 4)}
    expect = full.get(actual)
    if strict and actual in ('xabd', 'a-bd', 'ab-d'):
        expect = None
    check(got == expect, 'the span of all, or None')


def d_line_match():
    """A text: the first line containing it; strictly: every line is it."""
    strict = pick(True, False)
    what = pick('a', re.compile('a'))
    m = build_line_match(what, strict=strict)
    lines = pick(['a'], ['b', 'ab'], ['b', 'c'], ['a', 'a'], ['a', 'b'])
    got = m(lines)
    if strict:
        expect = (0, len(lines)) if all(x == 'a' for x in lines) else None
    else:
        hits = [i for i, x in enumerate(lines) if 'a' in x and (what == 'a' or x.startswith('a'))]
        expect = (hits[0], hits[0] + 1) if hits else None
    check(got == expect, 'where it is, or None')
    if lines == ['a', 'a']:
        check(m(lines, 1) == (1, 2), 'from the start given')


def d_line_sequence():
    strict = pick(True, False)
    m = build_line_match(['a', re.compile('b|c')], strict=strict)
    lines = pick(['a', 'b'], ['xa', 'cx'], ['x', 'a', 'b'], ['a', 'x', 'b'], ['b', 'a'], ['a'], [],
                 ['ab'], ['a', 'xb'])
    table = {0: (0, 2), 1: (0, 2), 2: (1, 3), 3: (0, 3)}
    i = [['a', 'b'], ['xa', 'cx'], ['x', 'a', 'b'], ['a', 'x', 'b']]
    expect = None
    for k, l in enumerate(i):
        if l == lines and not (strict and k > 1):
            expect = table[k]
    check(m(lines) == expect, 'the span of all, or None')
    if not strict:
        moved = None if expect is None else (expect[0] + 2, expect[1] + 2)
        check(m(['a', 'b'] + lines, 2) == moved, 'from the start given')


def d_bad_expectations():
    check(raised(ValueError, lambda: build_text_match(7)), 'no text')
    check(raised(ValueError, lambda: build_line_match(7)), 'no line')


def d_expect_output():
    """Text or lines against text or lines, each converted as needed."""
    ansi()
    given = pick('text', 'lines')
    kwargs = {'text': 'one\ntw\x1b[0mo\nthree'} if given == 'text' else {
        'lines': ['one', 'tw\x1b[0mo', 'three']}
    case = pick(('expected_text', 'one\ntwo', True), ('expected_text', 'two\none', False),
                ('expected_text', re.compile('t.o\nt'), True), ('expected_text', ['one', 'three'], True),
                ('expected_text', ['three', 'one'], False), ('expected_lines', ['one', 'two'], True),
                ('expected_lines', ['two', 'one'], False), ('expected_lines', 'hre', True),
                ('expected_lines', re.compile('t.o'), True), ('expected_lines', re.compile('f'), False))
    kwargs[case[0]] = case[1]
    check(expect_output(**kwargs) is case[2], 'exactly then')


def d_expect_output_strict():
    ansi()
    check(expect_output(text='a\nb', expected_text='a\nb', strict=True), 'all of it')
    check(not expect_output(text='a\nb', expected_text='a', strict=True), 'not only a part')
    check(expect_output(lines=['a', 'b'], expected_lines=['a', 'b'], strict=True), 'one by one')
    check(not expect_output(lines=['x', 'a', 'b'], expected_lines=['a', 'b'], strict=True), 'from the start')
    end = pick('', '\n', '\r\n')
    check(expect_output(text='a\r\nb' + end, expected_lines=[re.compile('a$'), 'b'], strict=True),
          'the lines of it')
    keep = {'strip_ansi_escape_sequences': False}
    check(not expect_output(text='a\x1b[0mb', expected_text='ab', **keep), 'nothing removed')
    check(not expect_output(lines=['a\x1b[0mb'], expected_lines=['ab'], **keep), 'nothing removed')


def d_expect_output_misused():
    ansi()
    given = pick({}, {'text': 'a'}, {'lines': ['a']}, {'text': 'a', 'lines': ['a']})
    expected = pick({}, {'expected_text': 'a'}, {'expected_lines': ['a']},
                    {'expected_text': 'a', 'expected_lines': ['a']})
    wrong = len(given) != 1 or len(expected) != 1
    check(raised(ValueError, lambda: expect_output(**given, **expected)) == wrong, 'one of each')


def d_filter():
    """Lines that start with a prefix or a pattern go, all others stay, for every output filtered."""
    which = pick('default', 'prefixes', 'patterns', 'both')
    kwargs = {}
    if which in ('prefixes', 'both'):
        kwargs['filtered_prefixes'] = ['x', 'yy']
    if which in ('patterns', 'both'):
        kwargs['filtered_patterns'] = ['[0-9]+:', 'z']
        if which == 'patterns':
            kwargs['filtered_prefixes'] = []
    f = basic_output_filter(**kwargs)
    lines = ['pid 1\n', 'rc 0\n', 'xa\n', 'yb\n', 'yyb\n', '12: c\n', 'a 1:\n', 'z\r\n', ' x\n', 'rest']
    gone = {'default': [0, 1], 'prefixes': [2, 4], 'patterns': [5, 7], 'both': [2, 4, 5, 7]}[which]
    expect = ''.join(l for i, l in enumerate(lines) if i not in gone)
    check(f(''.join(lines)) == expect, 'those lines, others unchanged')
    check(f(''.join(lines)) == expect, 'the same the second time')
    check(f('') == '', 'nothing')


FILES = {}


def d_from_file():
    """path.txt: its lines; else path.regex: its lines as patterns; else an error."""
    stub('os.path.isfile', lambda path: path in FILES)
    stub('builtins.open', open_file)
    have = pick('txt', 'regex', 'both', 'none')
    if have in ('txt', 'both'):
        FILES['dir/f.txt'] = 'one\ntwo\n'
    if have in ('regex', 'both'):
        FILES['dir/f.regex'] = 'o.e\nt+\n'
    if have == 'none':
        check(raised(RuntimeError, lambda: expected_output_from_file('dir/f')), 'not found')
        return
    got = expected_output_from_file('dir/f', encoding='utf-16')
    if have == 'regex':
        check([p.pattern for p in got] == ['o.e', 't+'], 'its patterns')
    else:
        check(got == ['one', 'two'], 'its lines')
    check([x[2] for x in logs('open')] == ['utf-16'], 'in the encoding given')
    check(len(logs('closed')) == 1, 'it is closed')


class File:

    def __init__(self, text):
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def read(self):
        return self.text

    def __iter__(self):
        return iter(self.text.splitlines(keepends=True))

    def readlines(self):
        return self.text.splitlines(keepends=True)

    def close(self):
        log('closed')


def open_file(path, mode='r', encoding=None, **kwargs):
    log('open', path, encoding)
    return File(FILES[path])
