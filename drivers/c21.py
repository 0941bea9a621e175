"""Substitutions: what each stands for, evaluated in the context of the moment."""
import os
import subprocess

import launch.logging
from launch import Substitution
from launch.substitutions import AllSubstitution
from launch.substitutions import AndSubstitution
from launch.substitutions import AnonName
from launch.substitutions import AnySubstitution
from launch.substitutions import Command
from launch.substitutions import EnvironmentVariable
from launch.substitutions import EqualsSubstitution
from launch.substitutions import FileContent
from launch.substitutions import FindExecutable
from launch.substitutions import IfElseSubstitution
from launch.substitutions import LaunchConfiguration
from launch.substitutions import LaunchLogDir
from launch.substitutions import LocalSubstitution
from launch.substitutions import NotEqualsSubstitution
from launch.substitutions import NotSubstitution
from launch.substitutions import OrSubstitution
from launch.substitutions import PathJoinSubstitution
from launch.substitutions import PythonExpression
from launch.substitutions import SubstitutionFailure
from launch.substitutions import TextSubstitution
from launch.substitutions import ThisLaunchFile
from launch.substitutions import ThisLaunchFileDir
from launch.utilities import normalize_to_list_of_substitutions

from drv.fe import *


class Failing(Substitution):
    def perform(self, context):
        log('failing')
        raise UserError('x')

    def describe(self):
        return 'failing'


def failed(r):
    return r[0] == 'raise' and isinstance(r[1], SubstitutionFailure)


def d_text():
    """A text stands for itself."""
    c = make_context()
    t = unknown('text', str)
    check(TextSubstitution(text=t).perform(c) == t, 'unchanged')
    r = outcome(TextSubstitution, text=pick(None, 3, ['a']))
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'only texts')


def d_normalize():
    """Texts, substitutions and lists of both become the same list, in order; others are refused."""
    c = make_context()
    s = LaunchConfiguration('x')
    c.launch_configurations['x'] = 'X'
    given = pick('text', 'substitution', 'list', 'tuple', 'empty', 'wrong', 'wrong item')
    subs = {'text': 'a b', 'substitution': s, 'list': ['a', s, 'b'], 'tuple': ('a', s), 'empty': [],
            'wrong': 3, 'wrong item': ['a', 3]}[given]
    r = outcome(normalize_to_list_of_substitutions, subs)
    if given.startswith('wrong'):
        check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')
    else:
        check(r[0] == 'ok', 'accepted')
        check(perform_substitutions(c, r[1]) == {
            'text': 'a b', 'substitution': 'X', 'list': 'aXb', 'tuple': 'aX', 'empty': ''}[given], 'in order')


def d_configuration():
    """A configuration stands for its value, also an empty one; else its default; else it fails."""
    c = make_context()
    value = pick(None, '', 'v', 'false')
    default = pick(None, '', 'd', ['d', LaunchConfiguration('y')], False, 3, LaunchConfiguration('y'))
    c.launch_configurations['y'] = 'Y'
    c.launch_configurations['xx'] = 'other'
    if value is not None:
        c.launch_configurations['x'] = value
    sub = LaunchConfiguration('x') if default is None else LaunchConfiguration('x', default=default)
    r = outcome(sub.perform, c)
    if value is not None:
        check(r == ('ok', value), 'the value')
    elif default is None:
        check(failed(r), 'a failure')
    else:
        want = 'dY' if isinstance(default, list) else 'Y' if isinstance(default, Substitution) else str(default)
        check(r == ('ok', want), 'the default')
    check(sorted(c.launch_configurations.keys()) == (['x', 'xx', 'y'] if value is not None else ['xx', 'y']),
          'nothing is set')


def d_configuration_lazy():
    """The default of a configuration is evaluated only if it is needed."""
    c = make_context()
    c.launch_configurations['x'] = 'v'
    check(outcome(LaunchConfiguration('x', default=Failing()).perform, c) == ('ok', 'v'), 'the value')
    check(logs('failing') == [], 'not evaluated')


def d_configuration_name():
    """The name of a configuration may be a substitution."""
    c = make_context()
    c.launch_configurations['which'] = pick('a', 'b')
    c.launch_configurations['my_a'] = 'A'
    c.launch_configurations['my_b'] = 'B'
    got = LaunchConfiguration(['my_', LaunchConfiguration('which')]).perform(c)
    check(got == c.launch_configurations['which'].upper(), 'evaluated')


def d_environment():
    """A variable stands for its value, also an empty one; else its default; else it fails."""
    environ(HAS='v', EMPTY='', NAME='HAS')
    c = make_context()
    name = pick('HAS', 'EMPTY', 'MISSING', EnvironmentVariable('NAME'))
    default = pick(None, '', 'd', ['d', EnvironmentVariable('HAS')])
    sub = EnvironmentVariable(name) if default is None else EnvironmentVariable(name, default_value=default)
    r = outcome(sub.perform, c)
    if name == 'EMPTY':
        check(r == ('ok', ''), 'the empty value')
    elif name != 'MISSING':
        check(r == ('ok', 'v'), 'the value')
    elif default is None:
        check(failed(r), 'a failure')
    else:
        check(r == ('ok', 'dv' if isinstance(default, list) else default), 'the default')


def d_default_empty():
    """An empty default, however it is written, is a default."""
    environ(HAS='v')
    c = make_context()
    empty = pick('', [], (), [''], TextSubstitution(text=''))
    check(outcome(EnvironmentVariable('NOPE', default_value=empty).perform, c) == ('ok', ''), 'of a variable')
    check(outcome(LaunchConfiguration('nope', default=empty).perform, c) == ('ok', ''), 'of a configuration')
    check(outcome(EnvironmentVariable('HAS', default_value=empty).perform, c) == ('ok', 'v'), 'the value goes first')


def d_any_value():
    """Whatever the text of a value is, it is given unchanged."""
    v = unknown('value', str)
    assume(v != '')
    environ(HAS=v)
    c = make_context()
    c.launch_configurations['x'] = v
    check(LaunchConfiguration('x', default=pick('', 'd')).perform(c) == v, 'a configuration')
    check(EnvironmentVariable('HAS', default_value=pick('', 'd')).perform(c) == v, 'a variable')
    check(EnvironmentVariable('NOPE', default_value=v).perform(c) == v, 'the default of a variable')
    check(IfElseSubstitution('true', if_value=v).perform(c) == v, 'a selected one')
    check(IfElseSubstitution('true', else_value=v).perform(c) == '', 'not the other one')


def d_environment_lazy():
    """The default of a variable is evaluated only if it is needed."""
    environ(HAS='v')
    c = make_context()
    check(outcome(EnvironmentVariable('HAS', default_value=Failing()).perform, c) == ('ok', 'v'), 'the value')


def d_environment_now():
    """The value is that of the environment of the moment."""
    environ(HAS='old')
    c = make_context()
    sub = EnvironmentVariable('HAS')
    c.environment['HAS'] = 'new'
    check(sub.perform(c) == 'new', 'the value of now')


def d_environment_exact():
    """The name of a variable is exactly the one given."""
    environ(has='lower', HAS='upper', Has_2='mixed')
    c = make_context()
    name, want = pick(('has', 'lower'), ('HAS', 'upper'), ('Has_2', 'mixed'), ('Has', None), ('HAS_2', None), (' HAS', None),
                      ('HAS ', None), ('$HAS', None))
    r = outcome(EnvironmentVariable(name).perform, c)
    check(failed(r) if want is None else r == ('ok', want), 'exactly')


YES = ('true', 'True', 'TRUE', '1', 'on', 'yes')
NO = ('false', 'False', 'FALSE', '0', 'off', 'no')
NONSENSE = ('', 'maybe', '2', '-1', '1.0', '[]', '[true]', 'truefalse', "'true'", ' ')


def d_not():
    """Not: the opposite, as lower case text; nonsense fails."""
    c = make_context()
    what = pick('yes', 'no', 'nonsense')
    text = pick(*{'yes': YES, 'no': NO, 'nonsense': NONSENSE}[what])
    r = outcome(NotSubstitution(text).perform, c)
    if what == 'nonsense':
        check(failed(r), 'a failure')
    else:
        check(r == ('ok', 'false' if what == 'yes' else 'true'), 'the opposite')


def d_and_or():
    """And, or: the truth table; nonsense fails."""
    c = make_context()
    c.launch_configurations['l'] = left = pick('true', '1', 'false', '0')
    right = pick('True', 'on', 'False', 'off')
    a, b = left in YES, right in YES
    which = pick('and', 'or')
    cls = {'and': AndSubstitution, 'or': OrSubstitution}[which]
    want = (a and b) if which == 'and' else (a or b)
    check(cls(LaunchConfiguration('l'), right).perform(c) == ('true' if want else 'false'), 'the truth table')


def d_and_or_nonsense():
    """And, or with nonsense fail, whatever the other value is."""
    c = make_context()
    cls, other = pick(AndSubstitution, OrSubstitution), pick('true', 'false', '1', '0')
    bad = pick(*NONSENSE)
    check(failed(outcome(cls(bad, other).perform, c)), 'on the left')
    check(failed(outcome(cls(other, bad).perform, c)), 'on the right')


def d_any_all():
    """Any, all: of any number of values, none included; nonsense among them fails."""
    c = make_context()
    n = pick(0, 1, 2, 3)
    values = [pick('true', '0', 'nonsense') for i in range(n)]
    which = pick('any', 'all')
    if which == 'any':
        sub = AnySubstitution(*values)
        want = 'true' in values
    else:
        sub = AllSubstitution(*values)
        want = '0' not in values
    r = outcome(sub.perform, c)
    if 'nonsense' in values:
        check(failed(r), 'a failure')
    else:
        check(r == ('ok', 'true' if want else 'false'), 'the value')


EQUAL = (('a', 'a'), ('', ''), ('true', '1'), ('True', 'true'), ('FALSE', '0'), ('1.0', '1'), ('0.1', '0.10'),
         ('1e3', '1000'), ('0.30000000000000004', '0.3'), ('a b', 'a b'), ('-0', '0.0'), ('2', '2.0'))
UNEQUAL = (('a', 'b'), ('a', 'A'), ('a', ' a'), ('', '0'), ('', 'false'), ('true', 'false'), ('1', '0'),
           ('true', '2'), ('2', '1'), ('1.0', '1.001'), ('10', '1'), ('yes', 'true'), ('on', 'true'),
           ('a', ''), ('0.1', '0.2'), ('nan', '1'), ('0', '1e-12'), ('1', '1.00001'), ('1e300', '1e301'), ('inf', '-inf'),
           ('a b', 'ab'), ('a', 'a\n'), ('yes', 'on'))


def d_equals():
    """Equals: texts, with booleans and numbers compared by value; not equals is the opposite."""
    c = make_context()
    same = pick(True, False)
    a, b = pick(*EQUAL) if same else pick(*UNEQUAL)
    c.launch_configurations['x'] = a
    left, right = pick((LaunchConfiguration('x'), b), (b, LaunchConfiguration('x')))
    check(EqualsSubstitution(left, right).perform(c) == ('true' if same else 'false'), 'equal')
    check(NotEqualsSubstitution(left, right).perform(c) == ('false' if same else 'true'), 'not equal')


def d_equals_values():
    """Values which are no texts are compared by their text."""
    c = make_context()
    a, b, same = pick((True, 'true', True), (None, '', True), (1, '1', True), (1.0, 1, True), (False, True, False),
                      (None, 'None', False), (3, '4', False), (False, '0', True))
    check(EqualsSubstitution(a, b).perform(c) == ('true' if same else 'false'), 'equal')
    check(NotEqualsSubstitution(b, a).perform(c) == ('false' if same else 'true'), 'not equal')


def d_if_else():
    """If else: the selected value, only that one is evaluated; nonsense fails."""
    c = make_context()
    what = pick('yes', 'no', 'nonsense')
    cond = pick(*{'yes': YES, 'no': NO, 'nonsense': NONSENSE}[what])
    r = outcome(IfElseSubstitution(
        cond, if_value='A' if what == 'yes' else Failing(), else_value='B' if what == 'no' else Failing()).perform, c)
    if what == 'nonsense':
        check(failed(r), 'a failure')
    else:
        check(r == ('ok', 'A' if what == 'yes' else 'B'), 'the selected one')
    check(logs('failing') == [], 'the other one is not evaluated')


def d_if_else_missing():
    """A value not given is empty; giving none is an error; both may be the same."""
    c = make_context()
    what = pick('if', 'else', 'none')
    if what == 'none':
        r = outcome(IfElseSubstitution, 'true')
        check(r[0] == 'raise', 'an error')
    else:
        truth = pick('true', 'false')
        sub = IfElseSubstitution(truth, if_value='A') if what == 'if' else IfElseSubstitution(truth, else_value='A')
        check(sub.perform(c) == ('A' if (truth == 'true') is (what == 'if') else ''), 'empty')
        r = outcome(IfElseSubstitution, truth, if_value='A', else_value='A')
        check(r[0] == 'ok' and r[1].perform(c) == 'A', 'the same')
        empty = pick('', [], [''], LaunchConfiguration('nope', default=''))
        check(IfElseSubstitution('true', if_value=empty, else_value='A').perform(c) == '', 'an empty one is selected too')
        check(IfElseSubstitution('false', if_value='A', else_value=empty).perform(c) == '', 'an empty one is selected too')


class Result:
    def __init__(self, returncode, stdout, stderr):
        self.returncode = returncode
        self.stdout = stdout
        self.stderr = stderr


class Shell:
    code = 0
    error = None
    says = ''
    out = 'out\n'


def shell(args, **kwargs):
    log('shell', args, kwargs)
    if Shell.error is not None:
        raise Shell.error
    both = kwargs.get('stderr') is subprocess.STDOUT
    out, err = Shell.out + (Shell.says if both else ''), Shell.says
    if not (kwargs.get('text') or kwargs.get('universal_newlines') or kwargs.get('encoding') or kwargs.get('errors')):
        out, err = out.encode(), err.encode()
    every = kwargs.get('capture_output', False)
    if kwargs.get('check') and Shell.code != 0:
        raise subprocess.CalledProcessError(Shell.code, args)
    return Result(Shell.code, out if every or kwargs.get('stdout') is subprocess.PIPE else None,
                  err if every or kwargs.get('stderr') is subprocess.PIPE else None)


def warned(self, *args, **kwargs):
    log('warned', args)


def d_command():
    """The output of the command; a failing one fails; its error output as asked."""
    stub('subprocess.run', shell)
    stub('.warning', warned)
    c = make_context()
    Shell.code = pick(0, 1, -9)
    Shell.says = pick('', 'err\n')
    Shell.out = pick('out\n', '', '\n out ')
    mode = pick(None, 'fail', 'ignore', 'warn', 'capture')
    c.launch_configurations['mode'] = mode or ''
    sub = Command('do it') if mode is None else Command('do it', on_stderr=LaunchConfiguration('mode'))
    r = outcome(sub.perform, c)
    check(len(logs('shell')) == 1, 'run once')
    check(list(logs('shell')[0][1]) == ['do', 'it'], 'that command')
    if Shell.code != 0:
        check(failed(r), 'a failing command is a failure')
        check('do it' in str(r[1]), 'it tells which')
        check('err' in str(r[1]) or not Shell.says or mode == 'capture', 'it tells what the command said')
    elif Shell.says and mode in (None, 'fail'):
        check(failed(r), 'error output is a failure')
        check('do it' in str(r[1]) and 'err' in str(r[1]), 'it tells which and what')
    else:
        check(r == ('ok', Shell.out + (Shell.says if mode == 'capture' else '')), 'its output')
    check((len(logs('warned')) > 0) is (r[0] == 'ok' and mode == 'warn' and Shell.says != ''), 'a warning as asked')


def d_command_words():
    """The command is evaluated, then split as a shell does."""
    stub('subprocess.run', shell)
    c = make_context()
    c.launch_configurations['x'] = pick('a', 'a b', "'a b'", '#a', '; b', '$a', '*', '\\ ')
    Command(['do ', LaunchConfiguration('x'), ' "c d"']).perform(c)
    want = {'a': ['a'], 'a b': ['a', 'b'], "'a b'": ['a b'], '#a': ['#a'], '; b': [';', 'b'], '$a': ['$a'], '*': ['*'],
            '\\ ': [' ']}[c.launch_configurations['x']]
    check(list(logs('shell')[0][1]) == ['do'] + want + ['c d'], 'the words')
    check(not logs('shell')[0][2].get('shell'), 'no shell')


def d_command_impossible():
    """A command that cannot be run, or an unknown mode, is a failure."""
    stub('subprocess.run', shell)
    c = make_context()
    how = pick('missing', 'not allowed', 'mode', 'empty')
    Shell.error = {'missing': FileNotFoundError('x'), 'not allowed': PermissionError('x')}.get(how)
    sub = Command('' if how == 'empty' else 'do', on_stderr=pick('loud', '', 'FAIL', 'capture ', 'ignore warn') if how == 'mode' else 'fail')
    check(failed(outcome(sub.perform, c)), 'a failure')
    check(len(logs('shell')) == (0 if how in ('mode', 'empty') else 1), 'nothing is run in vain')


class Text:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        log('closed')

    def close(self):
        log('closed')


def opened(path, *args, **kwargs):
    log('open', path)
    if path == '/missing':
        raise FileNotFoundError(path)
    if path != '/here':
        return OpenFile(path)
    return Text('content of ' + path + '\n')


def d_file():
    """The content of the file, as it is; a missing file is a failure."""
    stub('builtins.open', opened)
    c = make_context()
    c.launch_configurations['x'] = pick('/here', '/missing')
    r = outcome(FileContent(LaunchConfiguration('x')).perform, c)
    if c.launch_configurations['x'] == '/missing':
        check(failed(r), 'a failure')
    else:
        check(r == ('ok', 'content of /here\n'), 'the content')
        check(len(logs('closed')) == 1, 'the file is closed')


def located(name, *args, **kwargs):
    log('which', name)
    return '/bin/' + name if name == 'ls' else None


def d_executable():
    """The path of the program; a missing one is a failure."""
    stub('osrf_pycommon.process_utils.which', located)
    stub('shutil.which', located)
    c = make_context()
    c.launch_configurations['x'] = pick('ls', 'nope', ' ls', 'LS', 'ls ')
    r = outcome(FindExecutable(name=LaunchConfiguration('x')).perform, c)
    if c.launch_configurations['x'] == 'ls':
        check(r == ('ok', '/bin/ls'), 'its path')
    else:
        check(failed(r), 'a failure')


def d_path():
    """The parts are joined to a path, in order; an absolute part starts anew."""
    c = make_context()
    c.launch_configurations['x'] = pick('b', '/b')
    got = PathJoinSubstitution(['a', LaunchConfiguration('x'), 'c.txt']).perform(c)
    check(got == {'b': 'a/b/c.txt', '/b': '/b/c.txt'}[c.launch_configurations['x']], 'joined')


def d_path_as_given():
    """The path is only joined: nothing is resolved, no file is looked at."""
    c = make_context()
    parts, want = pick((['a', '..', 'b'], 'a/../b'), (['.', 'x'], './x'), (['a//b', 'c'], 'a//b/c'), (['~', 'x'], '~/x'),
                       (['a', ''], 'a/'), (['', 'a'], 'a'), (['a'], 'a'), (['$HOME', 'a b'], '$HOME/a b'),
                       (['/', 'a'], '/a'))
    check(PathJoinSubstitution(parts).perform(c) == want, 'joined')


def d_file_here():
    """The launch file and its directory: those of the place of the evaluation; else a failure."""
    c = make_context()
    check(failed(outcome(ThisLaunchFile().perform, c)), 'no file')
    check(failed(outcome(ThisLaunchFileDir().perform, c)), 'no directory')
    c.extend_locals({'current_launch_file_path': '/d/f.py', 'current_launch_file_directory': '/d'})
    check(ThisLaunchFile().perform(c) == '/d/f.py', 'the file')
    check(ThisLaunchFileDir().perform(c) == '/d', 'the directory')


def d_local():
    """A local of the context, or an attribute of it."""
    c = make_context()
    e = Ping()
    c.extend_locals({'event': e, 'here': 'value'})
    check(LocalSubstitution('here').perform(c) == 'value', 'the value')
    check(LocalSubstitution('event.name').perform(c) == 'test.Ping', 'the attribute')
    r = outcome(LocalSubstitution('missing').perform, c)
    check(r[0] == 'raise', 'unknown ones are an error')


def d_expression():
    """The value of the expression, after its substitutions, as text."""
    c = make_context()
    c.launch_configurations['x'] = pick('3', '4')
    n = int(c.launch_configurations['x'])
    text, want = pick((['1 + ', LaunchConfiguration('x')], str(1 + n)),
                      ([LaunchConfiguration('x'), ' == 3'], str(n == 3)),
                      (["'", LaunchConfiguration('x'), "' + 'a'"], str(n) + 'a'))
    check(PythonExpression(text).perform(c) == want, 'its value')


def d_expression_modules():
    """An expression sees the modules given, by their names; mathematics as long as none are given."""
    c = make_context()
    c.launch_configurations['x'] = pick('os', 'math')
    modules = pick('default', 'none', 'given', 'two')
    wanted = pick('math.floor(2.5)', 'floor(2.5)', 'any(floor(x) == 2 for x in [2.5])', '(lambda: int(pi))()',
                  "os.path.join('a', 'b')", '[math.floor(x) for x in [2.5]][0]')
    sees = {'default': ('math',), 'none': (), 'given': (c.launch_configurations['x'],), 'two': ('math', 'os')}[modules]
    if modules == 'default':
        sub = PythonExpression(wanted)
    else:
        sub = PythonExpression(wanted, python_modules={
            'none': [], 'given': [LaunchConfiguration('x')], 'two': ['math', 'os']}[modules])
    r = outcome(sub.perform, c)
    if ('os' if wanted.startswith('os') else 'math') in sees:
        check(r == ('ok', {'o': 'a/b', 'a': 'True', '(': '3'}.get(wanted[0], '2')), 'its value')
    else:
        check(r[0] == 'raise' and isinstance(r[1], NameError), 'others are not known')


def d_expression_sees_only():
    """An expression sees neither configurations nor locals nor what another expression did."""
    environ(A='a')
    c = make_context()
    c.launch_configurations['speed'] = '3'
    c.extend_locals({'here': 4})
    modules = pick(['math'], [], ['os'])
    r = outcome(PythonExpression(pick('speed', 'here', 'context', 'self', 'A', 'seen'), python_modules=modules).perform, c)
    check(r[0] == 'raise' and isinstance(r[1], NameError), 'not known')
    check(PythonExpression("globals().update(seen=1) or 1", python_modules=modules).perform(c) is not None, 'a value')
    r = outcome(PythonExpression('seen', python_modules=modules).perform, c)
    check(r[0] == 'raise' and isinstance(r[1], NameError), 'nothing remains')


def d_expression_fails():
    """An error of the expression is an error."""
    c = make_context()
    text, error = pick(('1 / 0', ZeroDivisionError), ('nope', NameError), ('1 +', SyntaxError), ('x = 1', SyntaxError),
                       ("int('a')", ValueError), ('', SyntaxError), ('[][0]', IndexError))
    r = outcome(PythonExpression(text).perform, c)
    check(r[0] == 'raise' and isinstance(r[1], error), 'that error')


def d_expression_arguments():
    """What is no text, substitution or list of them is no expression, nor modules."""
    wrong = pick(None, 3, [3], True)
    r = outcome(PythonExpression, wrong) if pick(True, False) else outcome(PythonExpression, '1', wrong)
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def host():
    return 'my-host.local:1'


def number(low, high):
    DRAWN.append(high - low)
    return len(DRAWN)


DRAWN = []


def d_anonymous():
    """The same name gives the same anonymous name, which is a valid name that starts with it."""
    stub('socket.gethostname', host)
    stub('os.getpid', 42)
    stub('random.randint', number)
    c = make_context()
    c.launch_configurations['x'] = name = pick('a', 'my-node', 'a.b:c')
    one = AnonName(LaunchConfiguration('x')).perform(c)
    two = AnonName(name).perform(c)
    check(one == two, 'the same')
    check(one.startswith(name.replace('-', '_').replace('.', '_').replace(':', '_')), 'starts with it')
    check('.' not in one and '-' not in one and ':' not in one, 'a valid name')
    check(one != name, 'not the name itself')


def d_anonymous_different():
    """Different names give different anonymous names; so do different launches."""
    stub('socket.gethostname', host)
    stub('os.getpid', 42)
    stub('random.randint', number)
    c = make_context()
    d = make_context()
    one, two, other = AnonName('a').perform(c), AnonName('b').perform(c), AnonName('a').perform(d)
    check(one != two, 'different names')
    check(one != other, 'different launches')
    check(DRAWN[0] > 1000000, 'hardly ever the same')
    check(AnonName('a').perform(c) == one and AnonName('b').perform(c) == two, 'each remains')


def d_log_directory():
    """The log directory is the one of this launch."""
    stub('os.path.isdir', True)
    c = make_context()
    launch.logging.launch_config.log_dir = '/logs/here'
    check(LaunchLogDir().perform(c) == '/logs/here', 'the directory')


def d_describe():
    """Describing a substitution evaluates nothing."""
    stub('subprocess.run', shell)
    stub('builtins.open', opened)
    environ(A='a')
    sub = pick(TextSubstitution(text='a'), LaunchConfiguration('x'), LaunchConfiguration(['x', Failing()]),
               EnvironmentVariable('NOPE'), Command(['do', Failing()]), FileContent(Failing()),
               FindExecutable(name=Failing()), NotSubstitution(Failing()), AndSubstitution(Failing(), 'a'),
               EqualsSubstitution('a', Failing()), IfElseSubstitution(Failing(), if_value='a'),
               PathJoinSubstitution(['a', Failing()]), PythonExpression(Failing()), ThisLaunchFile(),
               LocalSubstitution('x'), AnySubstitution(Failing()), LaunchLogDir(), AnonName(Failing()))
    r = outcome(sub.describe)
    check(r[0] == 'ok', 'no error')
    check(logs('failing') == [] and logs('shell') == [] and logs('open') == [], 'nothing is evaluated')


def d_no_trace():
    """Evaluating a substitution changes neither configurations nor environment."""
    stub('subprocess.run', shell)
    stub('builtins.open', opened)
    environ(A='a')
    c = make_context()
    c.launch_configurations['x'] = 'true'
    subs = (LaunchConfiguration('x'), LaunchConfiguration('y', default='d'), EnvironmentVariable('A'),
            EnvironmentVariable('B', default_value='b'), Command('do'), FileContent('/here'),
            NotSubstitution(LaunchConfiguration('x')), EqualsSubstitution('a', LaunchConfiguration('x')),
            IfElseSubstitution(LaunchConfiguration('x'), if_value='a'), PythonExpression('1 + 1'))
    i = pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
    one, two = subs[i].perform(c), subs[i].perform(c)
    check(one == two, 'the same value every time')
    check(dict(c.launch_configurations) == {'x': 'true'}, 'the configurations')
    check(dict(c.environment) == {'A': 'a'}, 'the environment')


# ------------------------------------------------------------------ in launch files

ARITY = {
    'not': (1, 1), 'and': (2, 2), 'or': (2, 2), 'command': (1, 2), 'env': (1, 2), 'equals': (2, 2),
    'not-equals': (2, 2), 'file-content': (1, 1), 'find-exec': (1, 1), 'if': (2, 3), 'var': (1, 2),
    'launch_log_dir': (0, 0), 'log_dir': (0, 0), 'eval': (1, 2), 'filename': (0, 0), 'dirname': (0, 0),
    'anon': (1, 1)}


def d_written_arity():
    """Written in a launch file each substitution takes as many arguments as it needs, else it is refused."""
    parser = frontend()
    name = pick(*sorted(ARITY))
    low, high = ARITY[name]
    n = pick(0, 1, 2, 3, 4)
    r = outcome(parser.parse_substitution, '$(' + name + ' a' * n + ')')
    check((r[0] == 'ok') is (low <= n <= high), 'exactly then')


def d_written():
    """Written in a launch file a substitution stands for the same as in Python."""
    parser = frontend()
    stub('subprocess.run', shell)
    stub('builtins.open', opened)
    stub('osrf_pycommon.process_utils.which', located)
    environ(A='va')
    c = make_context()
    c.launch_configurations['x'] = 'vx'
    c.launch_configurations['yes'] = 'true'
    c.launch_configurations['name'] = 'x'
    c.extend_locals({'current_launch_file_path': '/d/f.xml', 'current_launch_file_directory': '/d'})
    text, want = pick(
        ('$(var x)', 'vx'), ('$(var nope d)', 'd'), ('$(var nope $(var x))', 'vx'), ('$(var $(var name))', 'vx'),
        ('$(env A)', 'va'), ('$(env NOPE d)', 'd'), ('$(not $(var yes))', 'false'),
        ('$(and $(var yes) false)', 'false'), ('$(and true $(var yes))', 'true'),
        ('$(or false $(var yes))', 'true'), ('$(or false 0)', 'false'),
        ('$(any false $(var yes) 0)', 'true'), ('$(any false 0)', 'false'), ('$(any false 0 off $(var yes))', 'true'),
        ('$(all true $(var yes) 1)', 'true'), ('$(all true 0)', 'false'), ('$(all true 1 on no)', 'false'),
        ('$(equals $(var x) vx)', 'true'), ('$(equals a b)', 'false'), ('$(not-equals a b)', 'true'),
        ('$(not-equals 1 true)', 'false'),
        ('$(if $(var yes) a b)', 'a'), ('$(if $(not $(var yes)) a b)', 'b'), ('$(if false a)', ''),
        ("$(eval '1 + 2')", '3'), ('$(filename)', '/d/f.xml'), ('$(dirname)/g', '/d/g'),
        ("$(command 'do it')", 'out\n'), ("$(command 'do it' ignore)", 'out\n'), ('$(file-content /here)', 'content of /here\n'),
        ('$(find-exec ls)', '/bin/ls'), ('pre $(var x) post', 'pre vx post'), ('$(var x)$(env A)', 'vxva'))
    check(texts(c, [parser.parse_substitution(text)]) == [want], 'the same')


def d_written_command():
    """Written in a launch file what becomes of the error output is chosen as in Python."""
    parser = frontend()
    stub('subprocess.run', shell)
    stub('.warning', warned)
    c = make_context()
    Shell.says = 'err\n'
    mode = pick('', ' fail', ' ignore', ' warn', ' capture', ' $(var mode)', ' nonsense')
    c.launch_configurations['mode'] = 'capture'
    r = outcome(texts, c, [parser.parse_substitution("$(command 'do it'" + mode + ')')])
    if mode in ('', ' fail', ' nonsense'):
        check(failed(r), 'a failure')
    else:
        check(r == ('ok', ['out\n' if mode in (' ignore', ' warn') else 'out\nerr\n']), 'its output')
    check((len(logs('warned')) > 0) is (mode == ' warn'), 'a warning as asked')


def d_written_modules():
    """Written in a launch file the modules of an expression are separated by commas."""
    parser = frontend()
    c = make_context()
    text, want = pick(
        ("$(eval 'floor(2.5)')", '2'), ("$(eval 'math.floor(2.5)' 'math')", '2'),
        ("$(eval 'os.path.join(os.curdir, \\'b\\')' 'math, os')", './b'),
        ("$(eval 'math.floor(2.5)' ' os,math ')", '2'), ("$(eval 'math.floor(2.5)' '')", None),
        ("$(eval 'math.floor(2.5)' 'os')", None), ("$(eval '1 + 1' '')", '2'))
    r = outcome(texts, c, [parser.parse_substitution(text)])
    if want is None:
        check(r[0] == 'raise' and isinstance(r[1], NameError), 'others are not known')
    else:
        check(r == ('ok', [want]), 'its value')


def d_written_unknown():
    """An unknown substitution is refused."""
    parser = frontend()
    r = outcome(parser.parse_substitution, pick('$(nope)', '$(nope a)', 'a $(varr x)'))
    check(r[0] == 'raise', 'refused')
