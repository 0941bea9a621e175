"""Actions on the environment and on the launch configurations do what they say and nothing else."""
import os

from launch.actions import AppendEnvironmentVariable
from launch.actions import PopEnvironment
from launch.actions import PopLaunchConfigurations
from launch.actions import PushEnvironment
from launch.actions import PushLaunchConfigurations
from launch.actions import ResetEnvironment
from launch.actions import ResetLaunchConfigurations
from launch.actions import SetEnvironmentVariable
from launch.actions import SetLaunchConfiguration
from launch.actions import UnsetEnvironmentVariable
from launch.actions import UnsetLaunchConfiguration
from launch.substitutions import AnonName
from launch.substitutions import EnvironmentVariable
from launch.substitutions import LaunchConfiguration
from launch.substitutions import TextSubstitution

from drv.env import *


def d_set_environment():
    """Set writes exactly the named variable, evaluated when visited."""
    v, o = unknown('value', str), unknown('other', str)
    environ({'OTHER': o, **({'NAME': 'old'} if pick(True, False) else {})})
    c = make_context()
    a = SetEnvironmentVariable(LaunchConfiguration('n'), [LaunchConfiguration('v')])
    c.launch_configurations['n'] = 'NAME'
    c.launch_configurations['v'] = v
    a.visit(c)
    check(os.environ['NAME'] == v, 'set to the value')
    check(os.environ['OTHER'] is o and len(os.environ) == 2, 'nothing else changes')
    check(EnvironmentVariable('NAME').perform(c) == v, 'visible to substitutions')


def d_unset_environment():
    """Unset removes exactly the named variable and accepts a missing one."""
    o = unknown('other', str)
    environ({'OTHER': o, **({'NAME': 'old'} if pick(True, False) else {})})
    c = make_context()
    r = outcome(UnsetEnvironmentVariable('NAME').visit, c)
    check(r[0] == 'ok', 'no error, set or not')
    check(len(os.environ) == 1 and os.environ['OTHER'] is o, 'only that one is removed')


def d_append_environment():
    """Append joins with the separator on the right side; sets the variable if it is missing."""
    v, old = unknown('value', str), unknown('old', str)
    present, prepend, sep = pick(True, False), pick(True, False), pick(None, ';')
    environ({'OTHER': 'o', **({'NAME': old} if present else {})})
    c = make_context()
    kw = {} if sep is None else {'separator': sep}
    given = pick('bool', 'text')
    if given == 'text':
        kw['prepend'] = TextSubstitution(text='true' if prepend else 'false')
    elif prepend:
        kw['prepend'] = True
    AppendEnvironmentVariable('NAME', v, **kw).visit(c)
    s = os.pathsep if sep is None else sep
    if not present:
        check(os.environ['NAME'] == v, 'missing: set to the value')
    elif prepend:
        check(os.environ['NAME'] == v + s + old, 'prepended')
    else:
        check(os.environ['NAME'] == old + s + v, 'appended')
    check(os.environ['OTHER'] == 'o' and len(os.environ) == 2, 'nothing else changes')


def d_append_empty():
    """A variable which is set but empty exists: it is joined, not replaced."""
    environ({'NAME': ''})
    c = make_context()
    AppendEnvironmentVariable('NAME', 'v', separator=':').visit(c)
    check(os.environ['NAME'] == ':v', 'joined with the empty value')


def d_environment_stack():
    """Push, change, reset and pop actions act on the environment of the context."""
    a = unknown('a', str)
    environ({'X': a})
    c = make_context()
    PushEnvironment().visit(c)
    SetEnvironmentVariable('X', 'changed').visit(c)
    SetEnvironmentVariable('Y', 'new').visit(c)
    if pick(True, False):
        ResetEnvironment().visit(c)
        check(len(os.environ) == 1 and os.environ['X'] is a, 'reset: as at the creation')
    os.environ['Z'] = 'z'
    PopEnvironment().visit(c)
    check(len(os.environ) == 1 and os.environ['X'] is a, 'restored by pop')
    r = outcome(PopEnvironment().visit, c)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'an unbalanced pop is an error')


def d_configuration_stack():
    """Push and pop actions act on the launch configurations of the context."""
    a = unknown('a', str)
    c = make_context()
    c.launch_configurations['x'] = a
    PushLaunchConfigurations().visit(c)
    SetLaunchConfiguration('x', 'changed').visit(c)
    SetLaunchConfiguration('y', 'new').visit(c)
    check(c.launch_configurations == {'x': 'changed', 'y': 'new'}, 'changed in between')
    PopLaunchConfigurations().visit(c)
    check(len(c.launch_configurations) == 1 and c.launch_configurations['x'] is a, 'restored by pop')
    r = outcome(PopLaunchConfigurations().visit, c)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'an unbalanced pop is an error')


def d_set_configuration():
    """Set writes exactly the named configuration, evaluated when visited."""
    c = make_context()
    v, o = unknown('value', str), unknown('other', str)
    c.launch_configurations['other'] = o
    a = SetLaunchConfiguration(['na', LaunchConfiguration('n')], [LaunchConfiguration('other'), '!'])
    c.launch_configurations['n'] = 'me'
    a.visit(c)
    check(c.launch_configurations['name'] == o + '!', 'set to the value')
    check(len(c.launch_configurations) == 3 and c.launch_configurations['other'] is o,
          'nothing else changes')


def d_unset_configuration():
    """Unset removes exactly the named configuration and accepts a missing one."""
    c = make_context()
    o = unknown('other', str)
    c.launch_configurations['other'] = o
    if pick(True, False):
        c.launch_configurations['name'] = 'x'
    r = outcome(UnsetLaunchConfiguration('name').visit, c)
    check(r[0] == 'ok', 'no error, set or not')
    check(len(c.launch_configurations) == 1 and c.launch_configurations['other'] is o,
          'only that one is removed')


def d_reset_configurations():
    """Reset clears everything but what is given, which is evaluated before."""
    c = make_context()
    v = unknown('value', str)
    c.launch_configurations['a'] = v
    c.launch_configurations['b'] = 'x'
    keep = pick(None, 'nothing', 'some')
    k = {None: None, 'nothing': {}, 'some': {'a': LaunchConfiguration('b'), 'n': LaunchConfiguration('a')}}
    ResetLaunchConfigurations(k[keep]).visit(c)
    if keep == 'some':
        check(sorted(c.launch_configurations) == ['a', 'n'], 'only what is given')
        check(c.launch_configurations['n'] == v, 'evaluated before clearing')
        check(c.launch_configurations['a'] == 'x', 'each from the state before')
    else:
        check(len(c.launch_configurations) == 0, 'everything is cleared')


def d_reset_failing():
    """A reset which cannot evaluate what is given changes nothing."""
    c = make_context()
    c.launch_configurations['a'] = 'x'
    r = outcome(ResetLaunchConfigurations({'n': LaunchConfiguration('missing')}).visit, c)
    check(r[0] == 'raise', 'an error')
    check(c.launch_configurations == {'a': 'x'}, 'nothing is cleared')


def d_anonymous_name():
    """The anonymous name of an id is generated once per context and then reused."""
    c = make_context()
    c.launch_configurations['other'] = 'o'
    a = AnonName('node').perform(c)
    b = AnonName('node').perform(c)
    check(a is b or a == b, 'the same id gives the same name')
    AnonName('second').perform(c)
    check(AnonName('node').perform(c) == a, 'another id does not change it')
    check(c.launch_configurations['other'] == 'o', 'user configurations are not touched')
    check(len(events('random.randint')) == 2, 'one generation per id')


def d_append_same():
    """The value is joined also when it equals what is there, or is empty."""
    environ({'NAME': pick('v', '')})
    old = os.environ['NAME']
    c = make_context()
    value = pick('v', '')
    prepend = pick(True, False)
    AppendEnvironmentVariable('NAME', value, separator=pick(':', '', '::'), prepend=prepend).visit(c)
    joined = os.environ['NAME']
    check(joined.startswith(value if prepend else old) and joined.endswith(old if prepend else value), 'joined')
    check(len(joined) >= len(old) + len(value), 'both are there')


def d_append_prepend_separator():
    """The separator given is used on either side, evaluated when visited, as everything is."""
    c = make_context()
    s, v, old = unknown('separator', str), unknown('value', str), unknown('old', str)
    environ({'NAME': old})
    a = AppendEnvironmentVariable(
        [LaunchConfiguration('n')], [LaunchConfiguration('v')], prepend=[LaunchConfiguration('p')],
        separator=[LaunchConfiguration('s')])
    p = pick('true', 'false')
    c.launch_configurations.update({'n': 'NAME', 'v': v, 'p': p, 's': s})
    a.visit(c)
    check(os.environ['NAME'] == (v + s + old if p == 'true' else old + s + v), 'joined')


def d_append_file():
    """An append of a launch file may give its separator and its side, as text with substitutions too."""
    from drv.fe import entity, frontend
    c = make_context()
    c.launch_configurations.update({'p': 'true', 's': ';'})
    environ({'NAME': 'old'})
    p, s = pick(None, 'true', 'false', '$(var p)'), pick(None, '@', '$(var s)')
    attrs = {'name': 'NAME', 'value': 'v$(var s)'}
    if p is not None:
        attrs['prepend'] = p
    if s is not None:
        attrs['separator'] = s
    fe = pick('xml', 'yaml')
    if fe == 'yaml' and p in ['true', 'false']:
        attrs['prepend'] = p == 'true'
    frontend().parse_action(entity(fe, ('append_env', attrs))).visit(c)
    sep = {None: os.pathsep, '@': '@', '$(var s)': ';'}[s]
    check(os.environ['NAME'] == ('v;' + sep + 'old' if p in ['true', '$(var p)'] else 'old' + sep + 'v;'), 'joined')


def d_set_from_itself():
    """A value may refer to what it replaces."""
    c = make_context()
    v = unknown('value', str)
    environ({'E': v})
    c.launch_configurations['a'] = v
    SetLaunchConfiguration('a', ['<', LaunchConfiguration('a'), '>']).visit(c)
    check(c.launch_configurations['a'] == '<' + v + '>', 'configuration')
    SetEnvironmentVariable('E', ['<', EnvironmentVariable('E'), '>']).visit(c)
    check(os.environ['E'] == '<' + v + '>', 'environment variable')


def d_set_failing():
    """An action whose name or value cannot be evaluated changes nothing."""
    c = make_context()
    environ({'E': 'e'})
    c.launch_configurations['a'] = 'x'
    m = LaunchConfiguration('missing')
    a = pick(0, 1, 2, 3, 4, 5)
    r = outcome([SetLaunchConfiguration('a', m), SetLaunchConfiguration(m, 'v'), SetEnvironmentVariable('E', m),
                 SetEnvironmentVariable(m, 'v'), AppendEnvironmentVariable('E', m),
                 UnsetLaunchConfiguration(m)][a].visit, c)
    check(r[0] == 'raise', 'an error')
    check(c.launch_configurations == {'a': 'x'} and len(os.environ) == 1 and os.environ['E'] == 'e', 'nothing changes')


def d_empty_values():
    """Empty values are values: set, unset, pushed, reset and kept like any other."""
    c = make_context()
    environ({})
    SetLaunchConfiguration('a', '').visit(c)
    SetEnvironmentVariable('E', '').visit(c)
    check(c.launch_configurations == {'a': ''} and os.environ['E'] == '', 'set')
    UnsetLaunchConfiguration('a').visit(c)
    UnsetEnvironmentVariable('E').visit(c)
    check(c.launch_configurations == {} and len(os.environ) == 0, 'unset')
    ResetLaunchConfigurations({'a': '', '': 'b'}).visit(c)
    check(c.launch_configurations == {'a': '', '': 'b'}, 'given to a reset, with nothing there before')
    PushLaunchConfigurations().visit(c)
    UnsetLaunchConfiguration('').visit(c)
    ResetLaunchConfigurations({'a': 'x'}).visit(c)
    PopLaunchConfigurations().visit(c)
    check(c.launch_configurations == {'a': '', '': 'b'}, 'restored')


def d_unset_late():
    """What to unset is evaluated when visited."""
    c = make_context()
    environ({'X1': 'x', 'X2': 'y'})
    c.launch_configurations.update({'X1': 'x', 'X2': 'y', 'n': '1'})
    e, l = UnsetEnvironmentVariable(['X', LaunchConfiguration('n')]), UnsetLaunchConfiguration(['X', LaunchConfiguration('n')])
    c.launch_configurations['n'] = '2'
    e.visit(c)
    l.visit(c)
    check(sorted(os.environ) == ['X1'] and sorted(c.launch_configurations) == ['X1', 'n'], 'that one')
