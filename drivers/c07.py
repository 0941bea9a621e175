"""A group limits the changes its actions make to configurations and environment."""
import os

from launch.actions import GroupAction
from launch.actions import SetEnvironmentVariable
from launch.actions import SetLaunchConfiguration
from launch.actions import UnsetEnvironmentVariable
from launch.actions import UnsetLaunchConfiguration
from launch.substitutions import LaunchConfiguration
from launch.utilities import visit_all_entities_and_collect_futures

from drv.env import *


class Spy(Action):
    """Log the scope as seen by an action in the middle of the group."""

    def __init__(self, tag):
        super().__init__()
        self.tag = tag

    def execute(self, context):
        log('spy', self.tag, dict(context.launch_configurations), dict(os.environ))
        return None


def visit(context, entity):
    return visit_all_entities_and_collect_futures(entity, context)


def seen(tag):
    return [x for x in logs('spy') if x[1] == tag][0]


def setup():
    a, e = unknown('cfg', str), unknown('env', str)
    environ({'E': e})
    c = make_context()
    c.launch_configurations['A'] = a
    return c, a, e


def changes():
    return [
        SetLaunchConfiguration('A', 'changed'), SetLaunchConfiguration('B', 'new'),
        SetEnvironmentVariable('E', 'changed'), SetEnvironmentVariable('F', 'new'),
        UnsetLaunchConfiguration('C'), UnsetEnvironmentVariable('G'), Spy('in')]


def d_scoped():
    """Scoped: nothing the group does to configurations or environment is visible afterwards."""
    c, a, e = setup()
    c.launch_configurations['C'] = 'c'
    os.environ['G'] = 'g'
    forwarding = pick(True, False)
    keep = pick(None, {'K': 'k', 'A': 'kept'})
    g = GroupAction(changes(), scoped=True, forwarding=forwarding, launch_configurations=keep)
    visit(c, g)
    i = seen('in')
    check(i[2]['A'] == 'changed' and i[2]['B'] == 'new', 'configurations are set inside')
    check(i[3]['E'] == 'changed' and i[3]['F'] == 'new', 'variables are set inside')
    check('C' not in i[2] and 'G' not in i[3], 'configurations and variables are unset inside')
    check(sorted(c.launch_configurations) == ['A', 'C'], 'the configurations are those of before')
    check(c.launch_configurations['A'] is a and c.launch_configurations['C'] == 'c',
          'with the values of before')
    check(sorted(os.environ) == ['E', 'G'], 'the variables are those of before')
    check(os.environ['E'] is e and os.environ['G'] == 'g', 'with the values of before')


def d_unscoped():
    """Not scoped: the changes persist, including the configurations given to the group."""
    c, a, e = setup()
    g = GroupAction(changes(), scoped=False, forwarding=pick(True, False),
                    launch_configurations={'K': 'k'})
    visit(c, g)
    check(seen('in')[2]['K'] == 'k', 'the given configuration is set for the actions')
    check(c.launch_configurations == {'A': 'changed', 'B': 'new', 'K': 'k'}, 'configurations persist')
    check(os.environ['E'] == 'changed' and os.environ['F'] == 'new', 'variables persist')


def d_forwarding():
    """Scoped and forwarding: everything existing plus the given configurations is visible."""
    c, a, e = setup()
    os.environ['LATER'] = 'set after the creation of the context'
    g = GroupAction([Spy('in')], launch_configurations={'K': 'k', 'L': LaunchConfiguration('A')})
    visit(c, g)
    i = seen('in')
    check(sorted(i[2]) == ['A', 'K', 'L'], 'existing and given configurations')
    check(i[2]['A'] is a and i[2]['L'] == a and i[2]['K'] == 'k', 'with their values')
    check(i[3]['E'] is e and 'LATER' in i[3], 'the environment is that of the outside')


def d_not_forwarding():
    """Not forwarding: only the given configurations, evaluated outside; the initial environment."""
    c, a, e = setup()
    os.environ['LATER'] = 'set after the creation of the context'
    g = GroupAction([Spy('in')], forwarding=False,
                    launch_configurations={'K': 'k', 'L': LaunchConfiguration('A')})
    visit(c, g)
    i = seen('in')
    check(sorted(i[2]) == ['K', 'L'], 'only the given configurations')
    check(i[2]['L'] == a, 'evaluated in the scope outside')
    check(sorted(i[3]) == ['E'] and i[3]['E'] is e, 'the environment is the initial one')
    check('LATER' in os.environ, 'the environment outside is unchanged afterwards')


def d_not_forwarding_none():
    """Not forwarding and nothing given: the group starts with no configuration."""
    c, a, e = setup()
    visit(c, GroupAction([Spy('in')], forwarding=False))
    check(len(seen('in')[2]) == 0, 'no configuration inside')
    check(c.launch_configurations['A'] is a, 'restored outside')


def d_nested():
    """Groups nest: the inner group restores the scope of the outer one."""
    c, a, e = setup()
    inner = GroupAction([SetLaunchConfiguration('A', 'inner'), SetEnvironmentVariable('E', 'inner'),
                         Spy('inner')], forwarding=pick(True, False))
    outer = GroupAction([SetLaunchConfiguration('A', 'outer'), SetEnvironmentVariable('E', 'outer'),
                         inner, Spy('outer')])
    visit(c, outer)
    check(seen('inner')[2]['A'] == 'inner' and seen('inner')[3]['E'] == 'inner', 'inner scope')
    check(seen('outer')[2]['A'] == 'outer' and seen('outer')[3]['E'] == 'outer',
          'the outer scope is restored after the inner group')
    check(c.launch_configurations['A'] is a and os.environ['E'] is e, 'restored after both')


def d_order():
    """The actions of the group are executed once each, in order, for any number of visits."""
    c, a, e = setup()
    scoped = pick(True, False)
    g = GroupAction(iter([Probe('1'), Probe('2'), Probe('3')]), scoped=scoped,
                    forwarding=pick(True, False))
    visit(c, g)
    check([x[1] for x in logs('execute')] == ['1', '2', '3'], 'once each, in order')
    g.get_sub_entities()
    visit(c, g)
    check([x[1] for x in logs('execute')] == ['1', '2', '3', '1', '2', '3'],
          'again on a second visit, though the actions were given as an iterator')


def d_condition():
    """A group whose condition is false changes nothing and executes nothing."""
    c, a, e = setup()
    answer = unknown('answer', bool)
    g = GroupAction([Probe('1'), SetLaunchConfiguration('A', 'x')], scoped=False,
                    condition=Flag(answer), launch_configurations={'K': 'k'})
    visit(c, g)
    if answer:
        check(len(logs('execute')) == 1 and 'K' in c.launch_configurations, 'true: executed')
    else:
        check(len(logs('execute')) == 0, 'false: not executed')
        check(c.launch_configurations == {'A': a}, 'false: nothing is set')


def d_futures():
    """The futures of the actions in a group are collected for the run to await."""
    c, a, e = setup()
    f = pin(new_future())
    r = visit(c, GroupAction([Probe('1', future=f)]))
    check(len(r) == 1 and r[0][1] is f, 'collected')


def d_given_replaces():
    """A configuration given to a group replaces one of the same name for its actions, and only for them."""
    c, a, e = setup()
    v = unknown('value', str)
    c.launch_configurations['n'] = 'A'
    scoped, forwarding = pick(True, False), pick(True, False)
    g = GroupAction([Spy('in'), SetLaunchConfiguration('A', 'later'), Spy('then')], scoped=scoped,
                    forwarding=forwarding, launch_configurations={LaunchConfiguration('n'): [v]})
    visit(c, g)
    check(seen('in')[2]['A'] == v, 'replaced')
    check(seen('then')[2]['A'] == 'later', 'until the next change')
    if scoped:
        check(c.launch_configurations['A'] is a, 'restored')
    else:
        check(c.launch_configurations['A'] == 'later', 'kept')


def d_empty_group():
    """A group without actions changes nothing when it is scoped, and sets what it is given otherwise."""
    c, a, e = setup()
    os.environ['LATER'] = 'x'
    scoped = pick(True, False)
    visit(c, GroupAction([], scoped=scoped, forwarding=pick(True, False),
                         launch_configurations=pick({'K': 'k'}, {'K': 'k', 'A': 'new'})))
    check(('K' in c.launch_configurations) is not scoped, 'the given configuration')
    check(not scoped or c.launch_configurations['A'] is a, 'the existing one')
    check(os.environ['E'] is e and os.environ['LATER'] == 'x', 'the environment is untouched')


def d_many_changes():
    """However often the scope is left, the outside is that of its entry, not that of an earlier one."""
    c, a, e = setup()
    b, f = unknown('b', str), unknown('f', str)
    g = GroupAction(changes(), forwarding=pick(True, False))
    visit(c, g)
    check(c.launch_configurations['A'] is a and os.environ['E'] is e, 'after the first visit')
    c.launch_configurations['A'] = b
    c.launch_configurations['B'] = 'outside'
    os.environ['E'] = f
    os.environ['F'] = 'outside'
    visit(c, g)
    check(c.launch_configurations == {'A': b, 'B': 'outside'}, 'configurations after the second visit')
    check(len(os.environ) == 2 and os.environ['E'] is f and os.environ['F'] == 'outside', 'environment')


def d_group_of_file():
    """A group of a launch file is scoped and forwards unless it says otherwise, and keeps what it says."""
    from drv.fe import entity, frontend
    c, a, e = setup()
    fe = pick('xml', 'yaml')
    scoped, forwarding = pick(None, True, False), pick(None, True, False)
    keep = pick(True, False)
    attrs = {}
    if scoped is not None:
        attrs['scoped'] = scoped
    if forwarding is not None:
        attrs['forwarding'] = forwarding
    if fe == 'xml':
        attrs = {k: str(v).lower() for k, v in attrs.items()}
    if keep:
        attrs['keep'] = [{'name': 'K$(var A)', 'value': 'k$(var A)'}]
    c.launch_configurations['A'] = 'a'
    kids = [('let', {'name': 'B', 'value': 'b'}), ('set_env', {'name': 'E', 'value': 'new'})]
    g = frontend().parse_action(entity(fe, ('group', attrs, kids)))
    check(isinstance(g, GroupAction), 'a group')
    subs = list(g.get_sub_entities())
    visit(c, GroupAction([*subs[:-2], Spy('in'), *subs[-2:]], scoped=False) if scoped is not False
          else GroupAction([*subs, Spy('in')], scoped=False))
    i = seen('in')
    names = ['B'] + (['Ka'] if keep else []) + (['A'] if scoped is False or forwarding is not False else [])
    check(sorted(i[2]) == sorted(names), 'the configurations inside')
    check(not keep or i[2]['Ka'] == 'ka', 'the one kept')
    check(i[3]['E'] == 'new', 'the environment inside')
    if scoped is False:
        check(c.launch_configurations['B'] == 'b' and os.environ['E'] == 'new', 'not scoped: persists')
    else:
        check(c.launch_configurations == {'A': 'a'} and os.environ['E'] is e, 'scoped: restored')
