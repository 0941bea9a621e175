"""A command line in a launch file is split into words as a shell would, around its substitutions."""
import shlex

from launch.actions import ExecuteProcess
from launch.actions import Shutdown

from drv.fe import *
from drv.proc import Out
from drv.proc import process_model

OPTIONS = {'*': {'budget': 6000000}}


def parsed(kind, node):
    p = frontend()
    return p.parse_action(entity(kind, node))


def d_words():
    """Each word of the command is an argument; substitutions are whole or part of a word."""
    c, loop = process_model()
    c.launch_configurations['x'] = 'X Y'
    c.launch_configurations['p'] = 'prog'
    cmd, want = pick(
        ('prog', ['prog']),
        ('prog a b c', ['prog', 'a', 'b', 'c']),
        ('  prog   a ', ['prog', 'a']),
        ('$(var p)', ['prog']),
        ('$(var p) a', ['prog', 'a']),
        (' $(var p) a', ['prog', 'a']),
        ('$(var p) ', ['prog']),
        ('prog $(var x)', ['prog', 'X Y']),
        ('prog a$(var x)b c', ['prog', 'aX Yb', 'c']),
        ('prog $(var x) $(var x)', ['prog', 'X Y', 'X Y']),
        ('prog $(var x)$(var p)', ['prog', 'X Yprog']),
        ('prog $(var x) b c d $(var p)', ['prog', 'X Y', 'b', 'c', 'd', 'prog']),
        ("prog 'a b' \"c d\"", ['prog', 'a b', 'c d']),
        ("prog '' x", ['prog', '', 'x']),
        ('/$(var p)/bin a b$(var p)', ['/prog/bin', 'a', 'bprog']),
        ('prog --a=$(var x) --b $(var p)-c', ['prog', '--a=X Y', '--b', 'prog-c']))
    a = parsed(pick('xml', 'yaml'), ('executable', {'cmd': cmd}))
    check(isinstance(a, ExecuteProcess), 'a process action')
    got = texts(c, a.cmd)
    check(got == want, 'the words')


PIECES = ('a', ' ', '\t', '\n', '$(var x)', "'b c'", '""')


def d_pieces():
    """However words, white space, quotes and substitutions follow each other, none is merged or lost."""
    c, loop = process_model()
    c.launch_configurations['x'] = 'X'
    n = 4 if deep() else 3
    cmd = 'p'
    for i in range(n):
        cmd = cmd + pick(*PIECES)
    want = shlex.split(cmd.replace('$(var x)', 'X'))
    a = parsed('yaml', ('executable', {'cmd': cmd}))
    check(texts(c, a.cmd) == want, 'the words')


def d_attributes():
    """Every attribute written reaches the action."""
    c, loop = process_model()
    c.launch_configurations['x'] = 'X'
    which = pick('cwd', 'name', 'launch-prefix', 'env', 'shell', 'sigterm_timeout',
                 'sigkill_timeout', 'emulate_tty', 'on_exit')
    value = {'cwd': '/w/$(var x)', 'name': 'n$(var x)', 'launch-prefix': 'gdb $(var x)',
             'env': [{'name': 'K$(var x)', 'value': 'v$(var x)'}, {'name': 'L', 'value': 'w'}],
             'shell': True, 'sigterm_timeout': 2.5, 'sigkill_timeout': 3.5, 'emulate_tty': True,
             'on_exit': 'shutdown'}[which]
    a = parsed(pick('xml', 'yaml'), ('executable', {'cmd': 'prog', which: value}))
    p = lambda subs: perform_substitutions(c, subs)
    d = a.process_description
    if which == 'cwd':
        check(p(a.cwd) == '/w/X', 'working directory')
    if which == 'name':
        check(p(a.name) == 'nX', 'name')
    if which == 'launch-prefix':
        check(p(d.prefix) == 'gdb X', 'prefix')
    if which == 'env':
        check([(p(k), p(v)) for k, v in a.additional_env] == [('KX', 'vX'), ('L', 'w')], 'environment')
        check(a.env is None, 'in addition to the present one')
    if which == 'shell':
        check(a.shell is True, 'shell')
    if which == 'sigterm_timeout':
        check(float(p(a.sigterm_timeout)) == 2.5, 'timeout until SIGTERM')
    if which == 'sigkill_timeout':
        check(float(p(a.sigkill_timeout)) == 3.5, 'timeout until SIGKILL')
    if which == 'emulate_tty':
        check(a.emulate_tty is True, 'terminal')
    if which == 'on_exit':
        check([kind(x) for x in a.get_sub_entities()] == ['Shutdown'], 'shutdown at exit')


def d_output():
    """The output written is the one of the process, `log` if there is none."""
    c, loop = process_model()
    c.launch_configurations['x'] = 'scr'
    value = pick(None, 'log', 'screen', 'both', '$(var x)een')
    attrs = {'cmd': 'prog'}
    if value is not None:
        attrs['output'] = value
    a = parsed(pick('xml', 'yaml'), ('executable', attrs))
    stub('launch.logging.get_output_loggers', wanted)
    a.visit(c)
    got = logs('output')[0][1]
    check(got == {None: 'log', '$(var x)een': 'screen'}.get(value, value), 'as written')


def wanted(name, config):
    log('output', config)
    return (Out('out'), Out('err'))


def d_zero():
    """No delay, and no time until the next signal, can be asked for."""
    c, loop = process_model()
    which = pick('respawn_delay', 'sigterm_timeout', 'sigkill_timeout')
    value = pick(0.0, 0.25)
    a = parsed(pick('xml', 'yaml'), ('executable', {'cmd': 'prog', 'respawn': 'true', which: value}))
    if which == 'respawn_delay':
        from drv.proc import OS
        a.visit(c)
        stub('asyncio.wait', waited)
        OS.while_running = [lambda: OS.started[0].exits(1)]
        run(loop.tasks[0])
        check([x[1] for x in logs('waited') if x[1] != 0.0] == ([] if value == 0.0 else [0.25]), 'the delay')
    else:
        got = a.sigterm_timeout if which == 'sigterm_timeout' else a.sigkill_timeout
        check(float(perform_substitutions(c, got)) == value, 'the time')


def d_respawn_attributes():
    """The respawn attributes written reach the action."""
    c, loop = process_model()
    a = parsed(pick('xml', 'yaml'), ('executable', {
        'cmd': 'prog', 'respawn': 'true', 'respawn_delay': 1.5, 'respawn_max_retries': 1}))
    from drv.proc import OS
    stub('asyncio.wait', waited)
    a.visit(c)
    OS.while_running = [lambda: OS.started[0].exits(1), lambda: OS.started[1].exits(1)]
    run(loop.tasks[0])
    check(len(loop.tasks) == 2, 'respawned')
    run(loop.tasks[1])
    check(len(loop.tasks) == 2, 'as often as allowed')
    check([x[1] for x in logs('waited')] == [1.5], 'after the delay')


async def waited(fs, timeout=None, **kwargs):
    log('waited', timeout)
    return (set(), set())


def d_refused():
    """Values that make no sense and unknown attributes are refused."""
    c, loop = process_model()
    k = pick('xml', 'yaml')
    extra = pick({'sigterm_timeout': -1.0}, {'sigkill_timeout': -1.0}, {'respawn_delay': -1.0},
                 {'on_exit': 'restart'}, {'shell': 'maybe'}, {'respawn_max_retries': 'x'},
                 {'nonsense': 'x'}, {'env': [{'name': 'A', 'value': 'b', 'other': 'c'}]},
                 {'env': [{'name': 'A'}]})
    attrs = {'cmd': 'prog'}
    attrs.update(extra)
    r = outcome(parsed, k, ('executable', attrs))
    check(r[0] == 'raise', 'refused')


def d_command_needed():
    """A command is needed."""
    c, loop = process_model()
    r = outcome(parsed, pick('xml', 'yaml'), ('executable', {'name': 'x'}))
    check(r[0] == 'raise' and isinstance(r[1], AttributeError), 'refused')


def d_special_characters():
    """Characters which mean something elsewhere are part of a word, as without a shell."""
    c, loop = process_model()
    word = pick('#', 'a#b', '#x', '$HOME', '*', '~', '|', '&&', ';', '>', '{y}', '%s', '=', '-', '--', '@', '(x)', '\u00e9')
    a = parsed(pick('xml', 'yaml'), ('executable', {'cmd': 'prog ' + word + ' last'}))
    check(texts(c, a.cmd) == ['prog', word, 'last'], 'the words')


def d_numbers_exact():
    """The times written are those used, however precise, and the number of retries too, zero included."""
    c, loop = process_model()
    k = pick('xml', 'yaml')
    value = pick(0.0, 0.001, 0.125, 1234.5678)
    which = pick('sigterm_timeout', 'sigkill_timeout')
    a = parsed(k, ('executable', {'cmd': 'prog', which: value}))
    got = a.sigterm_timeout if which == 'sigterm_timeout' else a.sigkill_timeout
    check(float(perform_substitutions(c, got)) == value, 'the time')


def d_retries():
    """As many retries as written, none with zero, any number with a negative one."""
    from drv.proc import OS
    c, loop = process_model()
    n = pick(0, 1, 2, -1, None)
    attrs = {'cmd': 'prog', 'respawn': pick('true', 'True')}
    if n is not None:
        attrs['respawn_max_retries'] = n
    a = parsed(pick('xml', 'yaml'), ('executable', attrs))
    a.visit(c)
    OS.while_running = [lambda: OS.started[-1].exits(1)] * 4
    i = 0
    while i < len(loop.tasks) and i < 4:
        run(loop.tasks[i])
        i = i + 1
    check(len(OS.started) == (4 if n in (None, -1) else n + 1), 'the starts')


def d_off():
    """What is written as off is off."""
    from drv.proc import OS
    c, loop = process_model()
    a = parsed(pick('xml', 'yaml'), ('executable', {
        'cmd': 'prog', 'shell': False, 'emulate_tty': False, 'respawn': 'false', 'respawn_max_retries': 3}))
    a.visit(c)
    OS.while_running = [lambda: OS.started[-1].exits(1)] * 2
    run(loop.tasks[0])
    check(OS.started[0].kwargs['shell'] is False and OS.started[0].kwargs['emulate_tty'] is False, 'shell, terminal')
    check(len(loop.tasks) == 1, 'respawn')


def d_refused_anywhere():
    """An unknown attribute is refused in every variable, and an exit action of another name as well."""
    c, loop = process_model()
    k = pick('xml', 'yaml')
    attrs = pick({'on_exit': 'Shutdown'}, {'on_exit': ''}, {'on_exit': 'shutdown '},
                 {'env': [{'name': 'A', 'value': 'b'}, {'name': 'B', 'value': 'b', 'x': 'c'}]},
                 {'env': [{'name': 'A', 'value': 'b'}, {'value': 'b'}]},
                 {'env': [{'name': 'A', 'value': 'b', 'x': 'y'}, {'name': 'C', 'value': 'b'}]})
    r = outcome(parsed, k, ('executable', {'cmd': 'prog', **attrs}))
    check(r[0] == 'raise', 'refused')
