"""What is run: the command, environment, working directory and name of a process."""
from launch.substitutions import EnvironmentVariable
from launch.substitutions import LaunchConfiguration
from launch.substitutions import TextSubstitution

from drv.proc import *


class Host:
    pass


def perform(c, subs):
    return ''.join([s.perform(c) for s in subs])


def prepared(c, **kwargs):
    """Prepare a description, as an action does."""
    d = Executable(**kwargs)
    d.prepare(c, Host())
    return d


def d_command():
    """The command is the words given, in order, each with its substitutions performed, then the arguments."""
    c, loop = process_model()
    x = unknown('x', str)
    c.launch_configurations['x'] = x
    extra = pick(None, ['-v', LaunchConfiguration('x')])
    d = prepared(c, cmd=['/bin/prog', [TextSubstitution(text='a '), LaunchConfiguration('x')], 'b c'],
                 arguments=extra)
    got = d.final_cmd
    check(len(got) == (3 if extra is None else 5), 'one word per item')
    check(got[0] == '/bin/prog' and got[1] == 'a ' + x and got[2] == 'b c', 'not split, not merged')
    check(extra is None or (got[3] == '-v' and got[4] == x), 'then the arguments')


def d_no_side_effects():
    """Preparing does not change the description, the environment or the configurations."""
    c, loop = process_model()
    d = prepared(c, cmd=['prog', 'x'], additional_env={'A': 'b'}, arguments=['y'])
    first = d.final_cmd
    check(c.environment == {'HOME': '/home'}, 'environment')
    d.prepare(c, Host())
    check(d.final_cmd == ['prog', 'x', 'y'] and first == ['prog', 'x', 'y'], 'prepared again alike')
    d.final_env['Z'] = 'z'
    check(c.environment == {'HOME': '/home'}, 'the environment of the process is its own')


def d_environment():
    """The environment is the one given or a copy of the present one, plus the additional variables."""
    c, loop = process_model()
    c.launch_configurations['k'] = 'K'
    c.launch_configurations['v'] = 'V'
    env = pick(None, {}, {'ONLY': 'this', LaunchConfiguration('k'): 'one'})
    more = pick(None, {'ADDED': LaunchConfiguration('v'), 'HOME': '/new'})
    d = prepared(c, cmd=['prog'], env=env, additional_env=more)
    if env is None:
        want = {'HOME': '/home'}
    elif len(env) == 0:
        want = {}
    else:
        want = {'ONLY': 'this', 'K': 'one'}
    if more is not None:
        want['ADDED'] = 'V'
        want['HOME'] = '/new'
    check(d.final_env == want, 'the variables')


def d_directory():
    """The working directory is the one given, or none."""
    c, loop = process_model()
    c.launch_configurations['d'] = 'sub'
    w = pick(None, '/work', 'list')
    d = prepared(c, cmd=['prog'], cwd=['/work/', LaunchConfiguration('d')] if w == 'list' else w)
    check(d.final_cwd == ('/work/sub' if w == 'list' else w), 'the directory')


def d_name():
    """The name is the one given or that of the program, made unique."""
    c, loop = process_model()
    c.launch_configurations['n'] = 'given'
    n = pick(None, 'plain', 'sub')
    names = []
    for i in (1, 2):
        d = prepared(c, cmd=['/usr/bin/prog', '/x/y'],
                     name=LaunchConfiguration('n') if n == 'sub' else n)
        names.append(d.final_name)
    base = {None: 'prog', 'plain': 'plain', 'sub': 'given'}[n]
    check(names[0] != names[1], 'two processes of the same program differ')
    for x in names:
        check(x.startswith(base + '-'), 'by what follows the name')


def d_prefix():
    """A prefix precedes the command: the one given always, the configured one where its filter matches."""
    c, loop = process_model()
    given = pick(None, 'mine -q', '')
    conf = pick(None, 'gdb --args', "wrap 'a b'")
    filt = pick(None, 'prog', 'pr', 'other', '.*og$', '')
    if conf is not None:
        c.launch_configurations['launch-prefix'] = conf
    if filt is not None:
        c.launch_configurations['launch-prefix-filter'] = filt
    d = prepared(c, cmd=['/opt/other/prog', 'x'], prefix=given)
    if given is not None:
        want = ['mine', '-q'] if given else []
    elif conf is None or filt == 'other':
        want = []
    else:
        want = {'gdb --args': ['gdb', '--args'], "wrap 'a b'": ['wrap', 'a b']}[conf]
    check(d.final_cmd == want + ['/opt/other/prog', 'x'], 'the words of the prefix come first')


def d_name_prefix():
    """With a prefix the process is named after what is actually run, unless a name is given."""
    c, loop = process_model()
    n = pick(None, 'me')
    d = prepared(c, cmd=['/bin/prog'], prefix='/usr/bin/gdb --args', name=n)
    check(d.final_name.startswith('gdb-' if n is None else 'me-'), 'the name')


def d_late():
    """Substitutions are performed when the process is prepared, not before."""
    c, loop = process_model()
    d = Executable(cmd=['prog', LaunchConfiguration('x')], env={'E': LaunchConfiguration('x')},
                   cwd=LaunchConfiguration('x'), name=LaunchConfiguration('x'))
    check(d.final_cmd is None and d.final_env is None, 'nothing is known before')
    c.launch_configurations['x'] = 'now'
    d.prepare(c, Host())
    check(d.final_cmd == ['prog', 'now'] and d.final_env == {'E': 'now'}, 'command and environment')
    check(d.final_cwd == 'now' and d.final_name.startswith('now-'), 'directory and name')


def d_environment_scope():
    """The process sees the environment of the launch at its place, with the changes made before."""
    c, loop = process_model()
    c.environment['SET'] = 'before'
    a = ExecuteProcess(cmd=['prog'])
    a.visit(c)
    c.environment['SET'] = 'after'
    OS.while_running = [lambda: OS.started[0].exits(0)]
    run(loop.tasks[0])
    check(OS.started[0].kwargs['env']['SET'] == 'before', 'as it was when the action was executed')


def d_missing():
    """A substitution that fails is an error of the action; nothing is run."""
    c, loop = process_model()
    bad = LaunchConfiguration('missing')
    where = pick('cmd', 'env', 'cwd', 'name', 'additional_env')
    kw = {'cmd': ['prog']}
    kw[where] = {'cmd': ['prog', bad], 'env': {'A': bad}, 'cwd': bad, 'name': bad,
                 'additional_env': {'A': bad}}[where]
    a = ExecuteProcess(**kw)
    r = outcome(a.visit, c)
    check(r[0] == 'raise', 'reported')
    check(len(loop.tasks) == 0 and len(c._event_handlers) == 0, 'nothing is scheduled')


def d_accessors():
    """ExecuteProcess gives access to what it was made from and to what was run."""
    c, loop = process_model()
    a = ExecuteProcess(cmd=['prog', 'x'], name='me', cwd='/w', env={'A': 'b'},
                       additional_env={'C': 'd'}, shell=True, sigterm_timeout='1', sigkill_timeout='2')
    check([s.perform(c) for s in a.name] == ['me'], 'name')
    check([s.perform(c) for s in a.cwd] == ['/w'], 'cwd')
    check([[s.perform(c) for s in w] for w in a.cmd] == [['prog'], ['x']], 'cmd')
    check(a.shell is True, 'shell')

    def pairs(env):
        return [(perform(c, k), perform(c, v)) for k, v in env]
    check(pairs(a.env) == [('A', 'b')] and pairs(a.additional_env) == [('C', 'd')], 'environment')
    a.visit(c)
    check(a.env == {'A': 'b', 'C': 'd'}, 'environment as run')
    check(a.name.startswith('me-') and a.cwd == '/w', 'afterwards as run')
    check(a.cmd == ['prog', 'x'], 'command as run')
    check(a.process_details['cmd'] == ['prog', 'x'], 'what is run')
    check(a.process_details['env'] == {'A': 'b', 'C': 'd'}, 'in which environment')
    check(a.process_details['cwd'] == '/w', 'and where')


def d_description():
    """A description gives access to what it was made from; what will be run is known once prepared."""
    c = make_context()
    d = Executable(cmd=['prog'], prefix='nice', name='me', cwd='/w', env={'A': 'b'},
                   additional_env={'C': 'd'}, arguments=['x', 'y'])
    check(d.final_cmd is None and d.final_name is None and d.final_cwd is None and d.final_env is None,
          'nothing before')
    check([perform(c, w) for w in d.cmd] == ['prog', 'x', 'y'], 'the command and its arguments')
    check(list(d.arguments) == ['x', 'y'] or [perform(c, w) for w in d.arguments] == ['x', 'y'], 'the arguments')
    check(perform(c, d.prefix) == 'nice' and perform(c, d.name) == 'me' and perform(c, d.cwd) == '/w', 'the rest')
    check([(perform(c, k), perform(c, v)) for k, v in d.env] == [('A', 'b')], 'the environment')
    d.prepare(c, Host())
    check(d.final_cmd == ['nice', 'prog', 'x', 'y'] and d.final_cwd == '/w', 'what is run')
    check(d.final_env == {'A': 'b', 'C': 'd'} and d.final_name.startswith('me-'), 'and how')
    e = Executable(cmd=['prog'])
    check(e.name is None and e.cwd is None and e.env is None and e.additional_env is None, 'nothing given')
    e.prepare(c, Host())
    check(e.final_cmd == ['prog'] and e.final_cwd is None and e.final_name.startswith('prog-'), 'defaults')


def d_prefix_filter_start():
    """The filter has to match from the start of the name of the program, not merely somewhere in it."""
    c, loop = process_model()
    c.launch_configurations['launch-prefix'] = 'gdb'
    filt = pick('rog', 'og', '.*og', 'p', 'prog', 'prog$', 'Prog', 'opt', '/opt', 'prog|other', '')
    c.launch_configurations['launch-prefix-filter'] = filt
    d = prepared(c, cmd=['/opt/prog', 'x'])
    want = ['gdb'] if filt in ['.*og', 'p', 'prog', 'prog$', 'prog|other', ''] else []
    check(d.final_cmd == want + ['/opt/prog', 'x'], 'the prefix')


def d_prefix_filter_whole():
    """The filter is for the whole name of the program, dots included, and for nothing before it."""
    c, loop = process_model()
    c.launch_configurations['launch-prefix'] = 'gdb'
    filt = pick('a.out', 'a[.]out$', 'a$', 'a', 'a[.]', 'out', 'dir', 'a.out-2')
    c.launch_configurations['launch-prefix-filter'] = filt
    d = prepared(c, cmd=['/dir.d/a.out', 'x'])
    want = ['gdb'] if filt in ['a.out', 'a[.]out$', 'a', 'a[.]'] else []
    check(d.final_cmd == want + ['/dir.d/a.out', 'x'], 'the prefix')


def d_many_names():
    """However many processes of however many programs there are, their names differ."""
    c, loop = process_model()
    names = []
    for i in range(3):
        for n in ('a', 'a-1', None):
            names.append(prepared(c, cmd=['/x/a'], name=n).final_name)
    check(len(set(names)) == len(names), 'all of them')


def d_environment_values():
    """The variables of the process are those given, value by value, also empty ones; a later one wins."""
    c, loop = process_model()
    v = unknown('value', str)
    environ({'HOME': v, 'E': ''})
    c = make_context()
    c.launch_configurations['n'] = 'HOME'
    own, more = pick(None, {}, {'X': ''}), pick(None, {}, {LaunchConfiguration('n'): ['a', LaunchConfiguration('n')]})
    d = prepared(c, cmd=['p'], env=own, additional_env=more)
    want = {'HOME': v, 'E': ''} if own is None else dict(own)
    if more:
        want['HOME'] = 'aHOME'
    check(d.final_env == want, 'the variables')
