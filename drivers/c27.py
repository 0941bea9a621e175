"""Logging of launch."""
import logging
import os

import launch.logging
import launch.logging.handlers
from launch.logging import get_logger
from launch.logging import get_output_loggers
from launch.logging import launch_config
from launch.logging import LaunchConfig

from drv.env import *

OPTIONS = {'*': {'real_loggers': True}}


class Formatter:
    def __init__(self, fmt=None, datefmt=None, style='%'):
        self.fmt = fmt
        self.style = style


class Handler:
    """A logging handler of the host, with the formatting of launch."""

    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs
        self.formatter = None
        self.own = {}
        log('handler', self)

    def setFormatter(self, formatter):
        self.formatter = formatter

    def setFormatterFor(self, logger, formatter):
        self.own[logger.name] = formatter

    def setLevel(self, level):
        pass

    def close(self):
        pass


class FileHandler(Handler):
    def __init__(self, path, mode='a', encoding=None, delay=False):
        super().__init__(path)
        log('opened', path, encoding)


class StreamHandler(Handler):
    pass


class Logger:
    def __init__(self, name):
        self.name = name
        self.handlers = []
        self.messages = []
        self.level = 0

    def addHandler(self, handler):
        self.handlers.append(handler)

    def removeHandler(self, handler):
        self.handlers.remove(handler)

    def hasHandlers(self):
        return bool(self.handlers)

    def setLevel(self, level):
        self.level = level

    def getEffectiveLevel(self):
        return self.level

    def info(self, msg, *args):
        log('info', msg)

    def warning(self, msg, *args):
        log('warning', msg)


class Disk:
    """The file system."""

    def __init__(self):
        self.dirs = set()
        self.links = {}
        self.files = set()
        self.fails = None

    def lexists(self, p):
        return p in self.dirs or p in self.links or p in self.files

    def unlink(self, p):
        check(p in self.links, 'only links are removed')
        if self.fails == 'unlink':
            raise PermissionError(p)
        del self.links[p]

    def symlink(self, target, p, target_is_directory=False):
        if self.fails == 'symlink' or self.lexists(p):
            raise FileExistsError(p)
        self.links[p] = target

    def isdir(self, p):
        return p in self.dirs or p in self.links and self.links[p] in self.dirs

    def makedirs(self, p, mode=511, exist_ok=False):
        if p in self.dirs and not exist_ok:
            raise FileExistsError(p)
        log('mkdir', p)
        self.dirs.add(p)


DISK = Disk()
LOGGERS = {}
ROOT = Logger('root')


def named(name=None):
    if name is None:
        return ROOT
    if name not in LOGGERS:
        LOGGERS[name] = Logger(name)
    return LOGGERS[name]


TIMES = ['t1', 't1', 't2', 't3', 't4', 't5']


class Now:
    def strftime(self, fmt):
        return TIMES.pop(0)


def host(**env):
    env.setdefault('ROS_LOG_DIR', '/logs')
    environ(**{k: v for k, v in env.items() if v is not None})
    stub('logging.getLogger', named)
    logging.root = ROOT
    stub('logging.Formatter', Formatter)
    stub('logging.setLoggerClass', lambda cls: log('logger class', cls))
    launch.logging.handlers.StreamHandler = StreamHandler
    launch.logging.handlers.WatchedFileHandler = FileHandler
    launch.logging.handlers.FileHandler = FileHandler
    stub('codecs.StreamWriter', lambda *a, **k: thing('stream'))
    stub('datetime.datetime.now', Now)
    stub('socket.gethostname', 'host')
    stub('logging.getLevelName', lambda n: 'level %d' % n)
    stub('os.getpid', 42)
    stub('os.path.isdir', DISK.isdir)
    stub('os.path.islink', lambda p: p in DISK.links)
    stub('os.path.lexists', DISK.lexists)
    stub('os.path.exists', lambda p: p in DISK.dirs or p in DISK.files or p in DISK.links and DISK.links[p] in DISK.dirs)
    stub('os.unlink', DISK.unlink)
    stub('os.remove', DISK.unlink)
    stub('os.symlink', DISK.symlink)
    stub('os.makedirs', DISK.makedirs)
    stub('os.path.expanduser', lambda p: '/home/me' + p[1:] if p.startswith('~') else p)
    stub('os.path.expandvars', lambda p: p.replace('$HOME', '/home/me'))
    stub('warnings.warn', lambda *a, **k: log('warned', *a))
    launch.logging.reset()


def files(logger):
    """Base names of the files a logger writes to."""
    return sorted([os.path.basename(h.args[0]) for h in logger.handlers if isinstance(h, FileHandler)])


def screen(logger):
    return len([h for h in logger.handlers if isinstance(h, StreamHandler)])


ALIASES = {
    'screen': {'both': ['screen']},
    'log': {'both': ['log'], 'stderr': ['screen']},
    'both': {'both': ['log', 'screen']},
    'own_log': {'both': ['own_log'], 'stdout': ['own_log'], 'stderr': ['own_log']},
    'full': {'both': ['screen', 'log', 'own_log'], 'stdout': ['own_log'], 'stderr': ['own_log']},
}


def expected(config, name, source):
    """Whether the output goes to the screen, and the files it goes to."""
    if isinstance(config, str):
        config = ALIASES[config]
    both, one = config.get('both', []), config.get(source, [])
    if isinstance(both, str):
        both = [both]
    if isinstance(one, str):
        one = [one]
    to = []
    if 'log' in both or 'log' in one:
        to.append('launch.log')
    if 'own_log' in one:
        to.append(name + '-' + source + '.log')
    if 'own_log' in both:
        to.append(name + '.log')
    return 'screen' in both or 'screen' in one, sorted(to)


def some_config():
    which = pick('alias', 'both', 'separate', 'mixed')
    if which == 'alias':
        return pick('screen', 'log', 'both', 'own_log', 'full')
    if which == 'both':
        return {'both': pick('screen', 'log', 'own_log', {'screen', 'log'}, ['own_log', 'log'], set())}
    if which == 'separate':
        return {'stdout': pick('screen', 'log', 'own_log'), 'stderr': pick('screen', {'log', 'own_log'}, [])}
    return {'both': pick('screen', 'own_log'), 'stderr': pick('log', 'own_log')}


def d_destinations():
    """The output of a process goes exactly where its configuration says, for every stream."""
    host()
    config = some_config()
    out, err = get_output_loggers('p', config)
    check(out is not err, 'one for each stream')
    for logger, source in ((out, 'stdout'), (err, 'stderr')):
        to_screen, to = expected(config, 'p', source)
        check(logger.name == 'p-' + source, 'its name')
        check(screen(logger) == (1 if to_screen else 0), 'the screen')
        check(files(logger) == to, 'the files')


def d_again():
    """Asking again, or for others, adds nothing twice and shares the files."""
    host()
    config = some_config()
    first = get_output_loggers('p', config)
    n = len(first[0].handlers), len(first[1].handlers)
    between = pick('none', 'logger', 'other')
    if between == 'logger':
        get_logger(pick('l', None))
    elif between == 'other':
        get_output_loggers('q', config)
    second = get_output_loggers('p', config)
    check(first[0] is second[0] and first[1] is second[1], 'the same loggers')
    check(len(second[0].handlers) == n[0] and len(second[1].handlers) == n[1], 'nothing twice')
    paths = [x[1] for x in logs('opened')]
    check(len(paths) == len(set(paths)), 'every file is opened once')
    if between == 'other':
        for source in ('stdout', 'stderr'):
            check(files(named('q-' + source)) == expected(config, 'q', source)[1], 'the files of the other')
            check(files(named('p-' + source)) == expected(config, 'p', source)[1], 'its own files')


def d_bad():
    """What is no configuration of the output is a ValueError, before anything is set up."""
    host()
    config = pick('nope', '', 'SCREEN', None, 1, ['screen'], {'stdin': 'screen'}, {'stdout': 'both'}, {'both': ['screen', 'nope']},
                  {'stdout': 'screen', 'nope': 'log'}, {'stdout': 'screen', 'stderr': 'full'},
                  {'screen': 'log'}, {'both': 'both'}, {'both': 'stdout'})
    r = outcome(get_output_loggers, 'p', config)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'a ValueError')
    check(logs('opened') == [], 'nothing is opened')
    check(named('p-stdout').handlers == [] and named('p-stderr').handlers == [], 'nothing is set up')


def d_formats_of_process():
    """On screen the lines of a process are as they are; in the log of launch they have a time."""
    host()
    out, err = get_output_loggers('p', 'full')
    for logger in (out, err):
        for h in logger.handlers:
            if isinstance(h, StreamHandler):
                check(h.own[logger.name].fmt == '{msg}', 'as it is')
                check(h.own[logger.name].style == '{', 'as it is')
            elif os.path.basename(h.args[0]) == 'launch.log':
                check(h.own[logger.name].fmt == '{created:.7f} {msg}', 'with time')
            else:
                check(h.own == {} and h.formatter.fmt in (None, '{msg}'), 'as it is')
    check('l' not in launch_config.get_screen_handler().own, 'others as configured')


def d_logger():
    """A logger of launch writes to the screen and the log of launch, once, with the format of the moment."""
    host()
    name = pick('l', None)
    a = get_logger(name)
    b = get_logger(name)
    check(a is b is named(name), 'that logger')
    check(screen(a) == 1 and files(a) == ['launch.log'], 'both')
    check(len(a.handlers) == 2, 'once')
    c = get_logger('other')
    check(len(c.handlers) == 2 and all([h in a.handlers for h in c.handlers]), 'shared')


def d_logger_with_more():
    """A logger that has other handlers already, or some of them, gets those it lacks."""
    host()
    l = named('l')
    mine = Handler()
    has_ = pick('mine', 'screen', 'file', 'both', 'output')
    if has_ == 'mine':
        l.addHandler(mine)
    if has_ in ('screen', 'both'):
        l.addHandler(launch_config.get_screen_handler())
    if has_ in ('file', 'both'):
        l.addHandler(launch_config.get_log_file_handler())
    if has_ == 'output':
        l = get_output_loggers('p', pick('own_log', 'screen', 'log'))[1]
    n = [h for h in l.handlers]
    get_logger(l.name)
    check(l.handlers[:len(n)] == n, 'what it has remains')
    check(screen(l) == 1 and files(l).count('launch.log') == 1, 'both, once')


def d_process_names():
    """The files of a process are called after it, whatever its name is."""
    host()
    name = pick('a-1', 'a.b', 'a-b-2', 'my proc', 'x.log')
    out, err = get_output_loggers(name, 'own_log')
    other = get_output_loggers('a', 'own_log')
    check(files(out) == sorted([name + '.log', name + '-stdout.log']), 'its files')
    check(files(err) == sorted([name + '.log', name + '-stderr.log']), 'its files')
    check(files(other[0]) == ['a-stdout.log', 'a.log'], 'not those of another')
    check(out.name == name + '-stdout' and err.name == name + '-stderr', 'its name')


def d_own_level():
    """A logger with a level of its own keeps it when the level of all is set."""
    host()
    cls = logs('logger class')[-1][1]
    l = cls('l')
    l.name = 'l'
    l.setLevel = lambda level: log('level', level)
    n = len(logs('level'))
    launch_config.level = pick(logging.DEBUG, logging.ERROR)
    check(len(logs('level')) == n, 'its own one')


def d_log_dir():
    """The directory of the logs is made once, for itself, and is the same ever after."""
    host()
    taken = pick(True, False)
    if taken:
        DISK.dirs.add('/logs/t1-host-42')
    a = launch_config.log_dir
    check(a == ('/logs/t2-host-42' if taken else '/logs/t1-host-42'), 'a new one')
    check([x[1] for x in logs('mkdir')] == [a], 'made')
    check(launch_config.log_dir == a, 'the same')
    check(launch_config.get_log_file_path('x.log') == a + '/x.log', 'the files are in it')
    check(launch_config.get_log_file_path() == a + '/launch.log', 'the files are in it')
    get_logger('l')
    check([x[1] for x in logs('opened')] == [a + '/launch.log'], 'the files are in it')
    check(len(logs('mkdir')) == 1, 'made once')


def d_base():
    """The directory is below ROS_LOG_DIR, else ROS_HOME/log, else ~/.ros/log; empty counts as not given."""
    log_dir, home = pick('/l', '~/l', '/l//x/', '~/../l', '/$HOME/l', '', None), pick('/h', '~', '~/..', '', None)
    host(ROS_LOG_DIR=log_dir, ROS_HOME=home)
    got = launch_config.log_dir
    if log_dir:
        base = {'/l': '/l', '~/l': '/home/me/l', '/l//x/': '/l/x', '~/../l': '/home/l', '/$HOME/l': '/$HOME/l'}[log_dir]
    else:
        base = {'/h': '/h/log', '~': '/home/me/log', '~/..': '/home/log', '': '/home/me/.ros/log', None: '/home/me/.ros/log'}[home]
    check(got == base + '/t1-host-42', 'there')


def d_latest():
    """The link to the latest logs is renewed; what is no link is left alone; a failure is only a warning."""
    before = pick('nothing', 'link', 'dangling', 'directory', 'file')
    host()
    latest = '/logs/latest'
    if before == 'link':
        DISK.dirs.add('/old')
        DISK.links[latest] = '/old'
    elif before == 'dangling':
        DISK.links[latest] = '/gone'
    elif before == 'directory':
        DISK.dirs.add(latest)
    elif before == 'file':
        DISK.files.add(latest)
    DISK.fails = pick(None, 'unlink', 'symlink')
    r = outcome(lambda: launch_config.log_dir)
    check(r == ('ok', '/logs/t1-host-42'), 'there are logs')
    if before in ('directory', 'file'):
        check(DISK.links == {}, 'left alone')
        check((latest in DISK.dirs) == (before == 'directory') and (latest in DISK.files) == (before == 'file'), 'left alone')
        check(len(logs('warned')) == 1, 'a warning')
    elif DISK.fails is None or DISK.fails == 'unlink' and before == 'nothing':
        check(DISK.links == {latest: '/logs/t1-host-42'}, 'renewed')
        check(logs('warned') == [], 'no warning')
    else:
        check(len(logs('warned')) == 1, 'a warning')
    check(launch_config.log_dir == r[1], 'the same')
    check(len(logs('mkdir')) == 1, 'made once')


def d_set_log_dir():
    """A given directory is used as it is; it must exist; nothing is made."""
    host()
    DISK.dirs.add('/mine')
    used = pick(True, False)
    if used:
        get_logger('l')
    n = len(logs('mkdir'))
    r = outcome(lambda: setattr(launch_config, 'log_dir', '/nope'))
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'a ValueError')
    DISK.files.add('/file')
    r = outcome(lambda: setattr(launch_config, 'log_dir', '/file'))
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'a file is no directory')
    launch_config.log_dir = '/mine'
    check(bool(logs('warned')) == used, 'a warning if there are logs elsewhere')
    check(launch_config.log_dir == '/mine', 'it')
    check(launch_config.get_log_file_path() == '/mine/launch.log', 'the files are in it')
    check(len(logs('mkdir')) == n and '/mine' not in [x[1] for x in logs('mkdir')], 'nothing is made')
    launch_config.log_dir = None
    check(launch_config.log_dir not in ('/mine', None), 'a new one')


def d_screen_format():
    """The format of the screen is the one asked for, also for what is already there; the environment wins."""
    env = pick(None, '', '{name}\\n')
    host(OVERRIDE_LAUNCH_SCREEN_FORMAT=env)
    there = pick(True, False)
    if there:
        h = launch_config.get_screen_handler()
        check(h.formatter.fmt == (env.encode('latin1').decode('unicode_escape') if env else '[{levelname}] [{name}]: {msg}'), 'the default')
    f, style = pick(('default', None), ('default_with_timestamp', None), ('%(name)s', '%'), ('{name}', None))
    launch_config.set_screen_format(f, screen_style=style)
    h = launch_config.get_screen_handler()
    check(h is launch_config.get_screen_handler(), 'the only one')
    if env:
        check(h.formatter.fmt == env.encode('latin1').decode('unicode_escape') and h.formatter.style == '{', 'that of the environment')
    else:
        check(h.formatter.fmt == {'default': '[{levelname}] [{name}]: {msg}',
                                  'default_with_timestamp': '{created:.7f} [{levelname}] [{name}]: {msg}'}.get(f, f), 'it')
        check(h.formatter.style == (style or '{'), 'its style')


def d_log_format():
    """The format of the log is the one asked for, also for what is already there; the environment wins."""
    env = pick(None, '', '{name}')
    host(OVERRIDE_LAUNCH_LOG_FORMAT=env + '\\t' if env else env)
    env = env + '\t' if env else env
    if pick(True, False):
        h = launch_config.get_log_file_handler()
        check(h.formatter.fmt == (env or '{created:.7f} [{levelname}] [{name}]: {msg}'), 'the default')
    others = [launch_config.get_log_file_handler(n) for n in ('one.log', 'two.log')]
    f, style = pick(('default', None), ('%(name)s', '%'), ('{name}', None))
    launch_config.set_log_format(f, log_style=style)
    h = launch_config.get_log_file_handler()
    check([x.formatter for x in others] == [h.formatter] * 2, 'the same for all files')
    check(h is launch_config.get_log_file_handler(), 'the only one')
    if env:
        check(h.formatter.fmt == env and h.formatter.style == '{', 'that of the environment')
    else:
        check(h.formatter.fmt == {'default': '{created:.7f} [{levelname}] [{name}]: {msg}'}.get(f, f), 'it')
        check(h.formatter.style == (style or '{'), 'its style')


def d_format_style():
    """The named formats have no other style."""
    host()
    r = pick(lambda: outcome(launch_config.set_screen_format, 'default', screen_style='%'),
             lambda: outcome(launch_config.set_screen_format, 'default_with_timestamp', screen_style='{'),
             lambda: outcome(launch_config.set_log_format, 'default', log_style='%'))()
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'a ValueError')


def d_factory():
    """The handlers of the log files are made by the given factory, once for each file."""
    host()

    def factory(path, encoding=None):
        log('made', path, encoding)
        return FileHandler(path)
    if pick(True, False):
        launch_config.log_handler_factory = factory
        check(launch_config.log_handler_factory is factory, 'it')
        get_output_loggers('p', 'own_log')
        get_logger('l')
        get_logger('m')
        made = sorted([x[1].split('/')[-1] for x in logs('made')])
        check(made == ['launch.log', 'p-stderr.log', 'p-stdout.log', 'p.log'], 'once for each')
        check(all([x[2] == 'utf-8' for x in logs('made')]), 'UTF-8')
    else:
        get_logger('l')
        check(len(logs('opened')) == 1 and logs('opened')[0][2] == 'utf-8', 'UTF-8')


def d_level():
    """The level is that of all loggers."""
    host()
    check(launch_config.level == logging.INFO == ROOT.level, 'the default')
    launch_config.level = pick(logging.DEBUG, logging.ERROR)
    check(launch_config.level == ROOT.level, 'it')
    launch.logging.reset()
    check(ROOT.level == logging.INFO, 'the default again')


def d_reset():
    """After a reset nothing of the configuration or the handlers is left; new loggers do not propagate."""
    host()
    cls = logs('logger class')[-1][1]
    l = cls('l')
    check(l.propagate is False, 'not propagated')
    LOGGERS['l'] = l
    l.handlers = []
    l.addHandler = l.handlers.append
    l.name = 'l'
    l.setLevel = lambda level: log('level', level)
    get_logger('l')
    h = launch_config.get_screen_handler()
    f = launch_config.get_log_file_handler()
    before = launch_config.log_dir
    launch_config.set_screen_format('{x}')
    launch_config.set_log_format('{x}')
    launch.logging.reset()
    check(l.handlers == [], 'no handlers')
    check(logs('level')[-1][1] == logging.NOTSET, 'no level')
    check(launch_config.get_screen_handler() is not h, 'a new one')
    check(launch_config.get_screen_handler().formatter.fmt == '[{levelname}] [{name}]: {msg}', 'the default')
    check(launch_config.get_log_file_handler() is not f, 'a new one')
    check(launch_config.get_log_file_handler().formatter.fmt == '{created:.7f} [{levelname}] [{name}]: {msg}', 'the default')
    check(launch_config.log_dir != before, 'a new one')


def d_reset_all():
    """A reset is one of all loggers."""
    host()
    cls = logs('logger class')[-1][1]
    made = [cls('a'), cls('b'), cls('c')]
    for l, name in zip(made, 'abc'):
        LOGGERS[name] = l
        l.handlers = []
        l.addHandler = l.handlers.append
        l.name = name
        l.setLevel = lambda level: log('level', level)
        get_logger(name)
    n = len(logs('level'))
    launch.logging.reset()
    check([l.handlers for l in made] == [[], [], []], 'no handlers')
    check([x[1] for x in logs('level')[n:]].count(logging.NOTSET) >= 3, 'no levels')


def d_tell():
    """The logging configuration is told: the directory only if there are logs."""
    host()
    used = pick(True, False)
    if used:
        get_logger('l')
    elif pick(True, False):
        DISK.dirs.add('/logs/t1-host-42')
        launch_config.log_dir = '/logs/t1-host-42'
    n = len(logs('mkdir'))
    l = Logger('x')
    launch.logging.log_launch_config(logger=l)
    said = [x[1] for x in logs('info')]
    check(len([x for x in said if x.find('/logs/t1-host-42') >= 0]) == (1 if used else 0), 'the directory')
    check(len(said) == 1 + used, 'the level')
    check(len(logs('mkdir')) == n, 'nothing is made')


class Record:
    def __init__(self, name):
        self.name = name


class Wording(Formatter):
    def format(self, record):
        return self.fmt


class Plain:
    """A handler class without formatting for each logger."""

    def __init__(self, *args):
        self.args = args

    def format(self, record):
        return 'plain'


def d_per_logger():
    """A handler formats the records of a logger by the formatter set for it, others as usual."""
    h = launch.logging.handlers.with_per_logger_formatting(Plain)('a', 'b')
    check(h.args == ('a', 'b'), 'made as usual')
    check(h.format(Record('x')) == 'plain', 'as usual')
    x = pick('x', Logger('x'))
    h.setFormatterFor(x, Wording('first'))
    h.setFormatterFor('y', Wording('other'))
    check(h.format(Record('x')) == 'first' and h.format(Record('y')) == 'other', 'that formatter')
    check(h.format(Record('xx')) == 'plain' and h.format(Record('')) == 'plain', 'as usual')
    h.setFormatterFor(pick('x', Logger('x')), Wording('second'))
    check(h.format(Record('x')) == 'second', 'the last one')
    h.unsetFormatterFor(x)
    h.unsetFormatterFor('z')
    check(h.format(Record('x')) == 'plain' and h.format(Record('y')) == 'other', 'as usual')
    g = launch.logging.handlers.with_per_logger_formatting(Plain)()
    check(g.format(Record('y')) == 'plain', 'of that handler only')
    g.setFormatterFor('p', Wording('p'))
    g.setFormatterFor('q-stdout', Wording('q'))
    check([g.format(Record(x)) for x in ('p', 'p-stdout', 'p.a', 'q-stdout', 'q-stderr', 'q', 'Q-stdout')] ==
          ['p', 'plain', 'plain', 'q', 'plain', 'plain', 'plain'], 'of exactly that logger')
