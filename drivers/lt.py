"""Environment of launch_testing: process actions, their events, locks (never run)."""
from launch.actions import ExecuteProcess
from launch.event_handlers import OnShutdown
from launch.events.process import ProcessExited
from launch.events.process import ProcessStarted
from launch.events.process import ProcessStderr
from launch.events.process import ProcessStdout
from launch_testing.io_handler import ActiveIoHandler
from launch_testing.io_handler import IoHandler
from launch_testing.proc_info_handler import ActiveProcInfoHandler
from launch_testing.proc_info_handler import ProcInfoHandler

from drv.env import *


class Process(ExecuteProcess):
    """A process action, with the details it has once it has been started."""

    def __init__(self, name, args=()):
        super().__init__(cmd=['prog', *args])
        self.details = {'name': name, 'cmd': ['prog', *args], 'cwd': None, 'env': None, 'pid': 7}

    @property
    def process_details(self):
        return self.details


class Fixture(Process):
    """A process under test: runs until the launch is shut down, or until it ends by itself."""

    def __init__(self, name='p', code=0):
        super().__init__(name)
        self.code = code
        self.future = None
        self.lingers = False

    def execute(self, context):
        log('launched', self.details['name'])
        self.context = context
        self.future = new_future()
        context.emit_event_sync(started(self))
        context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: self.stop()))

    def says(self, text, stderr=False):
        self.context.emit_event_sync(err(self, text) if stderr else out(self, text))

    def stop(self):
        if state_of(self.future) == 'pending':
            if not self.lingers:
                self.context.emit_event_sync(exited(self, self.code))
            set_state(self.future, 'done', None)

    def get_asyncio_future(self):
        return self.future


def started(p):
    return ProcessStarted(action=p, **p.details)


def exited(p, code=0):
    return ProcessExited(action=p, returncode=code, **p.details)


def out(p, text):
    return ProcessStdout(text=text, action=p, **p.details)


def err(p, text):
    return ProcessStderr(text=text, action=p, **p.details)


class Lock:
    """Stands for threading.Lock, RLock and Condition."""

    all = []
    meanwhile = None
    released = None
    waits = []

    def __init__(self, *args):
        self.held = 0
        Lock.all.append(self)

    def __enter__(self):
        self.held += 1
        return self

    def __exit__(self, *args):
        self.release()
        return False

    def acquire(self, *args, **kwargs):
        self.held += 1
        return True

    def release(self):
        check(self.held > 0, 'only a held lock is released')
        self.held -= 1
        if Lock.released is not None:
            f = Lock.released
            Lock.released = None
            f()

    def notify(self, n=1):
        check(self.held > 0, 'waiters are notified under the lock')
        log('notify', n)

    def notify_all(self):
        check(self.held > 0, 'waiters are notified under the lock')
        log('notify', 'all')

    def wait(self, timeout=None):
        check(self.held > 0, 'waiting needs the lock')
        Lock.waits.append(timeout)
        if Lock.meanwhile is not None:
            f = Lock.meanwhile
            Lock.meanwhile = None
            before = self.held
            self.held = 0
            f()
            self.held = before
            return True
        if timeout is None:
            raise Stuck()
        return False

    def wait_for(self, predicate, timeout=None):
        """True or what the predicate gives; the waiting ends when it holds, or in time."""
        check(self.held > 0, 'waiting needs the lock')
        result = predicate()
        while not result:
            if not self.wait(timeout):
                return predicate()
            result = predicate()
        return result


class Stuck(BaseException):
    """Waits for ever."""


def plain(text):
    return text.replace('\x1b[0m', '').replace('\x1b[31m', '')


def ansi():
    stub('osrf_pycommon.terminal_color.remove_ansi_escape_sequences', plain)


def held():
    return len([x for x in Lock.all if x.held > 0])


def locks():
    Lock.all = []
    Lock.meanwhile = None
    Lock.released = None
    Lock.waits = []
    stub('threading.Condition', Lock)
    stub('threading.Lock', Lock)
    stub('threading.RLock', Lock)
    ansi()


def raised(exceptions, f, *args, **kwargs):
    """Does the call raise one of these?"""
    try:
        f(*args, **kwargs)
    except exceptions:
        return True
    return False
