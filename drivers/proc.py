"""Environment of a process action: loop, spawned processes, event dispatch (never run)."""
import collections.abc
import signal

from launch.actions import ExecuteLocal
from launch.actions import ExecuteProcess
from launch.descriptions import Executable
from launch.event_handlers import OnProcessExit
from launch.event_handlers import OnProcessStart
from launch.events import Shutdown
from launch.events.process import ProcessExited
from launch.events.process import ProcessStarted
from launch.events.process import ProcessStderr
from launch.events.process import ProcessStdout
from launch.events.process import ShutdownProcess
from launch.events.process import SignalProcess
from launch.utilities import visit_all_entities_and_collect_futures

from drv.env import *


class Loop:
    """The asyncio loop: tasks are kept, the driver decides when each runs."""

    def __init__(self):
        self.tasks = []

    def create_future(self):
        return pin(new_future())

    def create_task(self, coro, **kwargs):
        log('task')
        self.tasks.append(coro)
        return pin(new_future())


class Transport:
    """A running process."""

    def __init__(self, pid):
        self.pid = pid
        self.gone = False
        self.code = None

    def get_pid(self):
        return self.pid

    def get_returncode(self):
        return self.code

    def send_signal(self, number):
        log('signal', self.pid, number)
        if self.gone:
            raise ProcessLookupError()

    def kill(self):
        log('signal', self.pid, 'KILL')
        if self.gone:
            raise ProcessLookupError()

    def terminate(self):
        log('signal', self.pid, signal.SIGTERM)

    def close(self):
        log('close', self.pid)


class OS:
    """Spawned processes, and what happens while the action waits."""

    started = []
    fails = False
    while_spawning = None
    while_running = []
    while_delayed = None
    waited = []


class Spawned:

    def __init__(self, protocol, transport, kwargs):
        self.protocol = protocol
        self.transport = transport
        self.kwargs = kwargs

    def exits(self, code):
        """The process ends."""
        self.transport.gone = True
        self.transport.code = code
        set_state(self.protocol.complete, 'done', code)


async def spawn(factory, **kwargs):
    log('spawn', kwargs.get('cmd'))
    if OS.while_spawning is not None:
        OS.while_spawning()
    if OS.fails:
        raise FileNotFoundError('no such program')
    protocol = factory()
    transport = Transport('pid%d' % (len(OS.started) + 1))
    protocol.complete = pin(new_future())
    protocol.connection_made(transport)
    OS.started.append(Spawned(protocol, transport, kwargs))
    return transport, protocol


def awaiting(future):
    """The action waits for its process: the next thing happens."""
    log('await')
    if state_of(future) == 'pending':
        if not OS.while_running:
            raise Stuck()
        OS.while_running.pop(0)()
    return DEFAULT


async def delayed(fs, timeout=None, **kwargs):
    log('delay', timeout)
    OS.waited = list(fs)
    if OS.while_delayed is not None:
        OS.while_delayed()
    return (set(), set())


class Stuck(BaseException):
    pass


def process_model(loop=True, **kwargs):
    """-> (context, loop)"""
    OS.started = []
    stub('osrf_pycommon.process_utils.async_execute_process', spawn)
    stub('osrf_pycommon.process_utils.async_execute_process_asyncio.async_execute_process', spawn)
    stub('await', awaiting)
    stub('io.StringIO', Buffer)
    stub('asyncio.wait', delayed)
    stub('launch.logging.get_output_loggers', lambda name, conf: (Out('out'), Out('err')))
    stub('traceback.format_exc', 'traceback')
    environ({'HOME': '/home'})
    context = make_context(loop=False, **kwargs)
    lp = Loop()
    context._set_asyncio_loop(lp)
    return context, lp


class Buffer:
    """io.StringIO (what is read and written is text without carriage returns)."""

    def __init__(self, initial='', newline=None):
        self.text = initial
        self.pos = 0
        self.closed = False

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def write(self, text):
        self._open()
        if self.pos > len(self.text):
            self.text = self.text + '\0' * (self.pos - len(self.text))
        self.text = self.text[:self.pos] + text + self.text[self.pos + len(text):]
        self.pos = self.pos + len(text)
        return len(text)

    def getvalue(self):
        self._open()
        return self.text

    def read(self):
        self._open()
        got = self.text[self.pos:]
        self.pos = len(self.text)
        return got

    def readline(self):
        self._open()
        end = self.text.find('\n', self.pos)
        end = len(self.text) if end < 0 else end + 1
        got = self.text[self.pos:end]
        self.pos = end
        return got

    def readlines(self):
        return list(self)

    def seek(self, pos, whence=0):
        self._open()
        self.pos = pos if whence == 0 else len(self.text)
        return self.pos

    def tell(self):
        self._open()
        return self.pos

    def truncate(self, size=None):
        self._open()
        self.text = self.text[:self.pos if size is None else size]
        return len(self.text)

    def flush(self):
        self._open()

    def close(self):
        self.closed = True

    def __iter__(self):
        self._open()
        return self

    def __next__(self):
        line = self.readline()
        if line == '':
            raise StopIteration()
        return line


class Out:
    """A logger of the output of the process."""

    def __init__(self, tag):
        self.tag = tag

    def info(self, msg):
        log(self.tag, msg)


def program(cls=ExecuteLocal, **kwargs):
    if cls is ExecuteLocal:
        return ExecuteLocal(process_description=Executable(cmd=['prog', 'arg']), **kwargs)
    return ExecuteProcess(cmd=['prog', 'arg'], **kwargs)


def process_event(context, event):
    """Offer the event to the handlers and visit what they return, as a running service does."""
    for handler in tuple(context._event_handlers):
        if handler.matches(event):
            context._push_locals()
            entities = handler.handle(event, context)
            if not isinstance(entities, collections.abc.Iterable):
                entities = [entities]
            for e in entities:
                if e is not None:
                    if not isinstance(e, LaunchDescriptionEntity):
                        raise RuntimeError('expected an entity')
                    visit_all_entities_and_collect_futures(e, context)
            context._pop_locals()


def deliver(context):
    """Process every queued event."""
    queue = [q for c, q in QUEUES if c is context][0]
    while queue.items:
        event = queue.items.pop(0)
        log('event', kind(event), event)
        process_event(context, event)


def seen_events():
    return [x[2] for x in logs('event')]


def signals():
    return [x[2] for x in logs('signal')]


def shut_down(context, due_to_sigint=False):
    """A shutdown of the whole launch is processed."""
    context._set_is_shutdown(True)
    process_event(context, Shutdown(reason='test', due_to_sigint=due_to_sigint))


def start(context, action):
    """Visit the action and hand back its coroutine."""
    action.visit(context)
    return context.asyncio_loop.tasks[-1]
