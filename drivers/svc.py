"""Environment of a running LaunchService (abstractly interpreted, never run)."""
import asyncio

from launch import LaunchDescription
from launch import LaunchService

from drv.env import *


class Signals:
    """Stands for AsyncSafeSignalManager: remembers the registered handlers."""

    current = None

    def __init__(self, loop):
        self.loop = loop
        self.handlers = {}

    def __enter__(self):
        log('signals on')
        Signals.current = self
        return self

    def __exit__(self, *exc):
        log('signals off')
        return None

    def handle(self, signum, handler):
        old = self.handlers.get(signum)
        self.handlers[signum] = handler
        return old


class World:
    """What happens outside: one stimulus each time the service has nothing left to do."""

    stimuli = []
    waits = 0
    loop = thing('loop')
    idle = 0


async def wait_model(fs, timeout=None, return_when='ALL_COMPLETED'):
    """asyncio.wait: advances the event task; when nothing can advance, the world acts."""
    World.waits += 1
    log('wait', len(fs))
    first = True
    acted = False
    bound_to_loop(fs)
    while True:
        done = []
        pending = []
        for f in fs:
            if state_of(f) == 'pending' and coro_of(f) is not None and \
                    not World.service.context._event_queue.empty() and first:
                try:
                    run(f)
                except BaseException:
                    pass
                first = False
            if state_of(f) == 'pending':
                pending.append(f)
            else:
                done.append(f)
        if done and (not pending or return_when != 'ALL_COMPLETED' and return_when != asyncio.ALL_COMPLETED):
            # a run that waits for nothing again and again will never do anything else
            World.idle = World.idle + 1 if first and not acted else 0
            if World.idle > 2:
                log('stuck')
                raise Stuck()
            return (done, pending)
        if not World.stimuli:
            log('stuck')
            raise Stuck()
        World.stimuli.pop(0)()
        acted = True


def bound_to_loop(fs):
    """Waiting for an event ties the queue to the loop; it cannot be waited for in another one."""
    queue = World.service.context._event_queue
    if queue.empty() and [f for f in fs if state_of(f) == 'pending' and coro_of(f) is not None]:
        if queue.loop is None:
            queue.loop = World.loop
        elif queue.loop is not World.loop:
            raise RuntimeError('the queue is bound to a different event loop')


class Stuck(BaseException):
    """Nothing can happen any more, and the run has not returned."""


def make_service(**kwargs):
    queue_model()
    stub('osrf_pycommon.process_utils.get_loop', get_loop)
    stub('asyncio.current_task', current_task)
    stub('threading.current_thread', the_thread)
    stub('threading.main_thread', the_thread)
    stub('asyncio.wait', wait_model)
    stub('launch.logging.log_launch_config', None)
    stub('traceback.format_exc', 'traceback')
    stub('new:launch.logging.LaunchConfig', LogConfig)
    stub('new:launch.utilities.signal_management.AsyncSafeSignalManager', Signals)
    World.stimuli = []
    World.idle = 0
    World.service = LaunchService(**kwargs)
    return World.service


class LogConfig:
    pass


LOOP = World.loop
TASK = new_future()


def get_loop():
    return World.loop


def current_task(loop=None):
    return TASK


MAIN_THREAD = thing('main thread')


def the_thread():
    return MAIN_THREAD


def described(*entities):
    return LaunchDescription(list(entities))


def serve(service, **kwargs):
    """Run the service to the end -> ('ok', return code) or ('raise', exception)."""
    return run_outcome(service.run_async(**kwargs))
