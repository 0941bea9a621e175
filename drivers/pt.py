"""Environment of launch_pytest: pytest, the event loop and the launch service (never run)."""
import asyncio
import inspect

from drv.env import *


class Stuck(BaseException):
    """Waits for ever."""


class World:
    """What happens meanwhile: (time, function), in this order."""

    stimuli = []
    now = 100
    loop = None
    service = None
    generators = []
    asyncgens = []

    def turn(until=None):
        """The next thing happens, unless it happens after the given time."""
        if World.stimuli and (until is None or World.stimuli[0][0] <= until):
            t, f = World.stimuli.pop(0)
            World.now = t if t > World.now else World.now
            f()
            return True
        if until is not None:
            World.now = until if until > World.now else World.now
            return False
        log('stuck')
        raise Stuck()


def read_clock():
    World.now += 1
    return World.now


class Event:
    """asyncio.Event, threading.Event"""

    def __init__(self, *args, **kwargs):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def blocks(self, timeout):
        log('waits', timeout)
        until = None if timeout is None else World.now + timeout
        while not self.flag:
            if not World.turn(until):
                return False
        return True


class AsyncEvent(Event):

    def wait(self):
        return EventWait(self)


class ThreadEvent(Event):

    def wait(self, timeout=None):
        return True if self.flag else self.blocks(timeout)


class EventWait:
    """What asyncio.Event.wait() gives."""

    def __init__(self, event):
        self.event = event

    def __await__(self):
        if not self.event.flag:
            self.event.blocks(None)
        return True
        yield

    def over(self):
        return self.event.flag


async def wait_for(awaitable, timeout, **kwargs):
    if isinstance(awaitable, EventWait):
        if not awaitable.event.flag and not awaitable.event.blocks(timeout):
            raise asyncio.TimeoutError()
        return True
    return await awaitable


class ServiceRun:
    """What LaunchService.run_async() gives."""

    def __init__(self, service):
        self.service = service

    def over(self):
        return self.service.state == 'ended'

    def __await__(self):
        while not self.over():
            if self.service.stopping:
                self.service.ends()
            else:
                World.turn()
        if self.service.error is not None:
            raise self.service.error
        return self.service.code
        yield


class Context:
    """The launch context: the event handlers of the user."""

    def __init__(self):
        self.handlers = []
        self.asyncio_loop = None

    def register_event_handler(self, handler, append=False):
        self.handlers = self.handlers + [handler] if append else [handler] + self.handlers

    def unregister_event_handler(self, handler):
        check(handler in self.handlers, 'what is unregistered has been registered')
        self.handlers = [h for h in self.handlers if h is not handler]

    def extend_locals(self, values):
        pass

    def deliver(self, event):
        for h in list(self.handlers):
            if h.matches(event):
                h.handle(event, self)


class Service:
    """LaunchService: runs until it is shut down, or ends."""

    def __init__(self, *args, **kwargs):
        self.state = 'new'
        self.stopping = False
        self.code = 0
        self.error = None
        self.included = []
        self.options = None
        self.own_task = None
        self.context = Context()
        World.service = self

    def include_launch_description(self, description):
        self.included.append(description)

    def run_async(self, *, shutdown_when_idle=True):
        self.options = shutdown_when_idle
        log('launch', self)
        return ServiceRun(self)

    def begins(self):
        if self.state == 'new' and self.own_task is not None:
            self.state = 'running'
            self.context.asyncio_loop = World.loop

    def ends(self, code=None, error=None):
        if self.state == 'running':
            log('launch ended')
            self.state = 'ended'
            self.context.asyncio_loop = None
            if code is not None:
                self.code = code
            self.error = error

    def shutdown(self, force_sync=False):
        if not force_sync and not World.loop.running:
            # a coroutine, which nobody awaits: the loop does not run
            return thing('shutdown coroutine')
        log('shut down', self)
        self.stopping = True

    @property
    def event_loop(self):
        return World.loop if self.state == 'running' else None

    @property
    def task(self):
        return self.own_task if self.state == 'running' else None


class Task:
    """A task of the loop, or what is run by its executor."""

    def __init__(self, what):
        self.what = what
        self.state = 'pending'
        self.value = None
        self.error = None
        if isinstance(what, ServiceRun):
            what.service.own_task = self

    def poll(self):
        """Done already?"""
        if self.state == 'pending' and isinstance(self.what, (ServiceRun, EventWait)):
            if self.what.over():
                self.complete()
        return self.state != 'pending'

    def complete(self):
        if self.state != 'pending':
            return
        try:
            if isinstance(self.what, Call):
                self.value = self.what.fn(*self.what.args)
            else:
                self.value = run(waited(self.what))
            self.state = 'done'
        except Stuck:
            raise
        except BaseException as e:
            self.error = e
            self.state = 'failed'

    def done(self):
        return self.poll()

    def cancelled(self):
        return self.state == 'cancelled'

    def cancel(self, msg=None):
        if self.poll():
            return False
        self.state = 'cancelled'
        return True

    def exception(self):
        if self.state == 'cancelled':
            raise asyncio.CancelledError()
        if not self.poll():
            raise asyncio.InvalidStateError()
        return self.error

    def result(self):
        if self.state == 'cancelled':
            raise asyncio.CancelledError()
        if not self.poll():
            raise asyncio.InvalidStateError()
        if self.error is not None:
            raise self.error
        return self.value

    def add_done_callback(self, fn):
        pass

    def __await__(self):
        self.complete()
        return self.result()
        yield


class Call:
    """What an executor runs."""

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


async def waited(awaitable):
    return await awaitable


async def wait_model(fs, *, timeout=None, return_when='ALL_COMPLETED'):
    """asyncio.wait"""
    everything = return_when == 'ALL_COMPLETED' or return_when == asyncio.ALL_COMPLETED
    while True:
        done = [f for f in fs if f.poll()]
        pending = [f for f in fs if not f.poll()]
        if not pending or done and not everything:
            return (done, pending)
        others = [f for f in pending if not isinstance(f.what, (ServiceRun, EventWait))]
        if others:
            others[0].complete()
        else:
            World.turn()


class Loop:

    def __init__(self):
        self.closed = False
        self.running = False
        self.tasks = []

    def create_task(self, coro, **kwargs):
        t = Task(coro)
        self.tasks.append(t)
        return t

    def create_future(self):
        return Task(EventWait(AsyncEvent()))

    def run_in_executor(self, executor, fn, *args):
        log('in a thread')
        return self.create_task(Call(fn, args))

    def run_until_complete(self, future):
        check(not self.closed, 'only an open loop is run')
        log('loop runs')
        if self.running:
            raise RuntimeError('This event loop is already running')
        if World.service is not None:
            World.service.begins()
        t = future if isinstance(future, Task) else self.create_task(future)
        self.running = True
        try:
            t.complete()
        finally:
            self.running = False
        return t.result()

    def is_closed(self):
        return self.closed

    def is_running(self):
        return self.running

    def close(self):
        log('loop closed')
        self.closed = True


def ensure_future(what, *, loop=None):
    return what if isinstance(what, Task) else (loop or World.loop).create_task(what)


class Policy:

    def new_event_loop(self):
        World.loop = Loop()
        return World.loop

    def get_event_loop(self):
        raise RuntimeError('no current event loop')

    def set_event_loop(self, loop):
        log('current loop', loop)


POLICY = Policy()


def is_generator(f):
    return True if [g for g in World.generators if g is f] else DEFAULT


def is_asyncgen(f):
    return True if [g for g in World.asyncgens if g is f] else DEFAULT


def pytest_world(*stimuli):
    stub('asyncio.Event', AsyncEvent)
    stub('threading.Event', ThreadEvent)
    stub('asyncio.wait_for', wait_for)
    stub('asyncio.wait', wait_model)
    stub('asyncio.ensure_future', ensure_future)
    stub('asyncio.set_event_loop', None)
    stub('asyncio.set_event_loop_policy', None)
    stub('asyncio.get_event_loop_policy', policy)
    stub('asyncio.new_event_loop', POLICY.new_event_loop)
    stub('time.time', read_clock)
    stub('time.monotonic', read_clock)
    stub('inspect.isgeneratorfunction', is_generator)
    stub('inspect.isasyncgenfunction', is_asyncgen)
    stub('new:launch.launch_service.LaunchService', Service)
    World.stimuli = list(stimuli)
    World.now = 100
    World.loop = Loop()
    World.service = None
    World.generators = []
    World.asyncgens = []


def policy():
    return POLICY


class Two:
    """A generator of a test: what it does before and after its yield."""

    def __init__(self, name, yields, first, second):
        self.name = name
        self.yields = yields
        self.steps = 0
        self.first = first
        self.second = second

    def step(self):
        self.steps += 1
        log('step', self.name, self.steps)
        if self.steps == 1 and self.first is not None:
            raise self.first
        if self.steps == 2 and self.second is not None:
            raise self.second
        return self.steps > self.yields

    def __iter__(self):
        return self

    def __next__(self):
        if self.step():
            raise StopIteration()
        return None

    def close(self):
        log('closed', self.name)


class AsyncTwo(Two):

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.step():
            raise StopAsyncIteration()
        return None

    async def aclose(self):
        log('closed', self.name)


def two_part(name, *, is_async=False, yields=1, first=None, second=None):
    """The test function of a test with two parts."""
    def test_it(value=None):
        log('called', name, value)
        return (AsyncTwo if is_async else Two)(name, yields, first, second)
    if is_async:
        World.asyncgens.append(test_it)
    else:
        World.generators.append(test_it)
    return test_it


class FixtureInfo:

    def __init__(self, argnames):
        self.argnames = argnames


class FixtureManager:

    def getfixtureinfo(self, node, func, cls):
        return FixtureInfo([p.name for p in inspect.signature(func).parameters.values()
                            if p.kind not in (inspect.Parameter.VAR_KEYWORD, inspect.Parameter.VAR_POSITIONAL)])


class Session:

    def __init__(self):
        self._fixturemanager = FixtureManager()


class Request:

    def __init__(self, values):
        self.values = values

    def getfixturevalue(self, name):
        return self.values[name]


class FixtureDef:
    """A fixture which is being set up."""

    def __init__(self, definition, name='it'):
        self.func = definition._fixture_function
        self.argname = name
        self.scope = definition._fixture_function_marker.scope
        self.cached_result = None
        self.finalizers = []

    def addfinalizer(self, f):
        self.finalizers.append(f)
