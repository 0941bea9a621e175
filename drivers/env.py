"""Environment shared by the drivers (abstractly interpreted, never run)."""
import asyncio

from launch import Action
from launch import Condition
from launch import Event
from launch import LaunchContext
from launch import LaunchDescriptionEntity


class EventQueue:
    """asyncio.Queue as far as the analysed code uses it."""

    def __init__(self, maxsize=0, **kwargs):
        self.items = []
        self.loop = None
        log('new queue', self, maxsize)

    def put_nowait(self, item):
        log('enqueue', item)
        self.items.append(item)

    async def put(self, item):
        log('enqueue', item)
        self.items.append(item)

    def get_nowait(self):
        if not self.items:
            raise asyncio.QueueEmpty()
        return self.items.pop(0)

    async def get(self):
        if not self.items:
            log('blocked on the event queue')
            raise asyncio.CancelledError()
        return self.items.pop(0)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)


class LastQueue(EventQueue):
    """asyncio.LifoQueue"""

    def get_nowait(self):
        if not self.items:
            raise asyncio.QueueEmpty()
        return self.items.pop()

    async def get(self):
        if not self.items:
            log('blocked on the event queue')
            raise asyncio.CancelledError()
        return self.items.pop()


def queue_model():
    stub('asyncio.Queue', EventQueue)
    stub('asyncio.LifoQueue', LastQueue)
    stub('asyncio.queues.LifoQueue', LastQueue)
    stub('asyncio.queues.Queue', EventQueue)


def make_context(loop=True, **kwargs):
    queue_model()
    context = LaunchContext(**kwargs)
    QUEUES.append((context, logs('new queue')[-1][1]))
    if loop:
        context._set_asyncio_loop(thing('loop'))
    return context


QUEUES = []


def queued(context):
    """The events emitted on the context and not yet processed."""
    for c, q in QUEUES:
        if c is context:
            return list(q.items)
    return list(context._event_queue.items)


def queued_kinds(context):
    return [kind(e) for e in queued(context)]


def outcome(fn, *args, **kwargs):
    try:
        return ('ok', fn(*args, **kwargs))
    except BaseException as exc:
        return ('raise', exc)


def run_outcome(coro):
    try:
        return ('ok', run(coro))
    except BaseException as exc:
        return ('raise', exc)


class Probe(Action):
    """An action of the user: logs its execution."""

    def __init__(self, tag, *, subs=None, future=None, fails=False, condition=None):
        super().__init__(condition=condition)
        self.tag = tag
        self.subs = subs
        self.future = future
        self.fails = fails
        self.seen = None

    def execute(self, context):
        log('execute', self.tag)
        if self.fails:
            raise UserError(self.tag)
        return self.subs

    def get_sub_entities(self):
        return self.subs or []

    def get_asyncio_future(self):
        log('future of', self.tag)
        return self.future


class UserError(Exception):
    pass


class Flag(Condition):
    """A condition with a given answer."""

    def __init__(self, answer):
        self.answer = answer

    def evaluate(self, context):
        log('evaluate')
        return self.answer

    def describe(self):
        return 'flag'


class Ping(Event):
    name = 'test.Ping'


class Fixed:
    """A substitution with a given value."""

    def __init__(self, value):
        self.value = value

    def perform(self, context):
        log('perform', self.value)
        return self.value

    def describe(self):
        return self.value


class ExitStack:
    """contextlib.ExitStack"""

    def __init__(self):
        self.exits = []

    def __enter__(self):
        return self

    def push(self, exit_):
        self.exits.append(exit_.__exit__ if hasattr(exit_, '__exit__') else exit_)
        return exit_

    def enter_context(self, cm):
        r = cm.__enter__()
        self.exits.append(cm.__exit__)
        return r

    def callback(self, fn, *args, **kwargs):
        def call(*details):
            fn(*args, **kwargs)
        self.exits.append(call)
        return fn

    def pop_all(self):
        new = ExitStack()
        new.exits = self.exits
        self.exits = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, exc, tb):
        given = exc
        while self.exits:
            e = self.exits.pop()
            try:
                if exc is None:
                    e(None, None, None)
                elif e(type(exc), exc, None):
                    exc = None
            except BaseException as new:
                exc = new
        if exc is not None and exc is not given:
            raise exc
        return given is not None and exc is None
