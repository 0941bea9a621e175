"""Asynchronous signal handling."""
import asyncio
import os
import platform
import signal
import socket
import threading

from launch.utilities.signal_management import AsyncSafeSignalManager

from drv.env import *


class Host:
    """The process: its wakeup descriptor, threads and descriptors."""

    def __init__(self):
        self.wakeup = -1
        self.main = True
        self.sockets = {}
        self.closed = []
        self.n = 10


HOST = Host()


class Socket:
    def __init__(self, fd):
        self.fd = fd
        self.peer = None
        self.buffer = []
        self.open = True
        self.blocks = True
        HOST.sockets[fd] = self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self.open = False

    def fileno(self):
        return self.fd if self.open else -1

    def setblocking(self, flag):
        check(flag is False, 'sockets do not block')
        self.blocks = flag

    def recv(self, n):
        check(not self.blocks, 'reading never blocks')
        if not self.buffer:
            raise BlockingIOError()
        data = self.buffer.pop(0)
        if isinstance(data, Exception):
            raise data
        return data


def socketpair(*args):
    a, b = Socket(HOST.n), Socket(HOST.n + 1)
    HOST.n = HOST.n + 2
    a.peer, b.peer = b, a
    return a, b


def set_wakeup_fd(fd, *, warn_on_full_buffer=True):
    if not HOST.main:
        raise ValueError('set_wakeup_fd only works in main thread')
    if fd in HOST.sockets and HOST.sockets[fd].blocks:
        raise ValueError('the fd %s must be in non-blocking mode' % fd)
    log('wakeup', fd)
    old = HOST.wakeup
    HOST.wakeup = fd
    return old


def write(fd, data):
    log('write', fd, data)
    if fd in HOST.sockets:
        check(HOST.sockets[fd].open, 'never written to a closed socket')
        HOST.sockets[fd].peer.buffer.append(data)
    return len(data)


class Loop:
    """An event loop."""

    def __init__(self, readers=True, name='loop'):
        self.supports = readers
        self.readers = {}
        self.soon = []
        self.running = False
        self.closed = False
        self.name = name

    def add_reader(self, fd, callback, *args):
        if not self.supports:
            raise NotImplementedError()
        check(fd in HOST.sockets and HOST.sockets[fd].open, 'reads an open socket')
        self.readers[fd] = (callback, args)

    def remove_reader(self, fd):
        if not self.supports:
            raise NotImplementedError()
        check(fd in self.readers, 'removes what it added')
        self.readers.pop(fd, None)

    def call_soon_threadsafe(self, callback, *args):
        self.soon.append((callback, args))

    def run_forever(self):
        self.running = True

    def stop(self):
        self.running = False

    def close(self):
        log('closed loop', self)
        self.closed = True

    def step(self):
        """Everything that is ready."""
        for fd in list(self.readers):
            if fd in self.readers and HOST.sockets[fd].buffer:
                callback, args = self.readers[fd]
                callback(*args)
        while self.soon:
            callback, args = self.soon.pop(0)
            callback(*args)


BACKGROUND = []


def selector_loop():
    b = Loop(name='background')
    BACKGROUND.append(b)
    return b


class Thread:
    def __init__(self, target, daemon=None):
        check(daemon is True, 'does not keep the process alive')
        self.target = target

    def start(self):
        log('thread')
        self.target()

    def join(self):
        for b in BACKGROUND:
            b.step()
            check(not b.running, 'stopped before it is waited for')


def host(fd=-1):
    HOST.wakeup = fd
    stub('contextlib.ExitStack', ExitStack)
    stub('socket.socketpair', socketpair)
    stub('signal.set_wakeup_fd', set_wakeup_fd)
    stub('os.write', write)
    stub('platform.system', 'Linux')
    stub('asyncio.SelectorEventLoop', selector_loop)
    stub('asyncio.set_event_loop', lambda loop: log('set loop', loop))
    stub('threading.Thread', Thread)
    stub('threading.main_thread', 'main thread')
    stub('threading.current_thread', lambda: 'main thread' if HOST.main else 'other thread')


def deliver(*signums):
    """The interpreter receives signals: their numbers are written to the wakeup descriptor."""
    if HOST.wakeup != -1:
        write(HOST.wakeup, bytes(signums))


def handler(tag):
    return lambda signum: log('handled', tag, signum)


def handled(tag=None):
    return [int(x[2]) for x in logs('handled') if tag is None or x[1] == tag]


def all_closed():
    return all([not s.open for s in HOST.sockets.values()])


def d_scope():
    """After the context, however it is left, everything is as it was."""
    fd = pick(-1, 3, 0)
    host(fd)
    loop = Loop()
    before = signal.set_wakeup_fd
    how = pick('end', 'error', 'cancel')
    m = AsyncSafeSignalManager(loop)
    try:
        with m as got:
            check(got is m, 'the manager')
            check(HOST.wakeup in HOST.sockets and HOST.sockets[HOST.wakeup].open, 'signals are received')
            check(len(loop.readers) == 1, 'and read')
            if how == 'error':
                raise UserError('x')
            if how == 'cancel':
                raise asyncio.CancelledError()
    except UserError:
        check(how == 'error', 'the error')
    except asyncio.CancelledError:
        check(how == 'cancel', 'the error')
    check(HOST.wakeup == fd, 'the wakeup descriptor is restored')
    check(loop.readers == {}, 'no reader')
    check(all_closed(), 'no socket')
    check(signal.set_wakeup_fd is before, 'not intercepted any more')
    signal.set_wakeup_fd(9)
    check(HOST.wakeup == 9, 'not intercepted any more')


def d_not_main():
    """Outside of the main thread it is a ValueError, and nothing is left behind."""
    host(pick(-1, 3))
    loop = Loop(readers=pick(True, False))
    HOST.main = False
    m = AsyncSafeSignalManager(loop)
    r = outcome(m.__enter__)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'a ValueError')
    check(loop.readers == {}, 'no reader')
    check(all_closed(), 'no socket')
    check(all([b.closed for b in BACKGROUND]), 'no loop')
    HOST.main = True
    signal.set_wakeup_fd(9)
    check(HOST.wakeup == 9, 'not intercepted')
    with AsyncSafeSignalManager(Loop()):
        check(HOST.wakeup != 9, 'works again')
    check(HOST.wakeup == 9, 'restored')


def d_dispatch():
    """Every signal is handled once, in order, by the handler of its number."""
    host()
    loop = Loop()
    m = AsyncSafeSignalManager(loop)
    early = pick(True, False)
    if early:
        m.handle(signal.SIGINT, handler('int'))
    with m:
        if not early:
            m.handle(signal.SIGINT, handler('int'))
        m.handle(15, handler('term'))
        one_go = pick(True, False)
        if one_go:
            deliver(2, 15, 1, 2)
        else:
            deliver(2)
            deliver(15, 1)
            if pick(True, False):
                loop.step()
            deliver(2)
        loop.step()
        loop.step()
    check(handled() == [2, 15, 2], 'each once in order')
    check(handled('int') == [2, 2] and handled('term') == [15], 'by its handler')


def d_interrupted():
    """Reading goes on after an interruption and ends when there is nothing more."""
    host()
    loop = Loop()
    m = AsyncSafeSignalManager(loop)
    m.handle(signal.SIGINT, handler('int'))
    with m:
        deliver(2)
        buffer = HOST.sockets[HOST.wakeup].peer.buffer
        buffer.insert(pick(0, 1), InterruptedError())
        buffer.append(b'\x02')
        if pick(True, False):
            buffer.append(b'')
        loop.step()
    check(handled() == [2, 2], 'all of them')


def d_handle():
    """Registering gives the previous handler; None removes it; what cannot handle is refused."""
    host()
    loop = Loop()
    m = AsyncSafeSignalManager(loop)
    a, b = handler('a'), handler('b')
    signum = pick(signal.SIGINT, 2)
    check(m.handle(signum, None) is None, 'none before')
    check(m.handle(signum, a) is None, 'none before')
    check(outcome(m.handle, signum, pick('x', 1))[0] == 'raise', 'not callable')
    check(outcome(m.handle, pick(0, 1000, 'x'), a)[0] == 'raise', 'no signal')
    last = pick('a', 'b', None, 'again')
    if last == 'b':
        check(m.handle(signum, b) is a, 'the previous one')
    elif last is None:
        check(m.handle(signal.SIGINT, None) is a, 'the previous one')
    elif last == 'again':
        check(m.handle(2, None) is a, 'the previous one')
        check(m.handle(2, None) is None, 'gone')
        m.handle(2, b)
    with m:
        deliver(2)
        loop.step()
    check(handled('a') == ([2] if last == 'a' else []), 'the current one')
    check(handled('b') == ([2] if last in ('b', 'again') else []), 'the current one')


def d_handler_changes():
    """A handler may change the handlers."""
    host()
    loop = Loop()
    m = AsyncSafeSignalManager(loop)
    new = pick(None, handler('new'))

    def once(signum):
        log('handled', 'once', signum)
        m.handle(signum, new)
    m.handle(signal.SIGINT, once)
    with m:
        deliver(2, 2)
        loop.step()
        deliver(2)
        loop.step()
    check(handled('once') == [2], 'once')
    check(handled('new') == ([2, 2] if new else []), 'the new one')


def d_forward():
    """Everything received is forwarded to the previous descriptor, handled or not."""
    host(pick(-1, 3))
    loop = Loop()
    m = AsyncSafeSignalManager(loop)
    if pick(True, False):
        m.handle(signal.SIGINT, handler('int'))
    fd = HOST.wakeup
    with m:
        deliver(2, 10)
        loop.step()
        deliver(2)
        loop.step()
    got = [x[2] for x in logs('write') if x[1] == 3]
    check(got == ([b'\x02\x0a', b'\x02'] if fd == 3 else []), 'all of it')


def d_nested():
    """Nested managers handle signals independently; leaving one leaves the others intact."""
    host(pick(-1, 3))
    fd = HOST.wakeup
    loop = Loop()
    other = pick(loop, Loop(name='second'))
    a, b, c = AsyncSafeSignalManager(loop), AsyncSafeSignalManager(other), AsyncSafeSignalManager(loop)
    a.handle(signal.SIGINT, handler('a'))
    b.handle(signal.SIGINT, handler('b'))
    c.handle(signal.SIGTERM, handler('c'))

    def both():
        for i in range(4):
            loop.step()
            other.step()
    before = signal.set_wakeup_fd
    with a:
        with b:
            with c:
                deliver(2, 15)
                both()
            check(handled('a') == [2] and handled('b') == [2] and handled('c') == [15], 'each its own')
            deliver(2)
            both()
            check(handled('a') == [2, 2] and handled('b') == [2, 2], 'each its own')
            check(signal.set_wakeup_fd is not before, 'still intercepted')
        deliver(2)
        both()
        check(handled('a') == [2, 2, 2] and handled('b') == [2, 2], 'the one that is left')
        check(signal.set_wakeup_fd is not before, 'still intercepted')
    check(HOST.wakeup == fd, 'the wakeup descriptor is restored')
    check(signal.set_wakeup_fd is before, 'not intercepted any more')
    check(loop.readers == {} and other.readers == {}, 'no reader')
    check(all_closed(), 'no socket')
    got = [x[2] for x in logs('write') if x[1] == 3]
    check(got == ([b'\x02\x0f', b'\x02', b'\x02'] if fd == 3 else []), 'forwarded once')


def d_intercept():
    """Within contexts others set the descriptor behind all managers; it stays set afterwards."""
    host(pick(-1, 3))
    fd = HOST.wakeup
    loop = Loop()
    a, b = AsyncSafeSignalManager(loop), AsyncSafeSignalManager(loop)
    a.handle(signal.SIGINT, handler('a'))
    b.handle(signal.SIGINT, handler('b'))
    where = pick('outer', 'inner', 'after')
    new = pick(5, -1)

    def third_party():
        check(signal.set_wakeup_fd(7) == fd, 'the previous one')
        if pick(True, False):
            check(signal.set_wakeup_fd(new, warn_on_full_buffer=False) == 7, 'the previous one')
        else:
            check(signal.set_wakeup_fd(new) == 7, 'the previous one')
    with a:
        if where == 'outer':
            third_party()
        with b:
            if where == 'inner':
                third_party()
            deliver(2)
            loop.step()
            loop.step()
        if where == 'after':
            third_party()
        deliver(2)
        loop.step()
    check(handled('a') == [2, 2] and handled('b') == [2], 'the managers still work')
    check(HOST.wakeup == new, 'it stays')
    n = {'outer': 2, 'inner': 2, 'after': 1}[where] if new == 5 else 0
    check(len([x for x in logs('write') if x[1] == 5]) == n, 'and is forwarded to')


def d_forward_lowest():
    """Also the descriptor zero is one to forward to."""
    host(0)
    loop = Loop()
    m = AsyncSafeSignalManager(loop)
    m.handle(signal.SIGINT, handler('a'))
    with m:
        deliver(2, 15)
        loop.step()
        check([(x[1], list(x[2])) for x in logs('write') if x[1] == 0] == [(0, [2, 15])], 'forwarded')
        check(signal.set_wakeup_fd(-1) == 0, 'the previous one')
        deliver(2)
        loop.step()
        check(len([x for x in logs('write') if x[1] == 0]) == 1, 'no longer')
        check(signal.set_wakeup_fd(0) == -1, 'the previous one')
    check(HOST.wakeup == 0, 'restored')
    check(handled('a') == [2, 2], 'handled')


def d_nested_in_turn():
    """Managers used one after the other inside of another one leave that one as it was."""
    host(pick(-1, 3))
    fd = HOST.wakeup
    loop = Loop()
    outer = AsyncSafeSignalManager(loop)
    outer.handle(signal.SIGINT, handler('outer'))
    before = signal.set_wakeup_fd
    with outer:
        theirs = signal.set_wakeup_fd
        own = HOST.wakeup
        for i in range(3):
            inner = AsyncSafeSignalManager(loop)
            inner.handle(signal.SIGINT, handler('inner'))
            with inner:
                deliver(2)
                loop.step()
                loop.step()
            check(signal.set_wakeup_fd is theirs, 'still intercepted, by the outer one')
            check(HOST.wakeup == own and len(loop.readers) == 1, 'the outer one is left')
            signal.set_wakeup_fd(7)
            check(HOST.wakeup == own, 'intercepted')
            deliver(15)
            loop.step()
            check([x[1] for x in logs('write')][-1] == 7, 'forwarded')
            signal.set_wakeup_fd(fd)
    check(handled('outer') == [2, 2, 2] and handled('inner') == [2, 2, 2], 'each')
    check(signal.set_wakeup_fd is before, 'as before')
    check(HOST.wakeup == fd and all_closed() and loop.readers == {}, 'as before')


def d_intercept_thread():
    """As ever, others can set the descriptor in the main thread only."""
    host(3)
    with AsyncSafeSignalManager(Loop()):
        HOST.main = False
        r = outcome(signal.set_wakeup_fd, 5)
        check(r[0] == 'raise' and isinstance(r[1], ValueError), 'a ValueError')
        HOST.main = True
    check(HOST.wakeup == 3, 'nothing changed')


def d_again():
    """A manager can be used again."""
    host(pick(-1, 3))
    fd = HOST.wakeup
    loop = Loop(readers=pick(True, False))
    m = AsyncSafeSignalManager(loop)
    m.handle(signal.SIGINT, handler('a'))
    for i in range(2):
        with m:
            deliver(2)
            for b in BACKGROUND:
                if not b.closed:
                    b.step()
            loop.step()
        check(HOST.wakeup == fd, 'restored')
        check(all_closed(), 'no socket')
        check(all([b.closed for b in BACKGROUND]), 'no loop')
    check(handled('a') == [2, 2], 'handled')


def d_background():
    """Where the loop cannot read, a thread does; handlers still run in the loop only."""
    host()
    loop = Loop(readers=False)
    m = AsyncSafeSignalManager(loop)
    m.handle(signal.SIGINT, handler('a'))
    with m:
        check(len(BACKGROUND) == 1 and BACKGROUND[0].running, 'it reads')
        check(logs('set loop')[0][1] is BACKGROUND[0], 'its own loop')
        deliver(2)
        BACKGROUND[0].step()
        check(handled() == [], 'not in the thread')
        loop.step()
        check(handled() == [2], 'in the loop')
    check(BACKGROUND[0].closed, 'closed')
    check(all_closed(), 'no socket')
    check(HOST.wakeup == -1, 'the wakeup descriptor is restored')
