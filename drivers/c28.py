"""The records of launch_testing: complete, in order, safe to share, and they wake every waiter."""
from launch.events import IncludeLaunchDescription
from launch.events.process import ShutdownProcess
from launch_testing.asserts import assertInStderr
from launch_testing.tools.process import launch_process
from launch_testing.tools.process import ProcessProxy

from drv.env import *
from drv.lt import *


def d_last_event():
    """Of each process the last event is kept, by action and by (part of the) name."""
    h = pick(ProcInfoHandler, ActiveProcInfoHandler)()
    a, b = Process('alpha-1'), Process('beta-2')
    ea, eb = started(a), started(b)
    h.append(ea)
    h.append(eb)
    check(list(h.processes()) == [a, b], 'both processes')
    check(list(h.process_names()) == ['alpha-1', 'beta-2'], 'their names')
    check(list(h) == [ea, eb], 'one event each')
    xa = exited(a, 3)
    h.append(xa)
    check(h[a] is xa and h[b] is eb, 'the last event of each')
    check(list(h) == [xa, eb], 'and no other')
    check(h['alpha'] is xa and h['beta-2'] is eb and h['bet'] is eb, 'found by part of a name')
    check(list(h.processes()) == [a, b], 'still two')
    check(raised(KeyError, lambda: h['gamma']), 'an unknown name is a KeyError')
    check(raised(KeyError, lambda: h[Process('alpha-1')]), 'an unknown action is a KeyError')


def d_nothing_recorded():
    h = pick(ProcInfoHandler, ActiveProcInfoHandler, IoHandler, ActiveIoHandler)()
    check(list(h) == [] and list(h.processes()) == [] and list(h.process_names()) == [], 'empty')
    check(raised(KeyError, lambda: h['alpha']), 'an unknown name is a KeyError')


def d_output_in_order():
    """All output is kept in the order it came, overall and of each process."""
    h = pick(IoHandler, ActiveIoHandler)()
    a, b, c = Process('alpha'), Process('beta'), Process('gamma')
    tracked = pick('before', 'never', 'between')
    if tracked == 'before':
        h.track('alpha')
        h.track('gamma')
        check(h['alpha'] == [] and list(h.processes()) == [], 'it has no output yet')
    es = [out(a, b'1'), err(b, b'2'), out(a, b'1'), err(a, b'4'), out(b, b'5')]
    for i, e in enumerate(es):
        h.append(e)
        if i == 2 and tracked == 'between':
            h.track('alpha')
    check(same(list(h), es), 'all of it')
    check(same(h['alpha'], [es[0], es[2], es[3]]) and same(h[a], h['alpha']), 'of the first')
    check(same(h[b], [es[1], es[4]]), 'of the second')
    check(same(h.processes(), [a, b]), 'those with output')
    names = ['alpha', 'gamma', 'beta'] if tracked == 'before' else ['alpha', 'beta']
    check(list(h.process_names()) == names, 'the names of those known')
    check(raised(KeyError, lambda: h['delta']), 'an unknown name is a KeyError')


def same(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def d_snapshots():
    """What a reader was given is not changed by what arrives while it looks at it."""
    which = pick('info', 'output')
    a, b = Process('alpha'), Process('beta')
    h = ActiveProcInfoHandler() if which == 'info' else ActiveIoHandler()
    make = (lambda p: started(p)) if which == 'info' else (lambda p: out(p, b'x'))
    h.append(make(a))
    look = pick('iter', 'processes', 'names', 'item')
    if look == 'iter':
        got = iter(h)
    elif look == 'processes':
        got = h.processes()
    elif look == 'names':
        got = h.process_names()
    else:
        got = h['alpha']
    h.append(make(b))
    if which == 'output':
        h.append(make(a))
    if look == 'item' and which == 'info':
        check(got.process_name == 'alpha', 'the event')
    else:
        check(len(list(got)) == 1, 'as it was')


class Shared:
    which = 'info'


def under_lock(self, *args, **kwargs):
    check(held() > 0, 'the shared record is only used under the lock')
    log('used')
    return DEFAULT


def d_locked():
    """Records shared between the threads are read and written under their lock only."""
    locks()
    for m in ('append', 'processes', 'process_names', '__getitem__', '__iter__'):
        stub('launch_testing.proc_info_handler.ProcInfoHandler.' + m, under_lock)
        stub('launch_testing.io_handler.IoHandler.' + m, under_lock)
    stub('launch_testing.io_handler.IoHandler.track', under_lock)
    which = pick('info', 'output')
    a = Process('alpha')
    h = ActiveProcInfoHandler() if which == 'info' else ActiveIoHandler()
    e = started(a) if which == 'info' else out(a, b'x')
    h.append(e)
    op = pick('append', 'iter', 'processes', 'names', 'item', 'missing', 'track', 'wait')
    if op == 'append':
        h.append(e)
    elif op == 'iter':
        for x in h:
            check(x is e, 'the event')
    elif op == 'processes':
        h.processes()
    elif op == 'names':
        h.process_names()
    elif op == 'item':
        h['alpha']
    elif op == 'missing':
        check(raised(KeyError, lambda: h['zeta']), 'missing')
    elif op == 'track':
        if which == 'output':
            h.track('other')
    elif which == 'info':
        h.assertWaitForStartup(pick('alpha', a), timeout=1)
    else:
        h.waitFor('x', pick('alpha', a), timeout=1, stream='stdout')
    check(held() == 0, 'no lock is left held')
    check(len(logs('used')) >= 1, 'the record was used')


def d_all_waiters_woken():
    """Whatever is recorded, every thread waiting for something is woken to look at it."""
    locks()
    a = Process('alpha')
    which = pick('info', 'output', 'track')
    h = ActiveProcInfoHandler() if which == 'info' else ActiveIoHandler()
    e = started(a) if which == 'info' else out(a, b'x')
    if which == 'track':
        h.track('alpha')
    else:
        h.append(e)
    check(len([n for n in logs('notify') if n[1] == 'all']) == 1, 'all waiting threads are woken')


def d_wait_condition_is_the_lock():
    """Tests can wait on the very condition that is notified."""
    locks()
    which = pick('info', 'output')
    h = ActiveProcInfoHandler() if which == 'info' else ActiveIoHandler()
    cond = h.proc_event if which == 'info' else h.io_event
    Watch.cond = cond
    stub('drv.lt.Lock.notify', notified)
    stub('drv.lt.Lock.notify_all', notified)
    a = Process('alpha')
    h.append(started(a) if which == 'info' else out(a, b'x'))
    check(len(logs('notified')) == 1, 'the condition handed out is notified')


class Watch:
    cond = None


def notified(self, *args):
    check(self is Watch.cond and self.held > 0, 'the condition handed out is notified')
    log('notified')


def d_wait_for_shutdown():
    """True once the process has exited, an AssertionError if it has not in time."""
    locks()
    h = ActiveProcInfoHandler()
    a, b = Process('alpha'), Process('beta')
    state = pick('unknown', 'started', 'exited')
    later = pick('nothing', 'starts', 'exits', 'other exits')
    if state != 'unknown':
        h.append(started(a))
    if state == 'exited':
        h.append(exited(a, 1))
    if later == 'starts':
        assume(state == 'unknown')
        Lock.meanwhile = lambda: h.append(started(a))
    elif later == 'exits':
        assume(state != 'exited')
        Lock.meanwhile = lambda: h.append(exited(a, 0))
    elif later == 'other exits':
        Lock.meanwhile = lambda: h.append(exited(b, 0))
    fine = state == 'exited' or later == 'exits'
    t = unknown('t', float)
    ask = pick(a, 'alpha', 'alp')
    failed = raised(AssertionError, lambda: h.assertWaitForShutdown(ask, timeout=t))
    check(failed == (not fine), 'it succeeds exactly when the process has exited')
    check(all(w is t for w in Lock.waits), 'waiting as long as asked')
    check((len(Lock.waits) == 0) == (state == 'exited'), 'without waiting when it already has')
    check(held() == 0, 'no lock is left held')


def d_wait_for_startup():
    locks()
    h = ActiveProcInfoHandler()
    a, b = Process('alpha'), Process('beta')
    state = pick('unknown', 'started', 'exited', 'other')
    later = pick('nothing', 'starts', 'other starts')
    if state in ('started', 'exited'):
        h.append(started(a))
    if state == 'exited':
        h.append(exited(a, 1))
    if state == 'other':
        h.append(started(b))
    if later == 'starts':
        Lock.meanwhile = lambda: h.append(started(a))
    elif later == 'other starts':
        Lock.meanwhile = lambda: h.append(started(b))
    fine = state in ('started', 'exited') or later == 'starts'
    t = unknown('t', float)
    ask = pick(a, 'alpha')
    failed = raised(AssertionError, lambda: h.assertWaitForStartup(ask, timeout=t))
    check(failed == (not fine), 'it succeeds exactly when the process has started')
    check(all(w is t for w in Lock.waits), 'waiting as long as asked')
    check(held() == 0, 'no lock is left held')


def d_wait_arguments():
    """Processes of one name are told apart by their arguments; an ambiguous name is an error."""
    locks()
    h = ActiveProcInfoHandler()
    a, b = Process('node', ['-x', 'one']), Process('node', ['-x', 'two'])
    h.append(started(a))
    h.append(started(b))
    gone = pick(a, b)
    h.append(exited(gone))
    for p, args in ((a, 'one'), (b, 'two')):
        ok = not raised(AssertionError, lambda: h.assertWaitForShutdown(
            'node', cmd_args=args, timeout=1))
        check(ok == (gone is p), 'the process with those arguments')
        check(not raised(AssertionError, lambda: h.assertWaitForStartup(
            'node', cmd_args=[args, '-x'], timeout=1)), 'it has started')
    for f in (h.assertWaitForShutdown, h.assertWaitForStartup):
        check(raised(Exception, lambda: f('node', timeout=1)), 'an ambiguous name is refused')
    check(held() == 0, 'no lock is left held')


def d_wait_for_output():
    """True once the text has been output by a matching process on that stream, else False."""
    locks()
    h = ActiveIoHandler()
    a, b = Process('alpha'), Process('beta')
    stream = pick('stdout', 'stderr')
    make, other = (out, err) if stream == 'stdout' else (err, out)
    have = pick('nothing', 'half', 'all', 'other stream', 'other process')
    later = pick('nothing', 'rest', 'other process')
    h.append(make(a, b'-'))
    if have == 'half':
        h.append(make(a, b'he'))
    elif have == 'all':
        h.append(make(a, b'say hello you'))
    elif have == 'other stream':
        h.append(other(a, b'hello'))
    elif have == 'other process':
        h.append(make(b, b'hello'))
    if later == 'rest':
        Lock.meanwhile = lambda: h.append(make(a, b'llo'))
    elif later == 'other process':
        Lock.meanwhile = lambda: h.append(make(b, b'llo'))
    fine = have == 'all' or (have == 'half' and later == 'rest')
    t = unknown('t', float)
    ask = pick(a, 'alpha')
    got = h.waitFor('hello', ask, timeout=t, stream=stream)
    check(bool(got) == fine, 'exactly when that process has output it')
    check(all(w is t for w in Lock.waits), 'waiting as long as asked')
    check(held() == 0, 'no lock is left held')
    Lock.meanwhile = None
    check(raised(AssertionError, lambda: h.assertWaitFor(
        'hello', ask, timeout=t, stream=stream)) == (not fine), 'or an AssertionError')


def d_wait_options():
    """What is waited for, and in whose output, is decided as when asserting afterwards."""
    locks()
    h = ActiveIoHandler()
    a, b = Process('node-1', ['x', 'one']), Process('node-2', ['x', 'two'])
    h.append(err(a, b'he\x1b[31mll\x1b[0mo'))
    h.append(err(b, b'bye'))
    options = pick({}, {'strip_ansi_escape_sequences': False}, {'output_filter': lambda t: t.upper()})
    strict = pick(None, True, False)
    if strict is not None:
        options['strict_proc_matching'] = strict
    args = pick(None, 'one', ['x', 'two'], 'x')
    text = pick('hello', 'HELLO', 'he\x1b[31mll', 'bye')
    got = outcome(lambda: h.waitFor(text, 'node', args, timeout=1, **options))
    late = outcome(lambda: assertInStderr(h, text, 'node', args, **options))
    if args in (None, 'x') and strict is not False:
        check(got[0] == 'raise', 'an ambiguous name is refused')
    else:
        check(got[0] == 'ok', 'no error')
        check(bool(got[1]) is (late[0] == 'ok'), 'the same')


def d_wait_for_any_output():
    """Without a process, the output of any counts."""
    locks()
    h = ActiveIoHandler()
    a, b = Process('alpha'), Process('beta')
    h.append(err(a, b'first'))
    Lock.meanwhile = lambda: h.append(err(b, b'then'))
    check(bool(h.waitFor('then', timeout=1)), 'found')
    check(not h.waitFor('other', timeout=1), 'not found')


def d_wait_no_such_process():
    """A name that matches no process at all is not just a timeout."""
    locks()
    h = ActiveIoHandler()
    if pick(True, False):
        h.append(err(Process('beta'), b'x'))
    Lock.meanwhile = pick(None, lambda: h.append(err(Process('gamma'), b'x')))
    check(raised(Exception, lambda: h.waitFor('x', 'alpha', timeout=1)), 'an error')
    check(held() == 0, 'no lock is left held')


def d_wait_split_characters():
    """A character that arrives in two parts does not disturb waiting."""
    locks()
    h = ActiveIoHandler()
    a = Process('alpha')
    h.append(err(a, b'gr\xc3'))
    Lock.meanwhile = lambda: h.append(err(a, b'\xbcn'))
    check(bool(h.waitFor('gr\xfcn', a, timeout=1)), 'found once complete')


# ---------------------------------------------------------------- process proxies

def d_proxy_state():
    """Running from its start to its end, then terminated with its exit code."""
    locks()
    info, io = ActiveProcInfoHandler(), ActiveIoHandler()
    a, b = Process('alpha'), Process('beta')
    proxy = ProcessProxy(a, info, io)
    info.append(started(b))
    check(not proxy.running and not proxy.terminated, 'not started')
    info.append(started(a))
    check(proxy.running is True and proxy.terminated is False, 'running')
    info.append(exited(b, 4))
    check(proxy.running is True and proxy.terminated is False, 'running')
    info.append(exited(a, 3))
    check(proxy.running is False and proxy.terminated is True, 'terminated')
    check(proxy.exit_code == 3, 'its exit code')
    check(proxy.target_process_action is a, 'its action')
    info.append(started(a))
    check(proxy.running is True and proxy.terminated is False, 'running again')
    check(held() == 0, 'no lock is left held')


def d_proxy_output():
    """Its output of each stream, or of both as it came, filtered as asked."""
    locks()
    info, io = ActiveProcInfoHandler(), ActiveIoHandler()
    a, b = Process('alpha'), Process('beta')
    filtered = pick(True, False)
    kwargs = {'output_filter': lambda t: t.upper()} if filtered else {}
    proxy = ProcessProxy(a, info, io, **kwargs)
    info.append(started(a))
    io.track('alpha')
    check(proxy.output == '' and proxy.stdout == '' and proxy.stderr == '', 'none yet')
    for e in (out(a, b'a\xc3'), out(b, b'x'), out(a, b'\xa4b'), err(a, b'c')):
        io.append(e)
    expect = ('a\xe4b', 'c', 'a\xe4bc')
    if pick(True, False):
        # bytes that are no text
        io.append(out(a, b'\xff'))
        io.append(err(a, b'\xff'))
        check(proxy.stdout.lower().startswith('a\xe4b') and len(proxy.stdout) > 3, 'stdout')
        check(proxy.stderr.lower().startswith('c') and len(proxy.stderr) > 1, 'stderr')
        check(proxy.output.lower().startswith('a\xe4bc') and len(proxy.output) > 5, 'both')
        return
    got = (proxy.stdout, proxy.stderr, proxy.output)
    if filtered:
        expect = tuple(t.upper() for t in expect)
    check(got == expect, 'what it printed')
    check(held() == 0, 'no lock is left held')


def d_proxy_wait_output():
    """True once the condition holds of the output of the running process, else false in time."""
    locks()
    info, io = ActiveProcInfoHandler(), ActiveIoHandler()
    a = Process('alpha')
    proxy = ProcessProxy(a, info, io)
    running = pick(True, False)
    if running:
        info.append(started(a))
    io.track('alpha')
    have = pick(True, False)
    later = pick(True, False)
    if have:
        io.append(out(a, b'hel'))
    if later:
        Lock.meanwhile = lambda: io.append(err(a, b'lo'))
    t = unknown('t', float)
    cond = pick(None, lambda text: 'hello' in text, lambda text: text.find('lo') + 1)
    got = proxy.wait_for_output(cond, timeout=t)
    text = ('hel' if have else '') + ('lo' if later else '')
    if cond is None:
        fine = running
    elif cond('xlo'):
        fine = running and later
    else:
        fine = running and have and later
    check(bool(got) is fine, 'exactly when the condition holds')
    check(all(w is t for w in Lock.waits), 'waiting as long as asked')
    check(held() == 0, 'no lock is left held')
    check(raised(TypeError, lambda: proxy.wait_for_output('text')), 'a condition is a function')


def d_proxy_wait_shutdown():
    locks()
    info, io = ActiveProcInfoHandler(), ActiveIoHandler()
    a, b = Process('alpha'), Process('beta')
    proxy = ProcessProxy(a, info, io)
    state = pick('unknown', 'running', 'gone')
    if state != 'unknown':
        info.append(started(a))
    if state == 'gone':
        info.append(exited(a, 1))
    later = pick('nothing', 'exits', 'other exits')
    if later == 'exits':
        Lock.meanwhile = lambda: info.append(exited(a, 1))
    elif later == 'other exits':
        Lock.meanwhile = lambda: info.append(exited(b, 1))
    t = unknown('t', float)
    got = proxy.wait_for_shutdown(timeout=t)
    check(bool(got) == (state == 'gone' or later == 'exits'), 'exactly when it has exited')
    check(all(w is t for w in Lock.waits), 'waiting as long as asked')
    check(held() == 0, 'no lock is left held')


def d_proxy_misused():
    info, io = ActiveProcInfoHandler(), ActiveIoHandler()
    a = Process('alpha')
    for args, kwargs in ((('alpha', info, io), {}), ((a, ProcInfoHandler(), io), {}),
                         ((a, info, IoHandler()), {}), ((a, info, io), {'output_filter': 'x'})):
        check(raised(TypeError, lambda: ProcessProxy(*args, **kwargs)), 'refused')


class Service:

    def emit_event(self, event):
        log('emitted', event)


def d_launch_process():
    """The process is started on entering, and shut down on leaving unless it has ended."""
    locks()
    info, io = ActiveProcInfoHandler(), ActiveIoHandler()
    a = Process('alpha')
    end = pick('running', 'exited', 'error', 'error after exit', 'never started')
    kwargs = {'output_filter': lambda t: 'f' + t} if pick(True, False) else {}
    try:
        with launch_process(Service(), a, info, io, **kwargs) as proxy:
            check(len(logs('emitted')) == 1, 'started at once')
            event = logs('emitted')[0][1]
            check(isinstance(event, IncludeLaunchDescription), 'by including it')
            check(list(event.launch_description.entities) == [a], 'that action alone')
            check(proxy.target_process_action is a, 'a proxy of it')
            if end != 'never started':
                info.append(started(a))
                io.append(out(a, b'x'))
                check(proxy.running and proxy.stdout == ('fx' if kwargs else 'x'), 'a working one')
            if end in ('exited', 'error after exit'):
                info.append(exited(a, 0))
            if end.startswith('error'):
                raise ValueError('test')
        check(not end.startswith('error'), 'errors are not hidden')
    except ValueError:
        check(end.startswith('error'), 'only those')
    rest = [e[1] for e in logs('emitted')][1:]
    if end in ('exited', 'error after exit'):
        check(rest == [], 'it has ended')
    else:
        check(len(rest) == 1 and isinstance(rest[0], ShutdownProcess), 'it is shut down')
        check(rest[0].process_matcher(a) and not rest[0].process_matcher(Process('b')), 'that process')


def d_launch_process_misused():
    check(raised(TypeError, lambda: launch_it('alpha')), 'refused')
    check(len(logs('emitted')) == 0, 'nothing is started')


def launch_it(action):
    with launch_process(Service(), action, ActiveProcInfoHandler(), ActiveIoHandler()):
        pass
