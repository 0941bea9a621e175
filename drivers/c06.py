"""Scopes of a context: pushed state is restored exactly; locals shadow globals and are read-only."""
import os

from drv.env import *

from launch.event_handlers import OnShutdown


def d_launch_configurations_scope():
    """Whatever is done between push and pop, pop restores the configurations of the push."""
    c = make_context()
    a, b = unknown('a', str), unknown('b', str)
    c.launch_configurations['x'] = a
    c._push_launch_configurations()
    check(c.launch_configurations == {'x': a}, 'visible inside the scope')
    how = pick('set', 'del', 'clear', 'new')
    if how == 'set':
        c.launch_configurations['x'] = b
    elif how == 'del':
        del c.launch_configurations['x']
    elif how == 'clear':
        c.launch_configurations.clear()
    else:
        c.launch_configurations['y'] = b
    c._pop_launch_configurations()
    check(len(c.launch_configurations) == 1, 'nothing is added or lost')
    check(c.launch_configurations['x'] is a, 'the value is restored')


def d_environment_scope():
    """Whatever is done between push and pop, pop restores the environment of the push."""
    a, b = unknown('a', str), unknown('b', str)
    environ({'X': a})
    c = make_context()
    c._push_environment()
    check(c.environment['X'] is a, 'visible inside the scope')
    how = pick('set', 'del', 'clear', 'new')
    if how == 'set':
        c.environment['X'] = b
    elif how == 'del':
        del c.environment['X']
    elif how == 'clear':
        c.environment.clear()
    else:
        c.environment['Y'] = b
    check('X' in os.environ or how in ('del', 'clear'), 'the environment is that of the process')
    c._pop_environment()
    check(len(os.environ) == 1, 'nothing is added or lost')
    check(os.environ['X'] is a, 'the value is restored')
    check(c.environment['X'] is a, 'the context sees the restored value')


def d_locals_scope():
    """Pop of the locals restores the values of the push, also of reads cached in between."""
    c = make_context()
    a, b = unknown('a', str), unknown('b', str)
    c.extend_locals({'x': a})
    c._push_locals()
    check(c.locals.x is a, 'visible inside the scope')
    c.extend_locals({'x': b, 'y': b})
    check(c.locals.x is b, 'overridden inside the scope')
    check(c.locals.y is b, 'added inside the scope')
    c._pop_locals()
    check(c.locals.x is a, 'restored after the scope')
    check(not hasattr(c.locals, 'y'), 'additions are gone after the scope')
    check(c.get_locals_as_dict() == {'x': a}, 'as a dictionary too')


def d_nested():
    """Scopes nest: each pop restores the state of the matching push."""
    which = pick('launch_configurations', 'environment', 'locals')
    environ({})
    c = make_context()
    if which == 'launch_configurations':
        push, pop = c._push_launch_configurations, c._pop_launch_configurations
    elif which == 'environment':
        push, pop = c._push_environment, c._pop_environment
    else:
        push, pop = c._push_locals, c._pop_locals

    def put(value):
        if which == 'launch_configurations':
            c.launch_configurations['x'] = value
        elif which == 'environment':
            c.environment['x'] = value
        else:
            c.extend_locals({'x': value})

    def get():
        if which == 'launch_configurations':
            return c.launch_configurations.get('x')
        if which == 'environment':
            return c.environment.get('x')
        return c.get_locals_as_dict().get('x')

    a, b, d = unknown('a', str), unknown('b', str), unknown('d', str)
    put(a)
    push()
    put(b)
    push()
    put(d)
    check(get() is d, 'innermost value')
    pop()
    check(get() is b, 'first pop: value of the middle scope')
    push()
    put(d)
    pop()
    check(get() is b, 'a scope opened later does not disturb it')
    pop()
    check(get() is a, 'last pop: value of the outer scope')


def d_independent():
    """The three kinds of scope are independent of each other."""
    environ({'e': 'outer'})
    c = make_context()
    c.launch_configurations['l'] = 'outer'
    c.extend_locals({'v': 'outer'})
    push = pick('launch_configurations', 'environment', 'locals')
    if push == 'launch_configurations':
        c._push_launch_configurations()
    elif push == 'environment':
        c._push_environment()
    else:
        c._push_locals()
    c.launch_configurations['l'] = 'inner'
    c.environment['e'] = 'inner'
    c.extend_locals({'v': 'inner'})
    if push == 'launch_configurations':
        c._pop_launch_configurations()
    elif push == 'environment':
        c._pop_environment()
    else:
        c._pop_locals()
    check((c.launch_configurations['l'] == 'outer') is (push == 'launch_configurations'),
          'configurations are restored by their own pop only')
    check((c.environment['e'] == 'outer') is (push == 'environment'),
          'the environment is restored by its own pop only')
    check((c.locals.v == 'outer') is (push == 'locals'), 'locals are restored by their own pop only')


def d_contexts_independent():
    """Two contexts share no configuration, local, handler or queue."""
    a, b = make_context(), make_context()
    a.launch_configurations['x'] = '1'
    a.extend_locals({'y': '2'})
    a.extend_globals({'z': '3'})
    h = OnShutdown(on_shutdown=[])
    a.register_event_handler(h)
    a.emit_event_sync(Ping())
    a.add_completion_future(new_future())
    check(len(b.launch_configurations) == 0, 'configurations')
    check(len(b.get_locals_as_dict()) == 0, 'locals and globals')
    check(len(b._event_handlers) == 0, 'handlers')
    check(queued(b) == [], 'queue')
    check(len(b._completion_futures) == 0, 'futures')


def d_pop_empty():
    """A pop without a push is an error, never silently ignored."""
    environ({'X': 'x'})
    c = make_context()
    c.launch_configurations['x'] = 'v'
    which = pick('cfg', 'env', 'loc')
    if which == 'cfg':
        r = outcome(c._pop_launch_configurations)
    elif which == 'env':
        r = outcome(c._pop_environment)
    else:
        r = outcome(c._pop_locals)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'RuntimeError')
    check(c.launch_configurations == {'x': 'v'}, 'configurations are untouched')
    check(os.environ['X'] == 'x', 'the environment is untouched')


def d_reset_environment():
    """Reset restores the environment of the creation of the context, inside or outside scopes."""
    a = unknown('a', str)
    environ({'X': a})
    c = make_context()
    scoped = pick(False, True)
    if scoped:
        c._push_environment()
    c.environment['X'] = 'changed'
    c.environment['Y'] = 'new'
    c._reset_environment()
    check(len(os.environ) == 1 and os.environ['X'] is a, 'the environment of the creation')
    os.environ['Z'] = 'later'
    c._reset_environment()
    check(len(os.environ) == 1 and os.environ['X'] is a, 'a second reset gives the same')


def d_globals():
    """Locals shadow globals; popping locals leaves the globals; globals are permanent."""
    c = make_context()
    g, v, w = unknown('g', str), unknown('v', str), unknown('w', str)
    c.extend_globals({'k': g})
    check(c.locals.k is g, 'a global is visible')
    c._push_locals()
    c.extend_locals({'k': v})
    check(c.locals.k is v, 'shadowed by a local')
    c.extend_globals({'k': w, 'm': w})
    check(c.locals.k is v, 'a later global does not override the local')
    check(c.locals.m is w, 'a later global is visible at once')
    c._pop_locals()
    check(c.locals.k is w, 'after the scope the global is visible again')
    check(c.locals.m is w, 'globals survive the scope')


def d_locals_read_only():
    """Locals are read-only attributes; unknown names are an error."""
    c = make_context()
    c.extend_locals({'k': 1})

    def assign():
        c.locals.k = 2

    def missing():
        return c.locals.nope

    r = outcome(assign)
    check(r[0] == 'raise' and isinstance(r[1], AttributeError), 'assignment is refused')
    check(c.locals.k == 1, 'the value is unchanged')
    r = outcome(missing)
    check(r[0] == 'raise' and isinstance(r[1], AttributeError), 'unknown names are refused')


def d_handlers():
    """Handlers are offered events newest first, or last when appended; unregistering removes one."""
    c = make_context()
    a, b, d = (OnShutdown(on_shutdown=[]), OnShutdown(on_shutdown=[]), OnShutdown(on_shutdown=[]))
    c.register_event_handler(a)
    c.register_event_handler(b)
    c.register_event_handler(d, append=True)
    hs = list(c._event_handlers)
    check(len(hs) == 3 and hs[0] is b and hs[1] is a and hs[2] is d, 'order of the handlers')
    x = pick(a, b, d)
    c.unregister_event_handler(x)
    hs = list(c._event_handlers)
    check(len(hs) == 2 and all(h is not x for h in hs), 'exactly that one is removed')
    r = outcome(c.unregister_event_handler, x)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'it cannot be removed twice')


def d_emit():
    """Events emitted on the context are queued in order, each exactly once, by both ways."""
    c = make_context()
    e1, e2, e3 = Ping(), Ping(), Ping()
    c.emit_event_sync(e1)
    run(c.emit_event(e2))
    c.emit_event_sync(e3)
    q = queued(c)
    check(len(q) == 3 and q[0] is e1 and q[1] is e2 and q[2] is e3, 'queued in order')


def d_globals_scopes():
    """Globals are visible in every scope, right after it is entered or left, whatever was looked up before."""
    c = make_context()
    g, v, w = unknown('g', str), unknown('v', str), unknown('w', str)
    c.extend_globals({'g': g})
    if pick(True, False):
        c.extend_locals({'l': v})
        mine = {'g': g, 'l': v}
    else:
        mine = {'g': g}
    look(c, mine)
    for depth in range(pick(1, 2)):
        c._push_locals()
        look(c, mine)
    c.extend_globals({'h': w})
    look(c, {**mine, 'h': w})
    c.extend_locals({'l': w})
    look(c, {**mine, 'l': w, 'h': w})
    c._pop_locals()
    look(c, {**mine, 'h': w})
    d = c.get_locals_as_dict()
    c._push_locals()
    c.extend_locals({'n': w})
    c._pop_locals()
    look(c, {**mine, 'h': w})


def look(c, want):
    if pick(True, False):
        check(c.get_locals_as_dict() == want, 'exactly these')
    else:
        check([hasattr(c.locals, k) for k in ('g', 'h', 'l', 'n')] == [k in want for k in ('g', 'h', 'l', 'n')],
              'exactly these names')
        check([getattr(c.locals, k) for k in want] == list(want.values()), 'with these values')
