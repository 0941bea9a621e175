"""An action runs exactly when its condition holds, and reports its completion once."""
from launch.event_handlers import OnExecutionComplete
from launch.events import ExecutionComplete

from drv.env import *


def watched(context, action):
    """Register a completion handler for the action, as a user would."""
    context.register_event_handler(
        OnExecutionComplete(target_action=action, on_completion=[Probe('done')]))


def d_no_condition():
    """An action without a condition is executed exactly once per visit and its entities returned."""
    c = make_context()
    sub = Probe('sub')
    a = Probe('a', subs=[sub])
    r = a.visit(c)
    check(logs('execute') == (('execute', 'a'),), 'executed exactly once')
    check(len(r) == 1 and r[0] is sub, 'the result of execute is returned')


def d_condition():
    """With a condition the action is executed iff the condition evaluates to true."""
    c = make_context()
    answer = unknown('answer', bool)
    a = Probe('a', subs=[Probe('sub')], condition=Flag(answer))
    r = a.visit(c)
    n = len(logs('execute'))
    check(len(logs('evaluate')) == 1, 'the condition is evaluated once')
    if answer:
        cover('executed')
        check(n == 1, 'condition true: executed')
        check(r is not None and len(r) == 1, 'condition true: the entities are returned')
    else:
        cover('skipped')
        check(n == 0, 'condition false: not executed')
        check(r is None or len(r) == 0, 'condition false: nothing is returned')


def d_condition_false_no_completion():
    """A skipped action emits no completion event; an executed one does."""
    c = make_context()
    answer = unknown('answer', bool)
    a = Probe('a', condition=Flag(answer))
    watched(c, a)
    a.visit(c)
    if answer:
        check(queued_kinds(c) == ['ExecutionComplete'], 'executed: one completion event')
    else:
        check(queued_kinds(c) == [], 'skipped: no completion event')


def d_completion_immediate():
    """Without a future the completion event of the action is emitted after its execution."""
    c = make_context()
    a = Probe('a')
    watched(c, a)
    a.visit(c)
    q = queued(c)
    check(len(q) == 1 and kind(q[0]) == 'ExecutionComplete', 'one completion event')
    check(q[0].action is a, 'it names the action')
    check([x[0] for x in logs('execute', 'enqueue')] == ['execute', 'enqueue'],
          'emitted after the execution')


def d_completion_failed():
    """The completion event is emitted although execute raised, and the exception propagates."""
    c = make_context()
    a = Probe('a', fails=True)
    watched(c, a)
    r = outcome(a.visit, c)
    check(r[0] == 'raise' and isinstance(r[1], UserError), 'the exception propagates')
    check(queued_kinds(c) == ['ExecutionComplete'], 'completion is still reported')


def d_completion_future():
    """With a future the completion event is emitted only once the future is done."""
    c = make_context()
    f = pin(new_future())
    a = Probe('a', future=f)
    watched(c, a)
    a.visit(c)
    check(queued_kinds(c) == [], 'nothing is emitted while the future is pending')
    end = pick('done', 'cancelled', 'failed')
    if end == 'cancelled':
        set_state(f, 'cancelled')
    elif end == 'failed':
        set_state(f, 'exception', UserError())
    else:
        set_state(f, 'done', None)
    fire(f)
    check(queued_kinds(c) == ['ExecutionComplete'], 'emitted once the future is done')
    check(queued(c)[0].action is a, 'it names the action')


def d_completion_unwatched():
    """Nobody would handle the completion: no event is emitted (it could keep the loop alive)."""
    c = make_context()
    a = Probe('a')
    a.visit(c)
    check(queued_kinds(c) == [], 'no event without a handler')


def d_completion_targets():
    """A completion handler of one action is not triggered by another action's completion."""
    c = make_context()
    a, b = Probe('a'), Probe('b')
    h = OnExecutionComplete(target_action=a, on_completion=[Probe('done')])
    check(h.matches(ExecutionComplete(action=a)), 'matches its own action')
    check(not h.matches(ExecutionComplete(action=b)), 'does not match another action')
    check(not h.matches(Ping()), 'does not match another event')
    every = OnExecutionComplete(on_completion=[Probe('done')])
    check(every.matches(ExecutionComplete(action=b)), 'without a target every completion matches')


def d_describe_conditional():
    """Sub entities are reported as conditional exactly when there is a condition."""
    a = Probe('a', subs=[Probe('s')])
    b = Probe('b', subs=[Probe('s')], condition=Flag(True))
    check(len(a.describe_sub_entities()) == 1, 'unconditional sub entities are listed')
    check(len(a.describe_conditional_sub_entities()) == 0, 'no conditional ones')
    check(len(b.describe_sub_entities()) == 0, 'none listed as unconditional')
    d = b.describe_conditional_sub_entities()
    check(len(d) == 1 and len(d[0][1]) == 1, 'listed as conditional')


def d_completion_any_time():
    """The completion is told whatever state the run is in by then: shut down, or with other handlers."""
    c = make_context()
    f = pin(new_future()) if pick(True, False) else None
    a = Probe('a', future=f)
    watched(c, a)
    when = pick('before', 'meanwhile', 'never')
    if when == 'before':
        c._set_is_shutdown(True)
    a.visit(c)
    if when == 'meanwhile':
        c._set_is_shutdown(True)
    if f is not None:
        check(queued(c) == [], 'not before the future is done')
        state = pick('done', 'cancelled', 'exception')
        set_state(f, state, {'done': None, 'cancelled': None, 'exception': UserError('x')}[state])
        fire(f)
    check(queued_kinds(c) == ['ExecutionComplete'], 'one completion event')
    check(queued(c)[0].action is a, 'of this action')


def d_completion_of_each_visit():
    """Each visit executes the action again and is told to be complete again."""
    c = make_context()
    a = Probe('a')
    watched(c, a)
    n = pick(1, 2, 3)
    for i in range(n):
        a.visit(c)
    check(len(logs('execute')) == n and queued_kinds(c) == ['ExecutionComplete'] * n, 'one of each per visit')


def d_condition_each_time():
    """The condition is asked anew at each visit, once."""
    c = make_context()

    class Changing(Condition):
        def __init__(self):
            super().__init__(predicate=lambda context: self.now(context))

        def now(self, context):
            log('asked', context)
            return want.pop(0)
    want = [pick(True, False), pick(True, False), pick(True, False)]
    all_ = list(want)
    a = Probe('a', condition=Changing())
    for i in range(3):
        a.visit(c)
        check(len(logs('asked')) == i + 1, 'once')
    check(len(logs('execute')) == len([x for x in all_ if x]), 'executed exactly then')
    check([x[1] is c for x in logs('asked')] == [True] * 3, 'in this context')
