"""Conditions: exactly the documented spellings, evaluated each time they are asked."""
import warnings

from launch import Condition
from launch import Substitution
from launch.conditions import IfCondition
from launch.conditions import InvalidConditionExpressionError
from launch.conditions import LaunchConfigurationEquals
from launch.conditions import LaunchConfigurationNotEquals
from launch.conditions import UnlessCondition
from launch.conditions import evaluate_condition_expression
from launch.substitutions import LaunchConfiguration
from launch.substitutions import TextSubstitution

from drv.fe import *

TRUE = ('true', 'True', 'TRUE', 'tRuE', '1', ' true ', '1\n', '\ttrue')
FALSE = ('false', 'False', 'FALSE', '0', ' 0', 'false\n')
NEITHER = ('', ' ', 'yes', 'no', 'on', 'off', 't', 'f', 'y', 'n', '2', '-1', '01', '10', '0.0', '1.0',
           'truetrue', 'true1', 'true,1', 'tru', 'rue', 'alse', "'true'", 'none', 'None', 'not false', '00', '11')


def asked(cls, c, text):
    return outcome(cls(text).evaluate, c)


def d_if():
    """If: true and 1 hold, false and 0 do not, whatever the case and the surrounding space."""
    c = make_context()
    holds = pick(True, False)
    text = pick(*TRUE) if holds else pick(*FALSE)
    r = asked(IfCondition, c, text)
    check(r[0] == 'ok', 'no error')
    check(r[1] is holds, 'its truth')


def d_unless():
    """Unless: exactly the opposite."""
    c = make_context()
    holds = pick(True, False)
    text = pick(*TRUE) if holds else pick(*FALSE)
    r = asked(UnlessCondition, c, text)
    check(r[0] == 'ok', 'no error')
    check(r[1] is (not holds), 'its opposite')


def d_neither():
    """Any other text is an error, never silently true or false."""
    c = make_context()
    cls = pick(IfCondition, UnlessCondition)
    r = asked(cls, c, pick(*NEITHER))
    check(r[0] == 'raise', 'an error')
    check(isinstance(r[1], InvalidConditionExpressionError), 'the documented error')
    check(isinstance(r[1], ValueError), 'which is a value error')


def d_expression():
    """The parts of the expression are put together before they are judged."""
    c = make_context()
    c.launch_configurations['x'] = pick('true', 'tr', '')
    r = outcome(IfCondition([LaunchConfiguration('x'), 'ue']).evaluate, c)
    if c.launch_configurations['x'] == 'tr':
        check(r[0] == 'ok' and r[1] is True, 'as one text')
    else:
        check(r[0] == 'raise', 'as one text, which is neither')


def d_each_time():
    """A condition is evaluated where and when it is asked, each time."""
    cls = pick(IfCondition, UnlessCondition)
    cond = cls(LaunchConfiguration('x'))
    c, other = make_context(), make_context()
    other.launch_configurations['x'] = 'true'
    r = outcome(cond.evaluate, c)
    check(r[0] == 'raise', 'not before the value is known')
    for text, holds in (('true', True), ('false', False), ('1', True)):
        c.launch_configurations['x'] = text
        check(cond.evaluate(c) is (holds if cls is IfCondition else not holds), 'the value of now')
    c.launch_configurations['x'] = 'false'
    check(cond.evaluate(other) is (cls is IfCondition), 'the value of this context')


def d_failing():
    """An error of a substitution is an error of the condition."""
    c = make_context()

    class Failing(Substitution):
        def perform(self, context):
            raise UserError('x')
    r = outcome(pick(IfCondition, UnlessCondition)(Failing()).evaluate, c)
    check(r[0] == 'raise' and isinstance(r[1], UserError), 'that error')


def d_function():
    """A condition made from a function asks it, with the context."""
    c = make_context()
    answer = pick(True, False)
    seen = []

    def predicate(context):
        seen.append(context)
        return answer
    cond = Condition(predicate=predicate)
    check(seen == [], 'not at construction')
    check(cond.evaluate(c) is answer, 'its answer')
    check(len(seen) == 1 and seen[0] is c, 'asked once, with the context')


def d_no_function():
    """A condition without a function is false."""
    check(Condition().evaluate(make_context()) is False, 'false')


def d_configuration():
    """Comparing a configuration: equal text, or not set for None; not equals is the opposite."""
    c = make_context()
    has_ = pick(None, '', 'a', 'b', 'None')
    expected = pick(None, '', 'a', ['a', TextSubstitution(text='')], 'None')
    text = 'a' if isinstance(expected, list) else expected
    if has_ is not None:
        c.launch_configurations['x'] = has_
    c.launch_configurations['y'] = 'a'
    want = has_ == text
    check(LaunchConfigurationEquals('x', expected).evaluate(c) is want, 'equal')
    check(LaunchConfigurationNotEquals('x', expected).evaluate(c) is (not want), 'not equal')


def d_configuration_late():
    """The expected value is evaluated when the condition is asked."""
    c = make_context()
    cond = LaunchConfigurationEquals('x', LaunchConfiguration('y'))
    c.launch_configurations['x'] = 'v'
    c.launch_configurations['y'] = pick('v', 'w')
    check(cond.evaluate(c) is (c.launch_configurations['y'] == 'v'), 'the value of now')


def d_in_file():
    """In a launch file an action runs if `if` holds, or if `unless` does not; not both are allowed."""
    parser = frontend()
    c = make_context()
    kind_ = pick('xml', 'yaml')
    attr = pick('if', 'unless')
    text = pick('true', 'false', '$(var x)', '$(not $(var x))')
    value = pick('true', 'false')
    c.launch_configurations['x'] = value
    holds = {'true': True, 'false': False, '$(var x)': value == 'true',
             '$(not $(var x))': value == 'false'}[text]
    action = parser.parse_action(entity(kind_, ('let', {'name': 'done', 'value': 'yes', attr: text})))
    action.visit(c)
    check(('done' in c.launch_configurations) is (holds if attr == 'if' else not holds), 'exactly then')


def d_in_file_empty():
    """An empty condition is not one, and counts as given."""
    parser = frontend()
    c = make_context()
    kind_ = pick('xml', 'yaml')
    attr, other = pick(('if', 'unless'), ('unless', 'if'))
    attrs = {'name': 'done', 'value': 'yes', attr: pick('', ' ', '$(var x)')}
    c.launch_configurations['x'] = ''
    if pick(True, False):
        attrs[other] = 'true'
    r = outcome(lambda: parser.parse_action(entity(kind_, ('let', attrs))).visit(c))
    check(r[0] == 'raise', 'refused')
    check('done' not in c.launch_configurations, 'nothing is done')


def d_in_file_both():
    """Giving both is refused."""
    parser = frontend()
    r = outcome(parser.parse_action, entity(pick('xml', 'yaml'), (
        'let', {'name': 'done', 'value': 'yes', 'if': 'true', 'unless': pick('true', 'false')})))
    check(r[0] == 'raise', 'refused')


def d_configuration_exact():
    """Configurations are compared exactly; both comparisons are truth values, whatever is there."""
    c = make_context()
    has_ = pick(None, 'a', 'A', ' a', 'a ', 'true', '1', '1.0', 'None')
    expected = pick(None, 'a', 'A', 'True', 'true', '1', 'none')
    if has_ is not None:
        c.launch_configurations['x'] = has_
    want = has_ == expected
    check(LaunchConfigurationEquals('x', expected).evaluate(c) is want, 'exactly equal')
    check(LaunchConfigurationNotEquals('x', expected).evaluate(c) is (not want), 'not exactly equal')


def d_configuration_any():
    """A configuration of any text equals that text and nothing else."""
    c = make_context()
    has_, expected = unknown('has', str), unknown('expected', str)
    c.launch_configurations['x'] = has_
    check(LaunchConfigurationEquals('x', expected).evaluate(c) == (has_ == expected), 'equal')
    check(LaunchConfigurationNotEquals('x', expected).evaluate(c) == (has_ != expected), 'not equal')
    check(LaunchConfigurationEquals('x', None).evaluate(c) is False, 'it is set')
    check(LaunchConfigurationEquals('y', expected).evaluate(c) is False, 'it is not set')


def d_configuration_each_time():
    """Both sides of the comparison are those of the time it is asked, each time."""
    cls = pick(LaunchConfigurationEquals, LaunchConfigurationNotEquals)
    cond = cls('x', LaunchConfiguration('y'))
    fixed = cls('x', 'v')
    c, other = make_context(), make_context()
    equal = cls is LaunchConfigurationEquals
    for x, y in (('v', 'v'), ('v', 'w'), ('w', 'w'), ('w', 'v')):
        c.launch_configurations['x'] = x
        c.launch_configurations['y'] = y
        other.launch_configurations['x'] = y
        other.launch_configurations['y'] = y
        check(cond.evaluate(c) is ((x == y) is equal), 'the values of now')
        check(fixed.evaluate(c) is ((x == 'v') is equal), 'the value of now')
        check(cond.evaluate(other) is equal, 'of this context')


def d_case_and_space():
    """Text around a truth value is not ignored, except blanks; nor is text between its letters."""
    c = make_context()
    cls = pick(IfCondition, UnlessCondition)
    before, word, after = pick('', ' ', '\n', '-', '0', '"'), pick('true', 'False', '1', '0'), pick('', '\t', '.', 'x')
    r = asked(cls, c, before + word + after)
    if before.strip() == '' and after.strip() == '':
        check(r == ('ok', (word in ('true', '1')) is (cls is IfCondition)), 'its truth')
    elif before == '0' and word in '10':
        check(r[0] == 'raise', 'numbers are no truth values')
    else:
        check(r[0] == 'raise' and isinstance(r[1], InvalidConditionExpressionError), 'an error')


def d_each_asks_once():
    """Each question evaluates each part of the expression once, in order."""
    c = make_context()
    cond = pick(IfCondition, UnlessCondition)([Said('a', 'tr'), Said('b', 'ue')])
    check(logs('said') == [], 'not at construction')
    cond.describe()
    check(logs('said') == [], 'not for a description')
    cond.evaluate(c)
    check([x[1] for x in logs('said')] == ['a', 'b'], 'once')
    cond.evaluate(c)
    check([x[1] for x in logs('said')] == ['a', 'b'] * 2, 'again')


class Said(Substitution):
    def __init__(self, tag, text):
        super().__init__()
        self.tag = tag
        self.text = text

    def perform(self, context):
        log('said', self.tag)
        return self.text

    def describe(self):
        return self.tag


def d_conditional_action():
    """An action with a condition runs exactly if it holds when the action is visited."""
    c = make_context()
    cls = pick(IfCondition, UnlessCondition)
    a = Probe('a', condition=cls(LaunchConfiguration('x')))
    want = []
    for text in ('true', 'false', '1', 'no'):
        c.launch_configurations['x'] = text
        r = outcome(a.visit, c)
        check((r[0] == 'raise') is (text == 'no'), 'nonsense is an error')
        if text != 'no' and (text != 'false') is (cls is IfCondition):
            want.append('a')
        check(len(logs('execute')) == len(want), 'run exactly then')
