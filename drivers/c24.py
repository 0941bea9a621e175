"""Typed values: text becomes a value of the type asked for, exactly, or is refused."""
from typing import List

from launch.substitutions import LaunchConfiguration
from launch.substitutions import TextSubstitution
from launch.utilities import perform_substitutions
from launch.utilities.type_utils import coerce_list
from launch.utilities.type_utils import coerce_to_type
from launch.utilities.type_utils import extract_type
from launch.utilities.type_utils import get_typed_value
from launch.utilities.type_utils import is_instance_of
from launch.utilities.type_utils import is_instance_of_valid_type
from launch.utilities.type_utils import is_normalized_substitution
from launch.utilities.type_utils import is_substitution
from launch.utilities.type_utils import is_typing_list
from launch.utilities.type_utils import normalize_typed_substitution
from launch.utilities.type_utils import perform_typed_substitution

from drv.env import *

# text, type, value
GOOD = (
    ('3', int, 3), ('-3', int, -3), ('0', int, 0), ('007', int, 7), ('1.5', float, 1.5), ('3', float, 3.0),
    ('-0.25', float, -0.25), ('1e3', float, 1000.0), ('.5', float, 0.5), ('5.', float, 5.0),
    ('true', bool, True), ('True', bool, True), ('TRUE', bool, True), ('yes', bool, True), ('on', bool, True),
    ('1', bool, True), ('false', bool, False), ('False', bool, False), ('no', bool, False), ('off', bool, False),
    ('0', bool, False), ('a', str, 'a'), ('', str, ''), ('3', str, '3'), ('true', str, 'true'), ('[1]', str, '[1]'),
    (' a ', str, ' a '), ("'a'", str, "'a'"), ('null', str, 'null'),
    ('[1, 2]', List[int], [1, 2]), ('[]', List[int], []), ('[-1]', List[int], [-1]), ('[]', List[str], []),
    ('[1.5, 2.5]', List[float], [1.5, 2.5]), ('[true, no]', List[bool], [True, False]),
    ('[a, b c]', List[str], ['a', 'b c']), ("['1', '2']", List[str], ['1', '2']), ("['']", List[str], ['']),
    ('3', None, 3), ('1.5', None, 1.5), ('true', None, True), ('no', None, False), ('a', None, 'a'), ('', None, ''),
    ("'3'", None, '3'), ('"true"', None, 'true'), ('[1, 2]', None, [1, 2]), ('[a, b]', None, ['a', 'b']),
    ('[true]', None, [True]), ('[]', None, []), ('a b', None, 'a b'), ('1 2', None, '1 2'))
BAD = (
    ('a', int), ('', int), ('1.5', int), ('true', int), ('1 2', int), ('[1]', int), ('0x', int), ('a', float), ('', float),
    ('1,5', float), ('true', float), ('a', bool), ('', bool), ('2', bool), ('-1', bool), ('1.0', bool), ('10', bool),
    ('null', bool), ('[true]', bool), ("'true'", bool), ('truefalse', bool), ('00', bool), ('tRue', bool),
    ('1', List[int]), ('', List[int]), ('[1, a]', List[int]), ('[1.5]', List[int]), ('[a]', List[int]),
    ("['1']", List[int]), ('[1]', List[float]), ('[1.5, a]', List[float]), ('[1]', List[bool]), ('[1]', List[str]),
    ('[true]', List[str]), ('[a, 1]', List[str]), ('a', List[str]), ('[a', List[str]), ('{a: 1}', List[str]), ('null', List[str]),
    ('[[1]]', List[int]), ('[a', None), ('{a: b}', None), ('null', None), ('~', None), ('[1, a]', None), ('[1, true]', None),
    ('[true, 1]', None), ('[1, 1.5]', None), ('[[1]]', None), ('[null]', None), ('2020-01-01', None), ('a: b', None),
    ('3.0', int), ('1e3', int), ('3.0', List[int]), ('y', bool), ('n', bool), (' 1', bool), ('1 ', bool), ('01', bool),
    (' ', None), ('\n', None), (' ', int), (' ', bool), (' ', float), ('1 # one', int), ('# none', None))


def same(got, want):
    if type(got) is not type(want):
        return False
    if isinstance(want, list):
        return got == want and [type(x) for x in got] == [type(x) for x in want]
    return got == want


def d_good():
    """A text of the type becomes the value, of exactly that type."""
    text, type_, want = pick(*GOOD)
    r = outcome(coerce_to_type, text, type_)
    check(r[0] == 'ok', 'accepted')
    check(same(r[1], want), 'the value')
    check(same(get_typed_value(text, type_), want), 'the same')


def d_bad():
    """Any other text is a ValueError."""
    text, type_ = pick(*BAD)
    r = outcome(pick(coerce_to_type, get_typed_value), text, type_)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')


def d_good_or_text():
    """Where a text may stand for the value a text of the type still becomes the value."""
    text, type_, want = pick(*GOOD)
    r = outcome(pick(coerce_to_type, get_typed_value), text, type_, can_be_str=True)
    check(r[0] == 'ok' and same(r[1], want), 'the value')


def d_text():
    """Where a text may stand for the value other texts are kept, also in lists."""
    text, type_, want = pick(
        ('$(var x)', int, '$(var x)'), ('$(var x)', float, '$(var x)'), ('$(var x)', bool, '$(var x)'), ('a', int, 'a'),
        ('', int, ''), ('', float, ''), ('', bool, ''), ('[1, $(var x)]', List[int], [1, '$(var x)']),
        ('[$(var x), true]', List[bool], ['$(var x)', True]), ('[1, a]', None, [1, 'a']), ('[a', None, '[a'),
        ('[$(var x)]', List[float], ['$(var x)']), ('a: b: c', bool, 'a: b: c'))
    r = outcome(pick(coerce_to_type, get_typed_value), text, type_, can_be_str=True)
    check(r[0] == 'ok' and same(r[1], want), 'kept')


def d_text_bad():
    """But nothing of another type."""
    text, type_ = pick(('[1, 1.5]', List[int]), ('[true, 1.5]', List[bool]), ('2', bool), ('[true]', bool), ('1', List[int]),
                       ('{a: b}', None), ('null', None), ('[a, 1.5]', List[int]), ('[a, 1]', List[bool]), ('[a, b, 1]', List[float]), ('[1, 1.5, a]', None), ('[1, true, a]', None), ('{a: 1}', List[int]))
    r = outcome(pick(coerce_to_type, get_typed_value), text, type_, can_be_str=True)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')


def d_no_text():
    """What is no text cannot be coerced; an invalid type is an error."""
    r = outcome(coerce_to_type, pick(3, None, True, ['1'], 1.5), pick(int, str, None))
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'only texts')
    r = outcome(coerce_to_type, '3', pick(dict, List[dict], bytes, List[List[int]], LaunchConfiguration, List))
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'only these types')


def d_list():
    """A list of texts becomes a list of values, one for one; all have to be of the type."""
    words, type_, want = pick(
        (['1', '2'], int, [1, 2]), (['1', '2'], float, [1.0, 2.0]), (['1', 'false'], bool, [True, False]), ([], int, []),
        (['1', 'a'], str, ['1', 'a']), (['1', '2'], None, [1, 2]), (['a', 'b'], None, ['a', 'b']), (['1', 'a'], int, None),
        (['1', 'a'], None, None), (['1', '1.5'], None, None), (['true', '1'], None, None), (['1', 'true'], None, None),
        (['x'], bool, None), ([''], None, ['']))
    r = outcome(coerce_list, words, type_)
    if want is None:
        check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')
    else:
        check(r[0] == 'ok' and same(r[1], want), 'the values')
    r = outcome(get_typed_value, words, None if type_ is None else List[type_])
    if want is None:
        check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')
    else:
        check(r[0] == 'ok' and same(r[1], want), 'the same')


def d_list_text():
    """In lists texts are kept where they may stand for a value."""
    words, type_, want = pick((['1', '$(x)'], int, [1, '$(x)']), (['$(x)', 'true'], bool, ['$(x)', True]),
                              (['1', 'a'], None, [1, 'a']), (['1', '1.5', 'a'], None, None), (['1', 'true'], None, None))
    r = outcome(coerce_list, words, type_, can_be_str=True)
    if want is None:
        check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')
    else:
        check(r[0] == 'ok' and same(r[1], want), 'kept')


def d_list_no():
    """A list where a single value is needed, or no list of texts, is a TypeError."""
    r = outcome(get_typed_value, ['1'], pick(int, str, bool, float))
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')
    r = outcome(coerce_list, pick('1', ('1',), [1], None), int)
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def d_instance():
    """Being of a type."""
    value, type_, want = pick(
        (3, int, True), (3, str, False), (3, float, False), (1.5, float, True), (1.5, int, False), (True, bool, True),
        (1, bool, False), ('a', str, True), ('3', int, False), (None, str, False), ([1], List[int], True), ([1], int, False),
        (1, List[int], False), ([], List[int], True), (['a'], List[str], True), (['a', 1], List[str], False),
        ([1, 'a'], List[int], False), ((1,), List[int], False), ({}, str, False), ([1.5], List[int], False),
        ([True], List[bool], True), ([1], List[bool], False))
    check(is_instance_of(value, type_) is want, 'exactly')


def d_instance_text():
    """Or a text, where that may be."""
    value, type_, want = pick(
        (3, int, True), ('a', int, True), ('a', bool, True), (1.5, int, False), ([1, 'a'], List[int], True), ('a', List[int], False),
        (['a', 'b'], List[float], True), ([1.5, 'a'], List[int], False), (None, int, False))
    check(is_instance_of(value, type_, can_be_str=True) is want, 'exactly')


def d_valid():
    """Valid are texts, numbers, booleans and uniform lists of those."""
    value, plain, text = pick(
        ('a', True, True), (3, True, True), (1.5, True, True), (True, True, True), (None, False, False), ({}, False, False),
        ((1,), False, False), ([], True, True), ([1, 2], True, True), (['a', 'b'], True, True), ([1, 'a'], False, True),
        (['a', 1], False, True), ([1, 1.5], False, False), ([1, 1.5, 'a'], False, False), ([1, True], False, False),
        ([True, 1], False, False), ([None], False, False), (['a', None], False, False), ([[1]], False, False), ([1.5, 2.5], True, True))
    check(is_instance_of_valid_type(value) is plain, 'exactly')
    check(is_instance_of(value) is plain, 'the same')
    check(is_instance_of_valid_type(value, can_be_str=True) is text, 'with texts')


def d_extract():
    """The type of the items, and whether it is a list."""
    type_, want = pick((int, (int, False)), (str, (str, False)), (bool, (bool, False)), (float, (float, False)),
                       (List[int], (int, True)), (List[str], (str, True)), (List[bool], (bool, True)), (List[float], (float, True)))
    check(extract_type(type_) == want, 'both')
    r = outcome(extract_type, pick(dict, List[dict], bytes, None))
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'others are refused')


def d_typing_list():
    """Lists of the typing module, with or without a type of the items."""
    type_, want = pick((List, True), (List[int], True), (List[str], True), (int, False), (str, False), (None, False), (dict, False))
    check(is_typing_list(type_) is want, 'exactly')


def lc(c, **values):
    for k, v in values.items():
        c.launch_configurations[k] = v


def d_is_substitution():
    """A substitution, or a list of substitutions and texts with at least one of the former."""
    s = LaunchConfiguration('x')
    value, want, normal = pick((s, True, False), ([s], True, True), (['a', s], True, False), ((s, 'a'), True, False),
                               (['a'], False, False), ([], False, False), ('a', False, False), (3, False, False),
                               ([s, 3], False, False), (None, False, False), ([[s]], False, False), ([s, s], True, True))
    check(bool(is_substitution(value)) is want, 'exactly')
    check(bool(is_normalized_substitution(value)) is normal, 'only substitutions')


def d_normal_value():
    """A value of the type stays what it is; another one is a TypeError."""
    value, type_, ok = pick(
        (3, int, True), ('a', str, True), (True, bool, True), (1.5, float, True), ('3', int, False), (3, str, False),
        (1.5, int, False), (3, None, True), ('a', None, True), ('a', List[str], False), (3, List[int], False), (3, bool, False))
    c = make_context()
    r = outcome(normalize_typed_substitution, value, type_)
    if ok:
        check(r[0] == 'ok' and same(r[1], value), 'itself')
        check(same(perform_typed_substitution(c, r[1], type_), value), 'also afterwards')
    else:
        check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def d_normal_substitution():
    """A substitution is evaluated as one text, which then becomes a value of the type."""
    c = make_context()
    text, type_, want = pick(('3', int, 3), ('true', bool, True), ('1.5', float, 1.5), ('a', str, 'a'), ('[1, 2]', List[int], [1, 2]),
                             ('3', None, 3), ('', str, ''), ('[a]', None, ['a']), ('3', str, '3'))
    lc(c, x=text, y=text[:1], z=text[1:])
    value = pick(LaunchConfiguration('x'), [LaunchConfiguration('x')], [LaunchConfiguration('y'), text[1:]],
                 [text[:1], LaunchConfiguration('z')], (LaunchConfiguration('y'), LaunchConfiguration('z')))
    n = normalize_typed_substitution(value, type_)
    check(same(perform_typed_substitution(c, n, type_), want), 'the value')


def d_normal_substitution_bad():
    """A text that is not of the type is a ValueError, when it is evaluated."""
    c = make_context()
    text, type_ = pick(('a', int), ('maybe', bool), ('2', bool), ('', int), ('1', List[int]), ('[1, a]', None), ('[1]', List[str]))
    lc(c, x=text)
    n = normalize_typed_substitution(LaunchConfiguration('x'), type_)
    r = outcome(perform_typed_substitution, c, n, type_)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')
    lc(c, x='1')
    if type_ in (int, bool):
        check(perform_typed_substitution(c, n, type_) == 1, 'it is evaluated each time')


def d_normal_list():
    """A list: the values and the evaluated substitutions, one for one, in order."""
    c = make_context()
    lc(c, x='3', y='true', w='a')
    x, y, w = LaunchConfiguration('x'), LaunchConfiguration('y'), LaunchConfiguration('w')
    value, type_, want = pick(
        ([1, x], List[int], [1, 3]), ([[x], 1, x], List[int], [3, 1, 3]), ([[x], [x]], List[int], [3, 3]), ([1.5, x], List[float], [1.5, 3.0]),
        ([True, y], List[bool], [True, True]), (['a', [w]], List[str], ['a', 'a']), ([[w, 'b'], 'c'], List[str], ['ab', 'c']),
        ([1, 2], List[int], [1, 2]), ([1, 2.5], List[float], [1.0, 2.5]), (['a', 'b'], List[str], ['a', 'b']), ([], List[int], []),
        ([], List[str], []), ((1, x), List[int], [1, 3]), ([1, x], None, [1, 3]), (['a', [w]], None, ['a', 'a']), ([[x], [y]], List[str], ['3', 'true']),
        ([[x]], List[str], ['3']), ([1, 2.5], None, [1.0, 2.5]), (['1', [w]], None, ['1', 'a']), (['1', 'a'], None, ['1', 'a']),
        (['true', 'x'], List[str], ['true', 'x']), (['1', [w], 'true'], List[str], ['1', 'a', 'true']))
    n = normalize_typed_substitution(value, type_)
    got = perform_typed_substitution(c, n, type_)
    check(same(got, want), 'in order')


def d_normal_list_bad():
    """A list that cannot become a list of the type is refused, at once if that is known."""
    x = LaunchConfiguration('x')
    value, type_ = pick(([1, 2], int), ([1], str), (['a', 'b'], List[int]), ([1, 2], List[str]), ([1.5], List[int]), ([True], List[int]),
                        ([1], List[bool]), ([1, 'a'], List[int]), ([1, True], None), ([1, 'a'], None), ([None], List[str]), ([[1]], List[int]),
                        (None, str), ({}, int), ([x, 1, 'a'], None), ([True, 1.5], None), ([1.5, [x], 'a'], List[float]), ([1], List[float]), ([1, x], List[float]), ([1, 2], List[float]))
    r = outcome(normalize_typed_substitution, value, type_)
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def d_normal_list_late():
    """What turns out to be of another type is a ValueError when it is evaluated."""
    c = make_context()
    lc(c, x='a', y='1', z='true')
    x, y, z = LaunchConfiguration('x'), LaunchConfiguration('y'), LaunchConfiguration('z')
    value, type_ = pick(([1, x], List[int]), ([True, x], List[bool]), ([[y], [x]], None), ([[z], [y]], None), ([[y], [z]], None),
                        ([[x], [y]], List[int]), ([1.5, z], List[float]), ([1, x], None))
    n = normalize_typed_substitution(value, type_)
    r = outcome(perform_typed_substitution, c, n, type_)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')


def d_perform_bad():
    """A normalized value performed with another type is refused."""
    c = make_context()
    value, type_, error = pick((3, str, TypeError), ('a', int, TypeError), ([1, 2], int, ValueError), ([1, 2], List[str], ValueError),
                               (None, str, TypeError), ({}, str, TypeError), ([1, 'a'], None, ValueError))
    r = outcome(perform_typed_substitution, c, value, type_)
    check(r[0] == 'raise' and isinstance(r[1], error), 'refused')
