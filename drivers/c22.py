"""Launch files: what is accepted, what is refused; the two formats agree."""
from typing import List

from launch.frontend import Entity

from drv.fe import *

NV = {'name': 'n', 'value': 'v'}
# element: (required, optional, may have children)
SPEC = {
    'arg': ({'name': 'a'}, {'default': 'd', 'description': 'text', 'choice': [{'value': 'd'}, {'value': 'e'}]}, False),
    'let': (NV, {}, False),
    'set_env': (NV, {}, False),
    'unset_env': ({'name': 'n'}, {}, False),
    'append_env': (NV, {'prepend': True, 'separator': ';'}, False),
    'reset_env': ({}, {}, False),
    'reset': ({}, {'keep': [NV]}, False),
    'log': ({'message': 'm'}, {}, False),
    'shutdown': ({}, {'reason': 'r'}, False),
    'group': ({}, {'scoped': True, 'forwarding': False, 'keep': [NV]}, True),
    'timer': ({'period': 1.5}, {'cancel_on_shutdown': False}, True),
    'include': ({'file': 'f.py'}, {'arg': [NV]}, False),
    'executable': ({'cmd': 'ls'}, {
        'cwd': '/', 'name': 'n', 'launch-prefix': 'p', 'output': 'screen', 'respawn': 'true',
        'respawn_max_retries': 3, 'respawn_delay': 1.5, 'sigkill_timeout': 2.5, 'sigterm_timeout': 3.5,
        'shell': True, 'emulate_tty': False, 'on_exit': 'shutdown', 'env': [NV]}, False)}
CHILD = ('let', {'name': 'c', 'value': 'C'})


def node(name, attrs, children=None):
    if SPEC[name][2]:
        return (name, attrs, [] if children is None else children)
    return (name, attrs)


def parsed(attrs_of, name=None):
    name = name or pick(*sorted(SPEC))
    kind_ = pick('xml', 'yaml')
    return outcome(frontend().parse_action, entity(kind_, node(name, attrs_of(name))))


def d_complete():
    """Every element of a launch file with what it needs is accepted, with what it may have as well."""
    name = pick(*sorted(SPEC))
    required, optional, _ = SPEC[name]
    attrs = dict(required)
    if optional:
        which = pick(None, *sorted(optional))
        if which is not None:
            attrs[which] = optional[which]
    r = outcome(frontend().parse_action, entity(pick('xml', 'yaml'), node(name, attrs)))
    check(r[0] == 'ok', 'accepted')


def d_all():
    """All attributes of an element can be given together."""
    name = pick(*sorted(SPEC))
    r = outcome(frontend().parse_action, entity(pick('xml', 'yaml'), node(name, {**SPEC[name][0], **SPEC[name][1]})))
    check(r[0] == 'ok', 'accepted')


def d_missing():
    """An element without something it needs is refused."""
    name = pick(*[x for x in sorted(SPEC) if SPEC[x][0]])
    attrs = dict(SPEC[name][0])
    del attrs[pick(*sorted(attrs))]
    r = outcome(frontend().parse_action, entity(pick('xml', 'yaml'), node(name, attrs)))
    check(r[0] == 'raise', 'refused')


def d_unknown():
    """An attribute or a nested element that means nothing is refused, never ignored."""
    name = pick(*sorted(SPEC))
    attrs = dict(SPEC[name][0])
    attrs['nonsense'] = pick('text', [{'name': 'a'}])
    r = outcome(frontend().parse_action, entity(pick('xml', 'yaml'), node(name, attrs)))
    check(r[0] == 'raise', 'refused')


def d_case():
    """Names are to be written exactly."""
    name = pick(*[x for x in sorted(SPEC) if SPEC[x][0]])
    attrs = dict(SPEC[name][0])
    which = sorted(attrs)[0]
    attrs[which.upper()] = attrs[which]
    r = outcome(frontend().parse_action, entity(pick('xml', 'yaml'), node(name, attrs)))
    check(r[0] == 'raise', 'refused')


def d_nested():
    """A nested element needs exactly its own attributes."""
    name, nested = pick(('arg', 'choice'), ('reset', 'keep'), ('group', 'keep'), ('include', 'arg'),
                        ('executable', 'env'))
    good = SPEC[name][1][nested][0]
    bad = dict(good)
    how = pick('unknown', 'missing', 'good')
    if how == 'unknown':
        bad['nonsense'] = 'x'
    elif how == 'missing':
        del bad[pick(*sorted(good))]
    first = pick(True, False)
    attrs = {**SPEC[name][0], nested: [bad, good] if first else [good, bad]}
    r = outcome(frontend().parse_action, entity(pick('xml', 'yaml'), node(name, attrs)))
    check((r[0] == 'ok') is (how == 'good'), 'exactly these')


def d_types():
    """A value of another type than the one needed is refused."""
    name, attr, value = pick(
        ('group', 'scoped', 'maybe'), ('group', 'forwarding', 'maybe'), ('group', 'scoped', '$(var x)'),
        ('executable', 'shell', 'maybe'), ('executable', 'emulate_tty', 'maybe'),
        ('executable', 'respawn_max_retries', 'many'), ('executable', 'respawn_max_retries', '1.5'),
        ('executable', 'respawn_delay', 'long'), ('executable', 'sigterm_timeout', 'long'),
        ('executable', 'sigkill_timeout', 'long'), ('executable', 'on_exit', 'restart'),
        ('executable', 'respawn_delay', -1.0), ('executable', 'sigterm_timeout', -1.0),
        ('executable', 'sigkill_timeout', -1.0))
    r = outcome(frontend().parse_action,
                entity(pick('xml', 'yaml'), node(name, {**SPEC[name][0], attr: value})))
    check(r[0] == 'raise', 'refused')


def d_types_yaml():
    """Where a text is needed YAML has to have a text."""
    name = pick(*sorted(SPEC))
    attrs = {**SPEC[name][0], **SPEC[name][1]}
    wanted = [k for k in sorted(attrs) if isinstance(attrs[k], str)]
    assume(wanted)
    which = pick(*(wanted or [0]))
    attrs[which] = pick(3, True, 1.5, ['a'], {'a': 'b'}, None)
    r = outcome(frontend().parse_action, entity('yaml', node(name, attrs)))
    check(r[0] == 'raise', 'refused')


def d_nested_shape():
    """Nested elements of YAML are a list of mappings; an empty list is none."""
    name, nested = pick(('arg', 'choice'), ('reset', 'keep'), ('group', 'keep'), ('include', 'arg'),
                        ('executable', 'env'))
    good = SPEC[name][1][nested][0]
    value = pick('text', 3, dict(good), [good, 'text'], ['text'], [[good]], None)
    r = outcome(frontend().parse_action, YamlEntity(as_yaml(node(name, {**SPEC[name][0], nested: value})), name))
    check(r[0] == 'raise', 'refused')


def d_condition():
    """Every element can have a condition; if it does not hold nothing is changed."""
    name = pick(*sorted(SPEC))
    attrs = {**SPEC[name][0], **pick({'if': '$(var no)'}, {'unless': 'true'})}
    parser = frontend()
    environ(n='old', n2='x')
    c = make_context()
    c.launch_configurations['n'] = 'old'
    c.launch_configurations['no'] = 'false'
    action = parser.parse_action(entity(pick('xml', 'yaml'), node(name, attrs, [CHILD])))
    before = len(queued(c))
    got = action.visit(c)
    check(not got, 'nothing follows')
    check(dict(c.launch_configurations) == {'n': 'old', 'no': 'false'}, 'configurations')
    check(dict(c.environment) == {'n': 'old', 'n2': 'x'}, 'environment')
    check(len(queued(c)) == before, 'events')


def d_unknown_element():
    """An unknown element is refused, also deep inside."""
    parser = frontend()
    bad = pick('nonsense', 'launch', 'Let', 'choice')
    deep_ = pick(0, 1, 2)
    x = (bad, {'name': 'a', 'value': 'b'})
    for i in range(deep_):
        x = ('group', {}, [CHILD, x, CHILD])
    r = outcome(parser.parse_action, entity(pick('xml', 'yaml'), x))
    check(r[0] == 'raise', 'refused')


def visit_all(action, context):
    """Visit an action and what follows, in order."""
    todo = [action]
    while todo:
        x = todo.pop(0)
        r = x.visit(context)
        if r:
            todo = list(r) + todo


def d_children():
    """The elements inside of another one are executed, in order."""
    parser = frontend()
    c = make_context()
    names = pick([], ['a'], ['a', 'b'], ['b', 'a', 'b'])
    children = [('append_env', {'name': 'P', 'value': n}) for n in names]
    environ()
    scoped = pick(True, False)
    g = parser.parse_action(entity(pick('xml', 'yaml'), ('group', {'scoped': scoped}, children + [
        ('set_env', {'name': 'Q', 'value': '[$(env P none)]'}), ('let', {'name': 'q', 'value': '$(env Q)'}),
        ('shutdown', {'reason': '$(var q)'})])))
    visit_all(g, c)
    e = [x for x in queued(c) if kind(x) == 'Shutdown']
    check(len(e) == 1, 'each once')
    check(e[0].reason == '[' + (':'.join(names) if names else 'none') + ']', 'in order')
    check(('P' in c.environment) is (not scoped and names != []), 'the attributes are those of the group')


def d_no_children():
    """Elements which cannot have elements inside refuse them."""
    name = pick(*[x for x in sorted(SPEC) if not SPEC[x][2]])
    r = outcome(frontend().parse_action, entity(pick('xml', 'yaml'), (name, SPEC[name][0], [CHILD])))
    check(r[0] == 'raise', 'refused')


def d_child_error():
    """What is wrong with an element inside is wrong with the file."""
    parser = frontend()
    bad = pick(('let', {'name': 'a'}), ('let', {'name': 'a', 'value': 'b', 'x': 'y'}), ('log', {'message': '$(nope)'}))
    x = pick(('group', {}, [CHILD, bad]), ('timer', {'period': 1.0}, [bad, CHILD]))
    r = outcome(parser.parse_action, entity(pick('xml', 'yaml'), x))
    check(r[0] == 'raise', 'refused')


def d_root():
    """The root is `launch`; its elements are executed in order, and a deprecation is told."""
    parser = frontend()
    c = make_context()
    root = pick('launch', 'group', 'Launch')
    attrs = pick({}, {'deprecated': 'old'}, {'deprecated': ''})
    r = outcome(parser.parse_description, entity(pick('xml', 'yaml'), (root, attrs, [
        ('let', {'name': 'a', 'value': '1'}), ('let', {'name': 'b', 'value': '$(var a)2'}),
        ('let', {'name': 'a', 'value': '3'})])))
    if root != 'launch':
        check(r[0] == 'raise', 'refused')
        return
    check(r[0] == 'ok', 'accepted')
    check(r[1].deprecated_reason == attrs.get('deprecated'), 'the deprecation')
    for x in r[1].visit(c):
        x.visit(c)
    check(dict(c.launch_configurations) == {'a': '3', 'b': '12'}, 'in order')


def d_same():
    """Written in XML or in YAML an element does the same as in Python."""
    parser = frontend()
    environ(HAS='old', PATH_='p')
    c = make_context()
    c.launch_configurations['x'] = 'X'
    c.launch_configurations['y'] = 'Y'
    what, attrs, config, env = pick(
        ('let', {'name': 'n$(var x)', 'value': 'v$(var y)'}, {'nX': 'vY'}, {}),
        ('let', {'name': 'x', 'value': ''}, {'x': ''}, {}),
        ('set_env', {'name': 'n$(var x)', 'value': 'v$(env HAS)'}, {}, {'nX': 'vold'}),
        ('set_env', {'name': 'HAS', 'value': ''}, {}, {'HAS': ''}),
        ('unset_env', {'name': '$(var z HAS)'}, {}, {'HAS': None}),
        ('append_env', {'name': 'PATH_', 'value': '$(var x)'}, {}, {'PATH_': 'p:X'}),
        ('append_env', {'name': 'PATH_', 'value': 'q', 'prepend': True}, {}, {'PATH_': 'q:p'}),
        ('append_env', {'name': 'PATH_', 'value': 'q', 'prepend': False}, {}, {'PATH_': 'p:q'}),
        ('append_env', {'name': 'PATH_', 'value': 'q', 'prepend': '$(var t true)', 'separator': '$(var y)'}, {},
         {'PATH_': 'qYp'}),
        ('append_env', {'name': 'NEW', 'value': 'q', 'separator': ' '}, {}, {'NEW': 'q'}),
        ('reset', {}, {'x': None, 'y': None}, {}),
        ('reset', {'keep': [{'name': 'x', 'value': 'new'}, {'name': '$(var y)', 'value': '$(var x)'}]},
         {'x': 'new', 'Y': 'X', 'y': None}, {}),
        ('reset', {'keep': [{'name': 'x', 'value': '$(var x)'}]}, {'x': 'X', 'y': None}, {}),
        ('arg', {'name': 'a', 'default': 'd$(var x)'}, {'a': 'dX'}, {}),
        ('arg', {'name': 'x', 'default': 'd'}, {}, {}),
        ('arg', {'name': 'a', 'default': ''}, {'a': ''}, {}),
        ('arg', {'name': 'a', 'default': 'q', 'choice': [{'value': 'q'}, {'value': 'r'}]}, {'a': 'q'}, {}))
    visit_all(parser.parse_action(entity(pick('xml', 'yaml'), (what, attrs))), c)
    want = {'x': 'X', 'y': 'Y'}
    want.update(config)
    check(dict(c.launch_configurations) == {k: v for k, v in want.items() if v is not None}, 'configurations')
    want = {'HAS': 'old', 'PATH_': 'p'}
    want.update(env)
    check(dict(c.environment) == {k: v for k, v in want.items() if v is not None}, 'environment')


def d_same_group():
    """Scope, forwarding and kept configurations of a group in a file are those of a group in Python."""
    parser = frontend()
    environ()
    c = make_context()
    c.launch_configurations['x'] = 'X'
    c.launch_configurations['y'] = 'Y'
    scoped = pick(None, True, False)
    forwarding = pick(None, True, False)
    keep = pick(None, [{'name': 'y', 'value': '$(var x)2'}, {'name': 'k', 'value': 'K'}])
    attrs = {k: v for k, v in (('scoped', scoped), ('forwarding', forwarding), ('keep', keep)) if v is not None}
    g = parser.parse_action(entity(pick('xml', 'yaml'), ('group', attrs, [
        ('let', {'name': 'new', 'value': 'N'}),
        ('shutdown', {'reason': "$(var x none) $(var y none) $(var k none) $(var new)"})])))
    visit_all(g, c)
    e = [x for x in queued(c) if kind(x) == 'Shutdown']
    forwarded = scoped is False or forwarding is not False
    want = ['X' if forwarded else 'none', 'X2' if keep else 'Y' if forwarded else 'none',
            'K' if keep else 'none', 'N']
    check([x.reason for x in e] == [' '.join(want)], 'inside')
    after = {'x': 'X', 'y': 'Y'}
    if scoped is False:
        after['new'] = 'N'
        if keep:
            after.update({'y': 'X2', 'k': 'K'})
    check(dict(c.launch_configurations) == after, 'afterwards')


# ------------------------------------------------------------------ elements

def d_get():
    """Getting an attribute: its value, nothing if it may be missing, else an error."""
    kind_ = pick('xml', 'yaml')
    e = entity(kind_, ('thing', {'a': 'text', 'empty': '', 'blank': ' a\tb '}))
    check(e.type_name == 'thing', 'the name of the element')
    check(e.get_attr('blank') == ' a\tb ', 'as it is written')
    check(e.get_attr('a') == 'text', 'the value')
    check(e.get_attr('a', optional=True) == 'text', 'the value')
    check(e.get_attr('empty') == '', 'also an empty one')
    check(e.get_attr('empty', optional=True) == '', 'also an empty one')
    check(e.get_attr('b', optional=True) is None, 'nothing')
    check(e.get_attr('b', data_type=int, optional=True) is None, 'nothing')
    check(e.get_attr('b', data_type=List[Entity], optional=True) is None, 'nothing')
    r = outcome(e.get_attr, pick('b', 'A', 'ex', ''))
    check(r[0] == 'raise' and isinstance(r[1], AttributeError), 'an error')
    r = outcome(e.get_attr, 'b', data_type=List[Entity])
    check(r[0] == 'raise' and isinstance(r[1], AttributeError), 'an error')


def d_get_typed():
    """An attribute has the type asked for, or it is an error."""
    kind_ = pick('xml', 'yaml')
    type_, value = pick((int, 3), (int, 0), (int, -3), (float, 1.5), (bool, True), (bool, False), (str, 'a'),
                        (str, 'true'), (str, '3'), (List[int], [1, 2]), (List[str], ['a', 'b']),
                        (List[float], [1.5, 2.5]), (List[bool], [True, False]), (List[str], ['a']))
    e = entity(kind_, ('thing', {'a': value}))
    strict = pick(True, False)
    got = e.get_attr('a', data_type=type_, can_be_str=not strict)
    check(got == value, 'the value')
    check(type(got) is type(value), 'the type')
    if isinstance(value, list):
        check([type(x) for x in got] == [type(x) for x in value], 'of the items')


def d_get_wrong():
    """A value of another type is a TypeError."""
    kind_ = pick('xml', 'yaml')
    type_, value = pick((int, 'a'), (int, ''), (float, 'a'), (bool, 'a'), (bool, '2'), (int, 'true'), (int, '1.5'),
                        (List[int], ['a', 'b']), (List[int], 'a'), (int, ['1', '2']), (bool, 'None'))
    e = entity(kind_, ('thing', {'a': value}))
    r = outcome(e.get_attr, 'a', data_type=type_, can_be_str=False)
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def d_get_text():
    """Where a text with substitutions may stand for a value it is handed over as it is."""
    kind_ = pick('xml', 'yaml')
    type_ = pick(int, float)
    e = entity(kind_, ('thing', {'a': '$(var x)', 'l': ['$(var x)', '1']}))
    check(e.get_attr('a', data_type=type_) == '$(var x)', 'the text')
    check(e.get_attr('a', data_type=bool) == '$(var x)', 'the text')
    got = e.get_attr('l', data_type=List[str])
    check(got == ['$(var x)', '1'], 'the texts')


def d_get_nested():
    """The nested elements of a name: all of them, in order."""
    kind_ = pick('xml', 'yaml')
    n = pick(1, 2, 3)
    e = entity(kind_, ('thing', {'sub': [{'i': str(i)} for i in range(n)]}))
    got = e.get_attr('sub', data_type=List[Entity])
    check([x.get_attr('i') for x in got] == [str(i) for i in range(n)], 'in order')
    check([x.type_name for x in got] == ['sub'] * n, 'their names')


def d_completely():
    """An element is completely parsed when everything in it was asked for."""
    kind_ = pick('xml', 'yaml')
    attrs = {'a': '1', 'b': 'text', 's': [{'x': 'y'}]}
    e = entity(kind_, ('thing', attrs, [CHILD]))
    asked = [pick(True, False) for i in range(4)]
    if asked[0]:
        e.get_attr('a', data_type=pick(int, str))
    if asked[1]:
        e.get_attr('b', optional=pick(True, False))
    if asked[2]:
        e.get_attr('s', data_type=List[Entity])
    if asked[3]:
        check([x.type_name for x in e.children][-1] == 'let', 'the children')
    if kind_ == 'xml' and asked[3]:
        asked[2] = True     # they are the same thing in XML
    e.get_attr('missing', optional=True)
    r = outcome(e.assert_entity_completely_parsed)
    check((r[0] == 'ok') is (False not in asked), 'exactly then')


def d_completely_empty():
    """An element with nothing in it is completely parsed."""
    kind_ = pick('xml', 'yaml', 'yaml nothing')
    e = YamlEntity(None, 'thing') if kind_ == 'yaml nothing' else entity(kind_, ('thing', {}))
    check(e.get_attr('if', optional=True) is None, 'nothing')
    check(outcome(e.assert_entity_completely_parsed)[0] == 'ok', 'complete')


def d_completely_exactly():
    """Asking for one name reads that name only, not a similar one."""
    kind_ = pick('xml', 'yaml')
    there = pick('a-b', 'a_b', 'A-b', 'a-b-c', 'ab', 'a')
    asked = pick('a-b', 'a_b', 'A-b', 'a-b-c', 'ab', 'a')
    e = entity(kind_, ('thing', {there: 'x', 'z': 'y'}))
    e.get_attr('z')
    check(e.get_attr(asked, optional=True) == ('x' if asked == there else None), 'that one')
    check((outcome(e.assert_entity_completely_parsed)[0] == 'ok') is (asked == there), 'exactly then')
    if asked != there:
        e = entity(kind_, ('thing', {there: 'x', asked: 'y'}))
        check(e.get_attr(asked) == 'y', 'that one')
        check(outcome(e.assert_entity_completely_parsed)[0] == 'raise', 'the other one was not read')
        check(e.get_attr(there) == 'x', 'the other one')
        check(outcome(e.assert_entity_completely_parsed)[0] == 'ok', 'both were read')


def d_completely_nested():
    """Asking for the nested elements of one name leaves those of another unread."""
    kind_ = pick('xml', 'yaml')
    e = entity(kind_, ('thing', {'s': [{'x': 'y'}], 't': [{'x': 'z'}, {'x': 'w'}]}))
    asked = [n for n in ('s', 't') if pick(True, False)]
    for n in asked:
        got = e.get_attr(n, data_type=List[Entity])
        check([x.get_attr('x') for x in got] == {'s': ['y'], 't': ['z', 'w']}[n], 'all of them')
        check([outcome(x.assert_entity_completely_parsed)[0] for x in got] == ['ok'] * len(got), 'each complete')
    check((outcome(e.assert_entity_completely_parsed)[0] == 'ok') is (len(asked) == 2), 'exactly then')


def d_any_tag():
    """An element inside is of the type it is called, whatever that is."""
    kind_ = pick('xml', 'yaml')
    tag, other = unknown('tag', str), pick('let', 'comment', 'children')
    e = entity(kind_, ('launch', {}, [(tag, {'a': 'x'}), (other, {'a': 'y'})]))
    inside = e.children
    check(len(inside) == 2, 'all of them')
    check(inside[0].type_name == tag and inside[1].type_name == other, 'in order')
    check(inside[0].get_attr('a') == 'x' and inside[1].get_attr('a') == 'y', 'with their attributes')
    check(len(e.children) == 2, 'each time')


def d_yaml_null():
    """An attribute without a value is of no type; an element without a value is empty."""
    e = YamlEntity({'a': None, 'b': 'x'}, 'thing')
    r = outcome(e.get_attr, 'a', optional=pick(True, False), data_type=pick(str, int, List[str]))
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'refused')


def d_yaml_shapes():
    """A YAML element of another shape than a mapping or a list is refused as such."""
    e = YamlEntity(pick('some text', 3, True, 1.5, '', 0, False), 'thing')
    r = outcome(e.get_attr, 'some')
    check(r[0] == 'raise' and isinstance(r[1], AttributeError), 'no attributes')
    r = outcome(getattr, e, 'children')
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'no children')
    r = outcome(e.assert_entity_completely_parsed)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'not understood')


def d_yaml_list():
    """The elements of a YAML list are the children, in order; each has one name."""
    e = YamlEntity([{'a': {}}, {'b': {'x': 'y'}}], 'thing')
    check([x.type_name for x in e.children] == ['a', 'b'], 'in order')
    check(outcome(e.assert_entity_completely_parsed)[0] == 'ok', 'complete')
    check(outcome(YamlEntity([{'a': {}}], 'thing').assert_entity_completely_parsed)[0] == 'raise', 'not read')
    r = outcome(getattr, YamlEntity([pick({'a': {}, 'b': {}}, {})], 'thing'), 'children')
    check(r[0] == 'raise', 'one name each')


# ------------------------------------------------------------------ exposing

def parse_one(entity, parser):
    log('one')
    return Probe, {'tag': entity.get_attr('tag')}


def parse_two(entity, parser):
    return Probe, {'tag': 'two'}


class Exposed:
    def __init__(self, text='none'):
        self.text = text

    @classmethod
    def parse(cls, data):
        log('args', list(data))
        return cls, {'text': 'given'}


def d_expose():
    """What is exposed is used for its name; two for one name are refused; the first one stays."""
    frontend()
    check(expose_action('mine')(parse_one) is parse_one, 'nothing is changed')
    r = outcome(expose_action('mine'), parse_two)
    if r[0] == 'ok':
        r = outcome(r[1], parse_two)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'refused')
    kind_ = pick('xml', 'yaml')
    got = outcome(instantiate_action, entity(kind_, ('mine', {'tag': 't'})), Parser())
    check(got[0] == 'ok' and got[1].tag == 't', 'the first one')
    got = outcome(instantiate_action, entity(kind_, ('mine', {'tag': 't', 'other': 'x'})), Parser())
    check(got[0] == 'raise', 'also of user actions nothing is ignored')
    got = outcome(instantiate_action, entity(kind_, ('other', {})), Parser())
    check(got[0] == 'raise' and isinstance(got[1], RuntimeError), 'others are unknown')


def d_expose_substitution():
    """The same for substitutions; a second time the same one is fine."""
    frontend()
    check(expose_substitution('mine')(Exposed) is Exposed, 'nothing is changed')
    r = outcome(expose_substitution('mine'), parse_two)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'two are refused')
    check(outcome(expose_substitution('mine')(Exposed).parse, ())[0] == 'ok', 'the same one is fine')
    s = instantiate_substitution('mine', ('a', 'b'))
    check(s.text == 'given', 'it is used')
    check(logs('args')[-1][1] == ['a', 'b'], 'with its arguments')
    check(instantiate_substitution('mine').text == 'given', 'without arguments')
    check(logs('args')[-1][1] == [], 'none')
    check(outcome(instantiate_substitution, 'other')[0] == 'raise', 'others are unknown')


class NoParse:
    pass


def d_expose_wrong():
    """What cannot parse cannot be exposed."""
    what = pick(NoParse, 3, 'text', None)
    which = pick(expose_action, expose_substitution)
    r = outcome(which('mine'), what)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'refused')


def d_separator_many():
    """However many parts there are."""
    parts = ['p%d' % i for i in range(40)]
    e = XmlEntity(Elem('thing', {'a': ';'.join(parts), 'a-sep': ';'}, []))
    check(e.get_attr('a', data_type=List[str]) == parts, 'all of them')


def d_deep():
    """Elements are nested as deep as one likes; those without attributes count as well."""
    parser = frontend()
    environ(A='before')
    c = make_context()

    def let(name):
        return ('let', {'name': name, 'value': 'v'})
    g = parser.parse_action(entity(pick('xml', 'yaml'), ('group', {'scoped': False}, [
        let('one'), ('group', {'scoped': False}, [
            ('set_env', {'name': 'A', 'value': 'inside'}),
            ('group', {'scoped': False}, [let('two'), ('reset_env', {})]), ('reset', {}), let('three')]),
        let('four')])))
    visit_all(g, c)
    check(dict(c.launch_configurations) == {'three': 'v', 'four': 'v'}, 'in order, each')
    check(c.environment['A'] == 'before', 'those without attributes, too')


def d_separator():
    """An XML attribute is a list exactly if a separator is given for it; the separator is part of it."""
    attrs = {'a': pick('1;2', '1', '1,2;3', '1;2;', ' 1 ; 2', ';', ''), 'b': '4;5'}
    sep = pick(None, ';', ',', '; ')
    if sep is not None:
        attrs['a-sep'] = sep
    e = XmlEntity(Elem('thing', attrs, []))
    got = e.get_attr('a', data_type=List[str]) if sep else e.get_attr('a')
    check(got == (attrs['a'] if sep is None else attrs['a'].split(sep)), 'split there, nowhere else')
    check(e.get_attr('b') == '4;5', 'the others are not')
    check(outcome(e.assert_entity_completely_parsed)[0] == 'ok', 'complete')


def d_separator_unread():
    """A separator nobody asked for is as unexpected as any attribute."""
    attrs = {'b': 'x', 'a-sep': ';'}
    if pick(True, False):
        attrs['a'] = '1;2'
    e = XmlEntity(Elem('thing', attrs, []))
    e.get_attr('b')
    r = outcome(e.assert_entity_completely_parsed)
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')


def d_yaml_no_children():
    """A YAML element without children that should have some is a ValueError; a list of others is a TypeError."""
    e = YamlEntity({'a': '1', 's': pick([{'x': 'y'}, 3], 'text', 3, {'x': 'y'}, ['a'])}, 'thing')
    r = outcome(getattr, e, 'children')
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'no children')
    r = outcome(e.get_attr, 's', data_type=List[Entity])
    check(r[0] == 'raise' and isinstance(r[1], TypeError), 'no list of elements')
    check(YamlEntity({}, 'thing').parent is None and XmlEntity(Elem('thing', {}, [])).parent is None, 'no parent')
    check(YamlEntity({}, 'thing', parent=e).parent is e, 'the parent given')
    check(XmlEntity(Elem('thing', {}, []), parent=e).parent is e, 'the parent given')
