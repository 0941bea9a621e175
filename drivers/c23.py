"""Text with substitutions in launch files, and loading of launch files."""
import io
import warnings

from launch import Substitution
from launch.frontend.parser import InvalidFrontendLaunchFileError
from launch.invalid_launch_file_error import InvalidLaunchFileError

from drv.fe import *


def meaning(text):
    """The text a text of a launch file stands for (x is X, y is a"b)."""
    c = make_context()
    c.launch_configurations['x'] = 'X'
    c.launch_configurations['y'] = 'a "b\' $(var x) \\'
    c.launch_configurations['X'] = 'of X'
    c.launch_configurations['e'] = ''
    return outcome(lambda: texts(c, [frontend().parse_substitution(text)])[0])


def d_plain():
    """Text without a substitution stands for itself."""
    text = pick('a', '', ' ', '  a  b ', 'a b', '$', '$$', 'a$b', '$x', '$ (var x)', '(', ')', '()', '(a)', "'", '"', "''",
                '""', "'a'", '"a b"', "it's", '100%', 'a,b', '{x}', '${x}', '[1, 2]', 'a\tb', 'a\nb', 'é', '#', ';', '&amp;',
                '/a/b.c', '--flag=x', '-1', 'var x', '$var', ')(', "'$", '$a$')
    r = meaning(text)
    check(r == ('ok', text), 'itself')


def d_plain_kept():
    """It is one piece of text, not split."""
    r = frontend().parse_substitution(pick('a', 'a b', '', "it's (so)"))
    check(len(r) == 1 and isinstance(r[0], Substitution), 'one piece')


def d_mixed():
    """Text around and between substitutions is kept to the letter."""
    before = pick('', 'a b ', "'", '(', '$')
    between = pick('', ' and ', ')')
    after = pick('', ' ', ')', '"', '$')
    r = meaning(before + '$(var x)' + between + '$(var e)' + after)
    check(r == ('ok', before + 'X' + between + after), 'kept')


def d_value():
    """What a substitution yields is not read again."""
    r = meaning(pick('$(var y)', 'p$(var y)s', "$(if true '$(var y)')"))
    check(r[0] == 'ok', 'a value')
    check('a "b\' $(var x) \\' in r[1], 'as it is')


def d_nested():
    """Substitutions nest to any depth, in arguments and parts of arguments."""
    n = pick(0, 1, 2, 3)
    text = 'x'
    for i in range(n):
        text = '$(if true ' + text + ')'
    text, want = pick(
        ('$(var ' + text + ')', 'X'), ('$(var $(var ' + text + '))', 'of X'),
        ('$(if true a-' + text + '-b)', 'a-x-b'), ('$(var nope ' + text + text + ')', 'xx'),
        ('$(if $(equals ' + text + ' x) $(var ' + text + ') no)', 'X'))
    check(meaning(text) == ('ok', want), 'its value')


def d_quoted():
    """A quoted argument is one argument, with spaces and the other quote; substitutions in it are evaluated."""
    q = pick("'", '"')
    o = {"'": '"', '"': "'"}[q]
    inner, want = pick(
        ('a b', 'a b'), (' a  b ', ' a  b '), ('', ''), ('(a)', '(a)'), (o + 'a' + o, o + 'a' + o), ('a)', 'a)'), (' ', ' '),
        ('$(var x)', 'X'), ('a $(var x) b', 'a X b'), ('$(var x)$(var e)', 'X'), ('$(var nope d)', 'd'),
        ('$(if true $(var x))', 'X'), ('$', '$'), ('$ a', '$ a'), ('$(var  nope)', None), ('100 $', '100 $'))
    r = meaning('$(if true ' + q + inner + q + ')')
    if want is None:
        check(r[0] == 'raise', 'still to be correct')
    else:
        check(r == ('ok', want), 'one argument')
    r = meaning('<$(if false no ' + q + inner + q + ')>')
    if want is not None:
        check(r == ('ok', '<' + want + '>'), 'one argument')


def d_quoted_nested():
    """Quotes of the other kind can be used in a substitution of a quoted argument; the same ones escaped."""
    text, want = pick(
        ("$(if true '$(if true \"a b\")')", '"a'), ("$(if true \"$(var x)'s\")", "X's"),
        ("$(if true 'it\\'s')", "it's"), ('$(if true "a\\"b")', 'a"b'), ("$(if true 'a\"b')", 'a"b'),
        ("$(if false 'a' 'b')", 'b'), ("$(if true 'a' \"b\")", 'a'), ("$(if false \"a\" 'b c')", 'b c'))
    r = meaning(text)
    if want == '"a':
        check(r[0] == 'raise' or '"' in r[1], 'quotes of the other kind are text')
    else:
        check(r == ('ok', want), 'one argument')


def d_escaped():
    """An escaped character stands for itself, in text and in arguments."""
    text, want = pick(
        ('\\$(var x)', '$(var x)'), ('a \\$(var x) $(var x)', 'a $(var x) X'), ('\\\\', '\\'), ('\\a', 'a'), ("\\'", "'"),
        ('a\\ b', 'a b'), ('$(if true a\\)b)', 'a)b'), ('$(if true \\(a\\))', '(a)'), ("$(if true \\'a\\')", "'a'"),
        ('$(if true \\"a)', '"a'), ("$(if true '\\$(var x)')", '$(var x)'), ('$(if true "\\$(var x)")', '$(var x)'),
        ('$(if true \\$(var x\\))', None), ('\\n', 'n'), ('\\\\$', '\\$'), ('x\\', 'x\\'))
    r = meaning(text)
    if want is None:
        check(r[0] == 'raise', 'an unescaped space separates')
    else:
        check(r == ('ok', want), 'itself')


def d_malformed():
    """A substitution that is not well-formed is an error, never text."""
    r = meaning(pick('$(', '$(var', '$(var x', '$()', '$( var x)', '$(var x )', '$(var  x)', 'a $(var x', "$(var 'x)",
                     '$(var "x)', '$(1 x)', '$(var $(var x)', '$(var $x y z)', "$(var 'x' y z)", '$(va r)', '$(-)', '$(var,x)',
                     '$(if true (a))', "$(if true a'b)", "$(if true 'a'b)", '$(var x))$('))
    check(r[0] == 'raise', 'an error')


def d_separate():
    """Reading a text depends on nothing read before."""
    p = frontend()
    first = pick('a', '$(var x)', '$(nope)', '$(var x', '')
    outcome(p.parse_substitution, first)
    check(meaning('a $(var x)') == ('ok', 'a X'), 'the same')


def d_if_text():
    """Values: texts without substitution stay texts, others become substitutions, the rest is kept."""
    p = frontend()
    value, want = pick(('a', 'a'), ('', ''), ('a b', 'a b'), (3, 3), (True, True), (1.5, 1.5), (['a', 'b'], ['a', 'b']),
                       ([1, 2], [1, 2]), ([], []), ('\\$(var x)', '$(var x)'), ([True], [True]))
    got = p.parse_if_substitutions(value)
    check(got == want and type(got) is type(want), 'kept')


def d_if_substitution():
    """A text with substitutions becomes the substitutions; in lists next to others."""
    p = frontend()
    c = make_context()
    c.launch_configurations['x'] = 'X'
    got = p.parse_if_substitutions(pick('$(var x)', 'a$(var x)'))
    check(isinstance(got, list) and 'X' in texts(c, [got])[0], 'substitutions')
    other = pick('a', 1, True, 1.5)
    got = p.parse_if_substitutions([other, '$(var x)'])
    check(len(got) == 2 and got[0] == other and texts(c, [got[1]]) == ['X'], 'in its place')


def d_if_mixed():
    """A list of values of several types is an error."""
    r = outcome(frontend().parse_if_substitutions, pick(
        ['a', 1], [1, 'a', '$(var x)'], ['$(var x)', 1, True], [1.5, 'a'], [True, 'true']))
    check(r[0] == 'raise' and isinstance(r[1], ValueError), 'an error')


def d_escape():
    """Escaped characters are replaced by themselves, the others kept."""
    p = frontend()
    text, want = pick(('a', 'a'), ('\\$x', '$x'), ('\\\\', '\\'), ('a\\ b', 'a b'), ('', ''), ('$(var x)', '$(var x)'))
    check(p.escape_characters(text) == want, 'replaced')


# ------------------------------------------------------------------ loading


class File:
    """A text file; what reads it moves on."""

    def __init__(self, name, text='text'):
        if name is not None:
            self.name = name
        self.text = text
        self.at = 0
        self.closed = False

    def read(self, *args):
        rest = self.text[self.at:]
        self.at = len(self.text)
        return rest

    def seek(self, at, *args):
        self.at = at

    def close(self):
        log('closed')
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class One(Parser):
    works = True
    error = ValueError
    extensions = {'launch.one', 'one'}

    @classmethod
    def load(cls, file):
        log('load', cls, file.read(), file.closed)
        if not cls.works:
            raise cls.error(cls.__name__)
        return ('entity', cls()) if False else (cls.__name__, cls)

    @classmethod
    def get_file_extensions(cls):
        return cls.extensions


class UnicodeDecodeError_(UnicodeError):
    pass


class Two(One):
    works = True
    extensions = {'two', 'both'}


class Three(One):
    works = True
    extensions = {'three', 'both'}


class Point:
    def __init__(self, name, value):
        self.name = name
        self.value = value

    def load(self):
        log('loaded', self.name)
        if isinstance(self.value, Exception):
            raise self.value
        return self.value


class Points:
    def __init__(self):
        self.points = []

    def append(self, point):
        self.points.append(point)

    def select(self, group):
        return [p for g, p in self.points if g == group]

    def get(self, group, default):
        return [p for g, p in self.points if g == group]


ALL = Points()


def entry_points():
    log('entry points')
    return ALL


def installed(*points):
    stub('importlib.metadata.entry_points', entry_points)
    stub('warnings.warn', warned)
    for p in points:
        ALL.append(p)


def warned(*args, **kwargs):
    log('warned', args[0])


def three():
    installed(('launch.frontend.parser', Point('b', Two)), ('launch.frontend.parser', Point('c', Three)),
              ('launch.frontend.parser', Point('a', One)), ('launch.frontend.launch_extension', Point('x', None)))


def d_load():
    """The parsers that claim the name of the file are tried first, then all others; the first that can is used."""
    three()
    One.error = pick(ValueError, KeyError, UserError, UnicodeDecodeError_)
    One.works = pick(True, False)
    Two.works = pick(True, False)
    Three.works = pick(True, False)
    name = pick('x.one', 'x.launch.one', 'x.three', 'x.both', 'x', 'one', None)
    order = {'x.three': [Three, One, Two], 'x.both': [Two, Three, One]}.get(name, [One, Two, Three])
    f = File(name)
    r = outcome(Parser.load, f)
    able = [p for p in order if p.works]
    tried = [x[1] for x in logs('load')]
    if able:
        check(r == ('ok', (able[0].__name__, able[0])), 'the first that can')
        check(tried == order[:order.index(able[0]) + 1], 'in order')
    else:
        check(r[0] == 'raise' and isinstance(r[1], InvalidFrontendLaunchFileError), 'invalid')
        check(isinstance(r[1], InvalidLaunchFileError), 'an invalid launch file')
        check(tried == order, 'all were tried')
    check(all([x[2] == 'text' for x in logs('load')]), 'each read the whole file')
    check(all([x[3] is False for x in logs('load')]), 'and it was open')
    check(not f.closed, 'a file of the caller stays open')


def d_load_path():
    """A file given by its path is opened once and always closed."""
    three()
    One.works = pick(True, False)
    Two.works = pick(True, False)
    Three.works = pick(True, False)
    path = pick('x.one', 'x.two', b'x.two')
    f = File('x.one' if path == 'x.one' else path if isinstance(path, bytes) else 'x.two')

    def opened(p, *args, **kwargs):
        log('open', p)
        return f
    stub('builtins.open', opened)
    r = outcome(Parser.load, path)
    check((r[0] == 'ok') is (One.works or Two.works or Three.works), 'by any that can')
    check([x[1] for x in logs('load')][0] is (One if path == 'x.one' else Two), 'by its name first')
    check(len(logs('open')) == 1, 'opened once')
    check(len(logs('closed')) == 1, 'and closed')


def d_load_descriptor():
    """A file opened by a descriptor has no name to go by; every parser is tried."""
    three()
    One.works = False
    Two.works = pick(True, False)
    r = outcome(Parser.load, File(3))
    check(r == ('ok', ('Two', Two) if Two.works else ('Three', Three)), 'the first that can')


def d_load_missing():
    """A missing file is reported as such."""
    three()

    def opened(p, *args, **kwargs):
        raise FileNotFoundError(p)
    stub('builtins.open', opened)
    r = outcome(Parser.load, 'x.one')
    check(r[0] == 'raise' and isinstance(r[1], FileNotFoundError), 'missing')
    check(logs('load') == [], 'nobody is asked')


def d_error():
    """The error of an invalid file has the errors of all parsers; it names them."""
    three()
    One.works = Two.works = Three.works = False
    name = pick('x.two', 'x.nonsense', None)
    r = outcome(Parser.load, File(name))
    check(r[0] == 'raise', 'an error')
    check(str(r[1]) != '', 'a message')
    if name == 'x.two':
        check('ValueError' in str(r[1]), 'told')
        check(isinstance(r[1].__cause__, ValueError), 'the cause')


def d_implementations():
    """The parsers are looked up once; one that cannot be loaded is skipped with a warning."""
    n = pick(0, 1, 2)
    bad = [Point('bad%d' % i, ValueError('bad')) for i in range(n)]
    installed(('launch.frontend.parser', Point('z', One)), *[('launch.frontend.parser', b) for b in bad],
              ('launch.frontend.launch_extension', Point('x', None)), ('launch.frontend.parser', Point('a', Two)))
    check(list(Parser.get_available_extensions()) == ['a', 'z'], 'those that load')
    check(len(logs('warned')) == n, 'a warning for each other')
    again = len(logs('loaded'))
    check(list(Parser.get_available_extensions()) == ['a', 'z'], 'the same')
    check(Parser.is_filename_valid('q.two') and Parser.is_filename_valid('q.one'), 'known')
    check(len(logs('loaded')) == again, 'looked up once')
    check([x[1] for x in logs('loaded') if x[1] == 'x'] == [], 'nothing else is loaded')


def d_extensions():
    """The extensions are loaded once, before the first action; one that fails is skipped with a warning."""
    n = pick(0, 1, 2)
    installed(*[('launch.frontend.launch_extension', Point('bad', pick(ValueError('x'), ImportError('y'))))
                for i in range(n)],
              ('launch.frontend.launch_extension', Point('good', None)),
              ('launch.frontend.parser', Point('p', One)))
    p = Parser()
    r = outcome(p.parse_action, entity('yaml', ('nope', {})))
    check(r[0] == 'raise', 'unknown')
    check([x[1] for x in logs('loaded')] == ['bad'] * n + ['good'], 'all are loaded')
    check(len(logs('warned')) == n, 'a warning for each that fails')
    outcome(pick(p, Parser(), One()).parse_action, entity('yaml', ('nope', {})))
    check(len(logs('loaded')) == n + 1, 'once')


def d_claims():
    """A parser claims the names ending in a dot and one of its extensions."""
    three()
    name = pick('a.one', 'a.launch.one', 'one', 'aone', 'a.one.x', 'a.ONE', 'dir.one/a', 'a.both', '.two', 'a.py', '')
    got = [p for p in (One, Two, Three) if p.may_parse(name)]
    want = {'a.one': [One], 'a.launch.one': [One], 'a.both': [Two, Three], '.two': [Two]}.get(name, [])
    check(got == want, 'exactly these')
    check(Parser.is_filename_valid(name) is (want != []), 'known to some')
    check(Parser.get_parsers_from_filename(name) == want, 'which')
    check(sorted(Parser.get_file_extensions_from_parsers()) == ['both', 'launch.one', 'one', 'three', 'two'], 'all of them')


def d_claims_of():
    """The formats claim their documented names."""
    from launch_xml.parser import Parser as Xml
    from launch_yaml.parser import Parser as Yaml
    name, who = pick(('a.launch.xml', 'x'), ('a.xml', 'x'), ('a.launch.yaml', 'y'), ('a.launch.yml', 'y'), ('a.yaml', 'y'),
                     ('a.yml', 'y'), ('a.launch', 'xy'), ('a.launch.py', ''), ('launch', ''), ('a.json', ''))
    check(Xml.may_parse(name) is ('x' in who), 'XML')
    check(Yaml.may_parse(name) is ('y' in who), 'YAML')


def d_yaml_root():
    """A YAML file has one root; a file opened by the parser is closed, another one is not."""
    from launch_yaml.parser import Parser as Yaml
    f = File('x.yaml')
    data = pick({'launch': [{'let': {'name': 'a', 'value': 'b'}}]}, {'launch': [], 'other': []}, {}, None, [], 'text')

    def opened(p, *args, **kwargs):
        if not isinstance(p, str):
            raise TypeError('no path')
        return f
    stub('builtins.open', opened)
    stub('yaml.safe_load', lambda stream: data)
    by_path = pick(True, False)
    r = outcome(Yaml.load, 'x.yaml' if by_path else f)
    if isinstance(data, dict) and len(data) == 1:
        check(r[0] == 'ok' and r[1][0].type_name == 'launch', 'the root')
        check([x.type_name for x in r[1][0].children] == ['let'], 'its elements')
        check(isinstance(r[1][1], Yaml), 'the parser')
    else:
        check(r[0] == 'raise', 'refused')
    check(f.closed is by_path, 'closed by who opened it')


def d_xml_file():
    """An XML file is its root element, handed over to the XML parser."""
    from launch_xml.parser import Parser as Xml
    f = pick('x.xml', File('x.xml'))
    children = pick([], [Elem('let', {'name': 'a', 'value': 'b'}, [])])

    def parse(file):
        log('parsed', file)
        return XmlTree(Elem('launch', {}, children))
    stub('xml.etree.ElementTree.parse', parse)
    bad = pick(True, False)
    if bad:
        def refuse(file):
            raise ValueError('no XML')
        stub('xml.etree.ElementTree.parse', refuse)
        r = outcome(Xml.load, f)
        check(r[0] == 'raise' and isinstance(r[1], ValueError), 'what is not XML is refused')
        return
    r = outcome(Xml.load, f)
    check(r[0] == 'ok', 'read')
    root, parser = r[1]
    check([x[1] is f for x in logs('parsed')] == [True], 'this file, once')
    check(root.type_name == 'launch' and [x.type_name for x in root.children] == [x.tag for x in children], 'the root')
    check(isinstance(parser, Xml), 'the parser')
    check(root.parent is None, 'which has no parent')


class XmlTree:
    """xml.etree.ElementTree.ElementTree"""

    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root


def d_by_extension():
    """The older ways to look a parser up, by its name, agree with what is installed."""
    three()
    name = pick('a', 'b', 'c', 'x', 'd', '', 'one')
    known_ = {'a': One, 'b': Two, 'c': Three}
    check(Parser.is_extension_valid(name) is (name in known_), 'known')
    r = outcome(Parser.get_parser_from_extension, name)
    if name in known_:
        check(r == ('ok', known_[name]), 'this one')
    else:
        check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'refused')
    check(len(logs('warned')) == 2, 'with a warning each')


def d_no_extensions():
    """A parser that names no extensions claims no file."""
    class Mine(Parser):
        pass
    name = pick('a.one', 'a', '', 'a.xml', 'a.')
    check(list(Mine.get_file_extensions()) == [], 'none')
    check(Mine.may_parse(name) is False, 'no claim')
    check(list(Parser.get_file_extensions()) == [], 'nor has the general one any')


class Plain(Parser):
    """A parser that says nothing about the names of its files."""

    @classmethod
    def load(cls, file):
        return ('plain', cls)


def d_load_no_extensions():
    """A parser that names no extensions is still tried when those that claim a file cannot read it."""
    One.works = pick(True, False)
    installed(('launch.frontend.parser', Point('one', One)), ('launch.frontend.parser', Point('plain', Plain)))
    name = pick('a.one', 'a.xyz', None)
    r = outcome(Parser.load, File(name))
    check(r[0] == 'ok', 'it is loaded')
    check(r[1][0] == ('One' if One.works else 'plain'), 'by the one that can')
