"""Frontend files: elements as the XML and YAML libraries hand them over (never run)."""
from launch.frontend import Parser
from launch.frontend.expose import expose_action
from launch.frontend.expose import expose_substitution
from launch.frontend.expose import instantiate_action
from launch.frontend.expose import instantiate_substitution
from launch.utilities import perform_substitutions
from launch_xml.entity import Entity as XmlEntity
from launch_yaml.entity import Entity as YamlEntity

from drv.env import *


class OpenFile:
    """A text file of the repository."""

    def __init__(self, path):
        self.name = path

    def read(self):
        return source(self.name)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        log('closed', self.name)


class Grammar:
    """lark.Lark"""

    def __init__(self, grammar, start='start', **kwargs):
        self.grammar = grammar if isinstance(grammar, str) else grammar.read()
        self.start = start

    def parse(self, text):
        return grammar_tree(self.grammar, self.start, text)


def transform(transformer, tree):
    """lark.Transformer.transform"""
    if not isinstance(tree, tuple):
        return tree
    return getattr(transformer, tree[1])([transform(transformer, x) for x in tree[2]])


class Elem:
    """xml.etree.ElementTree.Element"""

    def __init__(self, tag, attrib, children, text=None):
        self.tag = tag
        self.attrib = attrib
        self.children = children
        self.text = text

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)

    def get(self, name, default=None):
        return self.attrib.get(name, default)


def as_xml(node):
    """(tag, attributes[, children]); a list of dicts among the attributes is a nested tag."""
    tag, attrs = node[0], node[1]
    attrib, nested = {}, []
    for name, value in attrs.items():
        if isinstance(value, list) and value and isinstance(value[0], dict):
            for sub in value:
                nested.append(as_xml((name, sub)))
        elif isinstance(value, list):
            attrib[name] = ';'.join([str(x) for x in value])
            attrib[name + '-sep'] = ';'
        elif isinstance(value, bool):
            attrib[name] = 'true' if value else 'false'
        else:
            attrib[name] = str(value)
    for child in (node[2] if len(node) > 2 else ()):
        nested.append(as_xml(child))
    return Elem(tag, attrib, nested)


def as_yaml(node):
    data = dict(node[1])
    if len(node) > 2:
        data['children'] = [{c[0]: as_yaml(c)} for c in node[2]]
    return data


def entity(kind, node):
    if kind == 'xml':
        return XmlEntity(as_xml(node))
    return YamlEntity(as_yaml(node), node[0])


def frontend(*packages):
    """The parser, with the actions and substitutions of the packages exposed."""
    stub('ament_index_python.packages.get_package_share_directory', share)
    stub('builtins.open', lambda path, *a, **k: OpenFile(path))
    stub('lark.Lark', Grammar)
    stub('.transform', transform)
    stub('launch.frontend.parser.Parser.load_launch_extensions', None)
    if not logs('exposed'):
        log('exposed')
        for kind_, name, obj in exposed(*(packages or ('launch',))):
            if kind_ == 'action':
                expose_action(name)(obj)
            else:
                expose_substitution(name)(obj)
    return Parser()


def share(package):
    return package + '/share/' + package


def texts(context, words):
    """The words after substitution."""
    return [perform_substitutions(context, w) for w in words]
