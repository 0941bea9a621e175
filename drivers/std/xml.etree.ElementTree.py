"""xml.etree.ElementTree, as far as documents are written (never run)."""


class Element:

    def __init__(self, tag, attrib={}, **extra):
        self.tag = tag
        self.attrib = dict(attrib, **extra)
        self.text = None
        self.children = []

    def set(self, key, value):
        self.attrib[key] = value

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def append(self, child):
        self.children.append(child)

    def extend(self, children):
        self.children.extend(children)

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)


def SubElement(parent, tag, attrib={}, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


class ElementTree:
    written = []

    def __init__(self, element=None, file=None):
        self.root = element

    def getroot(self):
        return self.root

    def write(self, file, encoding=None, xml_declaration=None, **kwargs):
        ElementTree.written.append((file, self.root))
