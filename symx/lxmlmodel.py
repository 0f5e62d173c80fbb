"""Model of the part of lxml's element API the repository uses, for symbolic
attribute values and texts."""
import itertools

from lxml import etree

from .core import ch_in_ranges, text_cells, Not, And
from .containers import SymDict
from .rt import MODELS, SYM_MODELS, lift

XML_CHARS = ((9, 10), (13, 13), (32, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x10ffff))


def _ok(s):
    if not isinstance(s, str):
        raise TypeError('Argument must be bytes or unicode, got %r' % type(s).__name__)
    for c in text_cells(s):
        if not ch_in_ranges(c, XML_CHARS):
            raise ValueError('All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters')
    return s


class Attrib(SymDict):
    def __setitem__(self, k, v):
        SymDict.__setitem__(self, _ok(k), _ok(v))


class FakeElement(object):
    def __init__(self, tag, attrib=None, nsmap=None, **extra):
        self.tag = tag
        self.attrib = Attrib()
        self._text = None
        self.tail = None
        self.children = []
        self.parent = None
        for k, v in list((attrib or {}).items()) + list(extra.items()):
            self.attrib[k] = v

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, v):
        self._text = None if v is None else _ok(v)

    def set(self, k, v):
        self.attrib[k] = v

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def items(self):
        return list(self.attrib.items())

    def keys(self):
        return list(self.attrib)

    def append(self, e):
        if not isinstance(e, FakeElement):
            raise TypeError('Argument has incorrect type')
        self.children.append(e)
        e.parent = self

    def extend(self, es):
        for e in es:
            self.append(e)

    def __iter__(self):
        return iter(list(self.children))

    def __len__(self):
        return len(self.children)

    def __getitem__(self, i):
        return self.children[i]

    def getparent(self):
        return self.parent

    def _match(self, path):
        parts = path.replace('{', '\0{').split('\0') if '{' in path else path.split('/')
        if '{' in path:
            parts, cur, depth = [], '', 0
            for ch in path:
                if ch == '/' and not depth:
                    parts.append(cur)
                    cur = ''
                    continue
                depth += (ch == '{') - (ch == '}')
                cur += ch
            parts.append(cur)
        nodes = [self]
        deep = False
        for p in parts:
            if p == '.':
                continue
            if p == '':
                deep = True
                continue
            nxt = []
            for n in nodes:
                for k in (n.iterdescendants() if deep else n.children):
                    if p == '*' or k.tag == p:
                        nxt.append(k)
            nodes, deep = nxt, False
        return nodes

    def findall(self, path, namespaces=None):
        return self._match(path)

    def iterfind(self, path, namespaces=None):
        return iter(self._match(path))

    def find(self, path, namespaces=None):
        r = self._match(path)
        return r[0] if r else None

    def findtext(self, path, default=None, namespaces=None):
        r = self.find(path)
        return default if r is None else (r.text or '')

    def iterdescendants(self, tag=None):
        for k in self.children:
            if tag in (None, '*') or k.tag == tag:
                yield k
            for x in k.iterdescendants(tag):
                yield x

    def iter(self, tag=None):
        if tag in (None, '*') or self.tag == tag:
            yield self
        for x in self.iterdescendants(tag):
            yield x

    def iterchildren(self, tag=None):
        return iter([k for k in self.children if tag in (None, '*') or k.tag == tag])


class FakeTree(object):
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root

    def find(self, p, namespaces=None):
        return self.root.find(p)

    def findall(self, p, namespaces=None):
        return self.root.findall(p)

    def findtext(self, p, default=None, namespaces=None):
        return self.root.findtext(p, default)

    def iter(self, tag=None):
        return self.root.iter(tag)


def esc(s, attr):
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')) + ((('"', '&quot;'), ('\n', '&#10;'), ('\t', '&#9;')) if attr else ()) + (('\r', '&#13;'),):
        s = lift(s).replace(a, b)
    return s


def tostring(e, encoding=None, method='xml', **kw):
    def ser(e):
        out = '<' + e.tag
        for k, v in e.attrib.items():
            out = lift(out) + ' ' + k + '="' + esc(v, True) + '"'
        if e.children or e.text:
            out = lift(out) + '>' + (esc(e.text, False) if e.text else '')
            for k in e.children:
                out = lift(out) + ser(k)
            out = lift(out) + '</' + e.tag + '>'
        else:
            out = lift(out) + '/>'
        return out if not e.tail else lift(out) + esc(e.tail, False)
    r = ser(e)
    if encoding in ('unicode', str):
        return r
    return lift(r).encode(encoding or 'ascii', 'xmlcharrefreplace' if not encoding else 'strict')


def sub(parent, tag, attrib=None, nsmap=None, **kw):
    e = FakeElement(tag, attrib, nsmap, **kw)
    parent.append(e)
    return e


MODELS[etree.Element] = FakeElement
MODELS[etree.SubElement] = sub
MODELS[etree.ElementTree] = lambda x=None, **k: FakeTree(x) if isinstance(x, FakeElement) else etree.ElementTree(x, **k)
MODELS[etree.tostring] = lambda x, *a, **k: tostring(x, *a, **k) if isinstance(x, FakeElement) else etree.tostring(x, *a, **k)
_iselement = etree.iselement
MODELS[etree.iselement] = lambda x: isinstance(x, FakeElement) or _iselement(x)


# ---- documents: a document built in the harness is handed to the code as an opaque body, parsing it gives the tree back
DOCS = {}
COUNT = itertools.count()


def _parsed(e):
    """What parsing the serialised element gives (empty text is no text)."""
    r = FakeElement(e.tag)
    for k, v in e.attrib.items():
        r.attrib[k] = v
    r._text = e._text if e._text is not None and len(e._text) else None
    for k in e.children:
        r.append(_parsed(k))
    return r


def document(root):
    n = next(COUNT) % 1000
    key = ('<?xml version="1.0"?><!-- document %d -->' % n).encode()
    DOCS[key] = root
    return key


def from_real(e):
    r = FakeElement(e.tag if isinstance(e.tag, str) else '!comment')
    for k, v in e.attrib.items():
        r.attrib[k] = v
    r._text, r.tail = e.text, e.tail
    for k in e:
        r.append(from_real(k))
    return r


def _xml(text, parser=None, **kw):
    if isinstance(text, FakeElement):
        return text
    if type(text) in (bytes, str):
        k = text if type(text) is bytes else text.encode('utf-8')
        if k in DOCS:
            return _parsed(DOCS[k])
        return from_real(etree.XML(text, parser, **kw) if parser is not None else etree.XML(text, **kw))
    return from_real(etree.XML(core.concretize(text, 'XML text'), parser))


def _parse(src, parser=None, **kw):
    return FakeTree(_xml(src.read(), parser))


from . import core
MODELS[etree.XML] = _xml
MODELS[etree.fromstring] = _xml
MODELS[etree.parse] = _parse
