"""XPath subset over FakeElement trees, with symbolic attribute values and texts.

Supports location paths with child, descendant, attribute, self and text()
steps, predicates (conditions and positions), and/or/not, (in)equality,
string functions, and extension functions given as Python callables.
Anything else is reported as not encodable.
"""
import re

from lxml import etree
import lxml.html

from . import rt
from .core import Incomplete, ch_in_ranges, text_cells
from .rt import MODELS, lift

TOKEN = re.compile(r'''\s*(?:(?P<str>"[^"]*"|'[^']*')|(?P<num>\d+(?:\.\d+)?)|(?P<op>//|/|\[|\]|\(|\)|@|,|!=|<=|>=|=|<|>|\||\.\.|\.|\*|\+|-)|(?P<name>[A-Za-z_][\w\-]*(?::[A-Za-z_][\w\-]*)?))''')
WS = ((9, 10), (13, 13), (32, 32))


def tokens(expr):
    out, i = [], 0
    expr = expr.rstrip()
    while i < len(expr):
        m = TOKEN.match(expr, i)
        if not m:
            raise etree.XPathEvalError('Invalid expression')
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class Attr(object):
    """An attribute node."""

    def __init__(self, v):
        self.value = v


def string(v):
    if isinstance(v, list):
        return string(v[0]) if v else ''
    if isinstance(v, Attr):
        return v.value
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return str(int(v)) if v == int(v) else repr(v)
    if hasattr(v, 'children'):
        out = v.text or ''
        for k in v.children:
            out = lift(out) + string(k) + (k.tail or '')
        return out
    return v


def boolean(v):
    if isinstance(v, list):
        return bool(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        return v != 0
    if type(v) is rt.core.SymBool:
        return bool(v)
    return len(v) > 0


def equal(a, b):
    if isinstance(a, list) or isinstance(b, list):
        if isinstance(a, bool) or isinstance(b, bool):
            return boolean(a) == boolean(b)
        xs = a if isinstance(a, list) else [a]
        ys = b if isinstance(b, list) else [b]
        return any(bool(lift(string(x)) == string(y)) for x in xs for y in ys)
    if isinstance(a, bool) or isinstance(b, bool):
        return boolean(a) == boolean(b)
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, float) and isinstance(b, float)):
            raise Incomplete('XPath number comparison')
        return a == b
    return bool(lift(string(a)) == string(b))


def is_ws(ch):
    return all(bool(ch_in_ranges(x, WS)) for x in text_cells(ch))


def normalize_space(s):
    words, cur = [], None
    for i in range(len(s)):
        ch = s[i:i + 1]
        if is_ws(ch):
            if cur is not None:
                words.append(cur)
            cur = None
        else:
            cur = ch if cur is None else lift(cur) + ch
    if cur is not None:
        words.append(cur)
    out = ''
    for k, w in enumerate(words):
        out = w if k == 0 else lift(out) + ' ' + w
    return out


def translate(s, a, b):
    m = {}
    for i, x in enumerate(rt.plain(a) if not isinstance(a, str) else a):
        m.setdefault(x, b[i] if i < len(b) else '')
    out = ''
    for i in range(len(s)):
        ch = s[i:i + 1]
        for x, y in m.items():
            if bool(lift(ch) == x):
                ch = y
                break
        out = lift(out) + ch
    return out


class Parser(object):
    """Recursive descent straight to closures of (node, position, size)."""

    def __init__(self, expr, ext):
        self.t = tokens(expr)
        self.i = 0
        self.ext = ext

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def expect(self, x):
        if self.peek() != x:
            raise etree.XPathEvalError('Invalid expression')
        self.i += 1

    def binary(self, ops, sub, f):
        a = sub()
        while self.kind() in ('op', 'name') and self.peek() in ops:
            op = self.next()
            b = sub()
            a = (lambda a, b, op: lambda *n: f(op, a, b, n))(a, b, op)
        return a

    def expr(self):
        return self.binary(('or',), self.and_, lambda op, a, b, n: boolean(a(*n)) or boolean(b(*n)))

    def and_(self):
        return self.binary(('and',), self.eq, lambda op, a, b, n: boolean(a(*n)) and boolean(b(*n)))

    def eq(self):
        def f(op, a, b, n):
            x, y = a(*n), b(*n)
            if op == '=':
                return equal(x, y)
            if isinstance(x, list) or isinstance(y, list):
                xs, ys = x if isinstance(x, list) else [x], y if isinstance(y, list) else [y]
                return any(not equal(p, q) for p in xs for q in ys)
            return not equal(x, y)
        return self.binary(('=', '!='), self.union, f)

    def union(self):
        def f(op, a, b, n):
            xs, ys = a(*n), b(*n)
            seen = set(map(id, xs))
            both = xs + [y for y in ys if id(y) not in seen]
            order = {id(k): j for j, k in enumerate(root_of(n[0]).iter())}
            return sorted(both, key=lambda k: order.get(id(k), 0))
        return self.binary(('|',), self.path, f)

    def path(self):
        k, p = self.kind(), self.peek()
        if k == 'str':
            self.i += 1
            return lambda *n: p[1:-1]
        if k == 'num':
            self.i += 1
            return lambda *n: float(p)
        if p == '(':
            self.i += 1
            e = self.expr()
            self.expect(')')
            return self.steps(e) if self.peek() in ('/', '//', '[') else e
        if k == 'name' and self.peek(1) == '(' and p not in ('text', 'node'):
            return self.function()
        if p in ('/', '//'):
            return self.steps(lambda *n: [Doc(root_of(n[0]))])
        return self.steps(lambda *n: [n[0]], True)

    def function(self):
        name = self.next()
        self.expect('(')
        args = []
        while self.peek() != ')':
            args.append(self.expr())
            if self.peek() == ',':
                self.i += 1
        self.i += 1
        return lambda *n: self.apply(name, [a(*n) for a in args], n)

    def apply(self, name, a, n):
        if name in self.ext:
            return nodes(rt.call(self.ext[name], None, *[[string(x) for x in v] if isinstance(v, list) and not any(hasattr(x, 'children') for x in v) else v for v in a]))
        if name == 'contains':
            return rt.contains(string(a[0]), string(a[1]))
        if name == 'starts-with':
            return boolean_of(lift(string(a[0])).startswith(string(a[1])))
        if name == 'concat':
            out = ''
            for x in a:
                out = lift(out) + string(x)
            return out
        if name == 'normalize-space':
            return normalize_space(string(a[0]) if a else string(n[0]))
        if name == 'translate':
            return translate(string(a[0]), a[1], a[2])
        if name == 'string':
            return string(a[0]) if a else string(n[0])
        if name == 'not':
            return not boolean(a[0])
        if name == 'boolean':
            return boolean(a[0])
        if name == 'true':
            return True
        if name == 'false':
            return False
        if name == 'count':
            return float(len(a[0]))
        if name == 'string-length':
            return float(len(string(a[0])))
        if name == 'position':
            return float(n[1])
        if name == 'last':
            return float(n[2])
        if name in ('local-name', 'name'):
            e = a[0][0] if a else n[0]
            return e.tag.rpartition('}')[2]
        raise Incomplete('XPath function %s' % name)

    def steps(self, start, relative=False):
        cur, first = start, True
        while True:
            p = self.peek()
            if p in ('/', '//'):
                self.i += 1
                deep = p == '//'
                if p == '/' and self.kind() is None:
                    return cur
            elif first and relative:
                deep = False
            elif p == '[':
                cur = self.predicate(cur)
                continue
            else:
                return cur
            first = False
            cur = self.step(cur, deep)

    def step(self, cur, deep):
        p = self.next()
        axis = 'child'
        if self.peek() is None and False:
            pass
        if p == '@':
            axis, p = 'attribute', self.next()
        elif p == '.':
            axis = 'self'
        elif p == '..':
            axis = 'parent'
        elif p in ('text', 'node') and self.peek() == '(':
            self.expect('(')
            self.expect(')')
            axis = p
        elif ':' in p:
            raise Incomplete('XPath name with prefix or axis: %s' % p)
        preds = []
        while self.peek() == '[':
            self.i += 1
            preds.append(self.expr())
            self.expect(']')

        def run(*n):
            out, seen = [], set()
            for node in cur(*n):
                bases = [node] + list(node.iterdescendants()) if deep else [node]
                for b in bases:
                    if axis == 'child':
                        got = [k for k in b.children if p == '*' or k.tag == p]
                    elif axis == 'attribute':
                        got = [Attr(v) for k, v in b.items() if p == '*' or rt.plain(k) == p]
                    elif axis == 'self':
                        got = [b]
                    elif axis == 'parent':
                        got = [b.parent] if b.parent is not None else []
                    elif axis == 'text':
                        got = [b.text] if b.text else []
                    else:
                        got = list(b.children)
                    for pr in preds:
                        kept = []
                        for j, g in enumerate(got):
                            v = pr(g, j + 1, len(got))
                            if v == float(j + 1) if isinstance(v, float) else boolean(v):
                                kept.append(g)
                        got = kept
                    for g in got:
                        if id(g) not in seen:
                            seen.add(id(g))
                            out.append(g)
            return out
        return run

    def predicate(self, cur):
        self.expect('[')
        pr = self.expr()
        self.expect(']')

        def run(*n):
            got = cur(*n)
            return [g for j, g in enumerate(got) for v in [pr(g, j + 1, len(got))] if (v == float(j + 1) if isinstance(v, float) else boolean(v))]
        return run


class Doc(object):
    """The document node."""
    tag = '/'
    parent = None

    def __init__(self, root):
        self.children = [root]

    def iterdescendants(self, tag=None):
        return self.children[0].iter(tag)

    def items(self):
        return []


def boolean_of(v):
    return bool(v)


def nodes(v):
    return v


def root_of(n):
    while getattr(n, 'parent', None) is not None:
        n = n.parent
    return n


def evaluate(node, expr, extensions=None):
    ext = {}
    for k, f in (extensions or {}).items():
        if k[0] is not None:
            raise Incomplete('XPath extension with namespace')
        ext[k[1]] = f
    p = Parser(rt.plain(expr), ext)
    e = p.expr()
    if p.i != len(p.t):
        raise etree.XPathEvalError('Invalid expression')
    v = e(node, 1, 1)
    return [x.value if isinstance(x, Attr) else x for x in v] if isinstance(v, list) else v


# ---- HTML documents
from . import lxmlmodel as L


def _xpath(self, path, namespaces=None, extensions=None, **kw):
    if kw:
        raise Incomplete('XPath variables')
    return evaluate(self, path, extensions)


L.FakeElement.xpath = _xpath
L.FakeTree.xpath = lambda self, path, **kw: _xpath(self.root, path, **kw)


def as_html(text):
    """What the HTML parser makes of a document, or None when it is not one of the harness."""
    k = text if type(text) is bytes else text.encode('utf-8') if type(text) is str else None
    if k not in L.DOCS:
        return None
    e = L.DOCS[k]
    if e.tag == 'html':
        return L._parsed(e)
    # an XML document read as HTML: unknown elements in the body
    root = L.FakeElement('html')
    body = L.sub(root, 'body')

    def plainer(e):
        r = L.FakeElement(e.tag.rpartition('}')[2].lower())
        r._text = e._text
        for x, v in e.attrib.items():
            r.attrib[x] = v
        for x in e.children:
            r.append(plainer(x))
        return r
    body.append(plainer(e))
    return root


def document_fromstring(html, parser=None, ensure_head_body=False, **kw):
    if isinstance(html, L.FakeElement):
        return html
    e = as_html(html)
    if e is not None:
        return e
    if type(html) not in (bytes, str):
        html = rt.core.concretize(html, 'HTML text')
    return L.from_real(lxml.html.document_fromstring(html, ensure_head_body=ensure_head_body, **kw))


_xml_parse = MODELS[etree.parse]
_xml_string = MODELS[etree.fromstring]


def _is_html(parser):
    return isinstance(parser, etree.HTMLParser)


def parse(src, parser=None, **kw):
    if _is_html(parser):
        text = src.read()
        e = as_html(text)
        if e is None:
            if type(text) not in (bytes, str):
                text = rt.core.concretize(text, 'HTML text')
            import io
            t = etree.parse(io.BytesIO(text) if type(text) is bytes else io.StringIO(text), parser)
            e = None if t.getroot() is None else L.from_real(t.getroot())
        return L.FakeTree(e)
    return _xml_parse(src, parser, **kw)


def fromstring(text, parser=None, **kw):
    if _is_html(parser):
        e = as_html(text)
        if e is not None:
            return e
        return L.from_real(etree.fromstring(rt.core.concretize(text, 'HTML text') if type(text) not in (bytes, str) else text, parser))
    return _xml_string(text, parser, **kw)


def html_string(text, parser=None, **kw):
    if parser is not None:
        raise Incomplete('etree.HTML with parser')
    return document_fromstring(text)


class Evaluator(object):
    def __init__(self, node, namespaces=None, extensions=None, **kw):
        self.node, self.ext = node, extensions

    def __call__(self, path, **kw):
        root = self.node.root if isinstance(self.node, L.FakeTree) else self.node
        return evaluate(root, path, self.ext)


class Compiled(object):
    def __init__(self, path, namespaces=None, extensions=None, **kw):
        self.path, self.ext = path, extensions

    def __call__(self, node, **kw):
        root = node.root if isinstance(node, L.FakeTree) else node
        return evaluate(root, self.path, self.ext)


MODELS[lxml.html.document_fromstring] = document_fromstring
MODELS[etree.parse] = parse
MODELS[etree.fromstring] = fromstring
MODELS[etree.HTML] = html_string
_xpe = etree.XPathEvaluator
MODELS[_xpe] = lambda node, **kw: Evaluator(node, **kw) if isinstance(node, (L.FakeElement, L.FakeTree)) else _xpe(node, **kw)
_xp = etree.XPath
MODELS[_xp] = lambda path, **kw: Compiled(path, **kw)
