"""P35: Yadis discovery uses exactly the document the page names."""
from lxml import etree

XRDS_TYPE = 'application/xrds+xml'
LOCATION = 'x-xrds-location'
NAMES = {'content-type': ('content-type', 'Content-Type', 'CONTENT-TYPE'), LOCATION: ('x-xrds-location', 'X-XRDS-Location', 'X-Xrds-Location')}


class Response(object):
    def __init__(self, final_url, status, headers, body):
        self.final_url, self.status, self.headers, self.body = final_url, status, headers, body


class Fetcher(object):
    """Answers in turn; records everything asked."""

    def __init__(self, answers):
        self.answers = answers
        self.calls = []

    def fetch(self, url, body=None, headers=None):
        self.calls.append((url, body, headers))
        r = self.answers[len(self.calls) - 1]
        if isinstance(r, Exception):
            raise r
        return r


def install(c, answers):
    f = Fetcher(answers)
    c.mod('openid.fetchers').setDefaultFetcher(f, wrap_exceptions=False)
    return f


def trimmed(c, t):
    while t and c.has_char(t[0], ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f'):
        t = t[1:]
    while t and c.has_char(t[-1], ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f'):
        t = t[:-1]
    return t


def media_type(c, value):
    """Type of a content type header, without parameters."""
    for i in range(len(value)):
        if c.eq(value[i], ';'):
            value = value[:i]
            break
    return trimmed(c, value)


def same(c, a, b):
    """Equal without regard to case (b in small letters)."""
    if len(a) != len(b):
        return False
    return c.And([c.Or(c.eq(x, y), c.eq(x, y.upper())) for x, y in zip(a, b)])


def is_xrds(c, value):
    return value is not None and bool(same(c, media_type(c, value), XRDS_TYPE))


def template(c, name, spec):
    pre, n, chars, post = spec
    return pre + c.text(name, n, 0, chars) + post


def pages(c, p):
    """A page and what its head states: the content of the first matching meta, or None."""
    k = c.choice('page', p.get('pages', ('meta',)))
    if k == 'junk':
        return b'', None
    root = etree.Element('html')
    head, body = etree.SubElement(root, 'head'), etree.SubElement(root, 'body')
    found, there = None, False
    for i in range(p.get('metas', 1)):
        kind = c.choice('meta%d' % i, ('text', 'no', 'other', 'body', 'bare', 'nested')[:p.get('kinds', 6)])
        if kind == 'no':
            continue
        parent = {'body': body}.get(kind, head)
        if kind == 'nested':
            parent = etree.SubElement(body, 'div')
        m = etree.SubElement(parent, 'meta')
        name = template(c, 'name%d' % i, p.get('name', ['X-XRDS-Locatio', 1, 'nNm', '']))
        if kind == 'other':
            m.set('name', name)
        else:
            m.set('http-equiv', name)
        value = None
        if kind != 'bare':
            value = c.text('value%d' % i, p.get('n', 1), 0, p.get('chars', 'a-c'))
            m.set('content', value)
        if parent is head and kind != 'other' and not there and same(c, name, LOCATION):
            found, there = value, True
    return c.html(root), found


def header_fields(c, p, kind, location):
    h = {}
    if kind is not None:
        h[c.choice('type name', NAMES['content-type'][:p.get('spelled', 3)])] = kind
    if location is not None:
        h[c.choice('location name', NAMES[LOCATION][:p.get('spelled', 3)])] = location
    h['X-Other'] = 'http://other/'
    return h


def h_where(c):
    """Where the service document of a page is."""
    p = c.params
    D = c.mod('openid.yadis.discover')
    kind = template(c, 'kind', p['kind']) if c.maybe('typed') else None
    location = template(c, 'location', p['location']) if c.maybe('located') else None
    body, stated = pages(c, p)
    r = Response('http://final/', 200, header_fields(c, p, kind, location), body)
    where, ex = c.attempt(D.whereIsYadis, r)
    c.check(ex is None, 'a page never makes discovery fail')
    if is_xrds(c, kind):
        c.check(where == 'http://final/', 'a service document is its own location')
    elif location:
        c.check(where is not None and c.eq(where, location), 'the header names the document')
    elif stated:
        c.check(where is not None and c.eq(where, stated), 'the head of the page names the document')
    else:
        c.check(not where, 'a page that names no document has none')


def h_meta(c):
    """The element in the head of the page."""
    p = c.params
    H = c.mod('openid.yadis.parsehtml')
    import io
    body, stated = pages(c, p)
    r, ex = c.attempt(H.findHTMLMeta, io.BytesIO(body))
    c.check(ex is None or isinstance(ex, H.MetaNotFound), 'a page without the element is reported as such')
    if stated is None:
        c.check(ex is not None, 'a page without the element is reported as such')
    else:
        c.check(ex is None and c.eq(r, stated), 'the first matching element in the head counts')


def h_discover(c):
    """The whole protocol."""
    p = c.params
    D = c.mod('openid.yadis.discover')
    uri, final = 'http://asked/', c.choice('final', p.get('finals', ('http://asked/', 'http://final/')))
    kind = template(c, 'kind', p['kind']) if c.maybe('typed') else None
    location = c.choice('location', p.get('locations', (None, '', 'http://final/', 'http://xrds/', 'file:///x')))
    if p.get('near'):
        location = location + c.text('near', p['near'], 0, '/?#.%20Ff')
    body, stated = pages(c, p)
    s1, s2 = c.int('s1', 0, 999), c.int('s2', 0, 999)
    kind2 = c.choice('kind2', (None, XRDS_TYPE, 'text/html'))
    first = Response(final, s1, header_fields(c, p, kind, location), body)
    second = Response('http://moved/', s2, {} if kind2 is None else {'Content-Type': kind2}, b'<xrds/>')
    down = c.choice('down', (None, 0, 1)) if p.get('down') else None
    answers = [first, second]
    if down is not None:
        answers[down] = OSError('down')
    f = install(c, answers)
    r, ex = c.attempt(D.discover, uri)
    where = final if is_xrds(c, kind) else location if location else stated
    ok1, ok2 = c.Or(s1 == 200, s1 == 206), c.Or(s2 == 200, s2 == 206)
    follow = bool(where) and not c.eq(where, final)
    if down == 0:
        c.check(isinstance(ex, OSError) and len(f.calls) == 1, 'a failing fetch is not hidden')
        return
    u, b, h = f.calls[0]
    c.check(u == uri and b is None and 'application/xrds+xml' in h.get('Accept', ''), 'the identifier is asked for with the accepted types')
    if not ok1:
        c.check(isinstance(ex, D.DiscoveryFailure) and len(f.calls) == 1 and ex.http_response is first, 'a page that is not available is a discovery failure')
        c.check(ex.identity_url is None, 'an unavailable page has no identity')
        return
    c.check(len(f.calls) == (2 if follow else 1), 'exactly the documents needed are fetched')
    if follow:
        u, b, h = f.calls[1]
        c.check(c.eq(u, where) and b is None and not h, 'the document is fetched from where the page says')
        if down == 1:
            c.check(isinstance(ex, OSError), 'a failing fetch is not hidden')
            return
        if not ok2:
            c.check(isinstance(ex, D.DiscoveryFailure) and ex.http_response is second and ex.identity_url == final, 'a document that is not available is a discovery failure')
            return
    c.check(ex is None, 'discovery succeeds')
    c.check(r.request_uri == uri and r.normalized_uri == final, 'the page is known by its final address')
    c.check(r.response_text is (second if follow else first).body, 'the document is the one fetched last')
    c.check(r.usedYadisLocation() == follow, 'an indirection is reported exactly if there was one')
    c.check(r.isXRDS() == (follow or is_xrds(c, kind)), 'the document counts as a service document exactly if it was served or named as one')
    if follow:
        c.check(r.content_type == kind2, 'the type is the one of the document')
    else:
        c.check(r.content_type is None if kind is None else c.eq(r.content_type, kind), 'the type is the one of the document')
    c.check(c.eq(r.xrds_uri, where) if where else not r.xrds_uri, 'the location of the document is reported')


def h_charset(c):
    """Whatever encoding a page claims, its element is found or there is none; nothing fails."""
    p = c.params
    D = c.mod('openid.yadis.discover')
    form = c.choice('form', ('text/html; charset=%s', 'text/html;charset=%s', 'text/html; a=b; charset=%s', 'text/html; charset=%s; a=b', 'text/html; charset="%s"', 'text/html; Charset=%s'))
    name = c.choice('name', ('utf-8', 'ascii', 'latin-1', 'UTF-8 ', '', 'nothing', 'x\x00', 'base64', 'idna', 'undefined', 'hex', '\xe9', 'utf-8\u0660', 'utf_8', 'u' * 200, 'utf-16', 'utf-7', '../x', 'a b'))
    body, stated = pages(c, p)
    r, ex = c.attempt(D.whereIsYadis, Response('http://final/', 200, {'content-type': form % name}, body))
    c.check(ex is None, 'a page never makes discovery fail')
    if name == 'utf-16':
        return  # the page is not in that encoding
    c.check(not r if not stated else r is not None and c.eq(r, stated), 'the head of the page names the document')


def t(pre, n, chars, post=''):
    return [pre, n, chars, post]


HARNESSES = {
    'where': dict(fn=h_where,
                  quick=[dict(kind=t('application/xrds+xm', 2, 'lL; '), location=t('http://', 1, None), kinds=2),
                         dict(kind=t('', 1, ' \ta', 'Application/XRDS+xml; charset=x'), location=t('', 2, 'ab '), kinds=3, spelled=1),
                         dict(kind=t('application/x', 1, 'rRh', 'ds+xml'), location=t('', 0, ''), metas=2, spelled=2),
                         dict(kind=t('text/html; ', 2, 'print', 'application/xrds+xml'), location=t('', 1, 'a'), pages=['junk', 'meta'], kinds=3, spelled=1),
                         dict(kind=t('', 2, 'print'), location=t('', 1, 'a'), kinds=2, spelled=1)],
                  thorough=[dict(kind=t('application/xrds+xm', 3, 'lL; x'), location=t('', 2, None), metas=2), dict(kind=t('', 3, 'print', 'xml'), location=t('', 2, 'a'), kinds=2)],
                  bounds='content types of templates with up to 2 (3) free characters, addresses with up to 2 over Unicode, pages with up to 2 elements'),
    'meta': dict(fn=h_meta, quick=[dict(metas=2, n=1), dict(metas=1, n=2, chars='print', name=t('', 1, 'xX', '-XRDS-LOCATION')), dict(metas=1, name=t('X-XRDS-Location', 1, 'print')), dict(metas=1, name=t('', 1, 'print', 'X-XRDS-Location')), dict(metas=3, kinds=2, name=t('x-xrds-locatio', 1, 'nN')), dict(pages=['junk'])],
                 thorough=[dict(metas=3), dict(metas=2, n=3, chars='print')], bounds='pages with up to 3 elements in head and body'),
    'discover': dict(fn=h_discover, quick=[dict(kind=t('application/xrds+xm', 1, 'lL'), kinds=3), dict(kind=t('application/xrds+xml', 1, '; x'), kinds=2, spelled=1, down=1), dict(kind=t('TEXT/html', 0, ''), kinds=2, n=1, spelled=1), dict(kind=t('text/html', 0, ''), pages=['junk'], finals=['http://final/u', 'http://final/u/', 'HTTP://Final/u'], locations=['http://final/u', 'http://final', 'http://Final/u'], near=1, spelled=1)], thorough=[dict(kind=t('application/xrds+xm', 2, 'lL;'), metas=2)], bounds='every status of both answers, every way of naming the document'),
    'charset': dict(fn=h_charset, quick=[dict(kinds=2)], bounds='six forms of the parameter, nineteen encodings'),
}
