"""P08: URLs and forms built from messages carry exactly the arguments."""
from urllib.parse import parse_qsl, urlsplit
NS2 = 'http://specs.openid.net/auth/2.0'
URLCH = '!-"$->@-~'       # visible ASCII without # and ?


def base(c):
    p = c.params
    path = c.text('path', p.get('path', 1), 0, URLCH)
    url = 'http://h' + ('/' + path if p.get('slash', 1) else '')
    q = f = None
    if p.get('query') is not None:
        q = c.text('q', p['query'], 0, URLCH + '?')
        url = url + '?' + q
    if p.get('frag') is not None:
        f = c.text('f', p['frag'], 0, URLCH + '?#')
        url = url + '#' + f
    return url, q, f


def decode(q):
    return parse_qsl(q, keep_blank_values=True)


def verify(c, url, q, f, res, args):
    head, h, frag = res.partition('#')
    if f is not None:
        c.check(h == '#' and c.eq(frag, f), 'the fragment stays a fragment')
    else:
        c.check(h == '', 'no fragment is invented')
    place, sep, query = head.partition('?')
    c.check(c.eq(place, url.partition('#')[0].partition('?')[0]), 'scheme, host and path are kept')
    got = decode(query)
    old = decode(q) if q else []
    c.check(len(got) == len(old) + len(args), 'exactly the given arguments are added')
    for x, y in zip(got, old + args):
        c.check(c.And(c.eq(x[0], y[0]), c.eq(x[1], y[1])), 'names and values decode unchanged and in order')


def h_append(c):
    O = c.mod('openid.oidutil')
    p = c.params
    url, q, f = base(c)
    args = []
    for i in range(p['n']):
        args.append((c.text('k%d' % i, p.get('k', 1)), c.text('v%d' % i, p.get('v', 1))))
    given = list(args)
    res = O.appendArgs(url, dict(args) if p.get('dict') and len(args) == 1 else args)
    if not args:
        c.check(c.eq(res, url), 'without arguments the URL is unchanged')
        return
    verify(c, url, q, f, res, given)


def h_url(c):
    """A message as URL and as URL-encoded text."""
    M = c.mod('openid.message')
    p = c.params
    url, q, f = base(c)
    m = M.Message(NS2)
    m.setArg(M.OPENID_NS, 'mode', 'x')
    m.setArg(M.OPENID_NS, c.text('k', p.get('k', 1), 1, 'a-z_.&=+ %'), c.text('v', p.get('v', 1)))
    if p.get('bare'):
        m.setArg(M.BARE_NS, c.text('bk', 1), 'bare value')
    res = m.toURL(url)
    verify(c, url, q, f, res, sorted(m.toPostArgs().items()))
    enc = m.toURLEncoded()
    got = decode(enc)
    want = m.toPostArgs()
    c.check(len(got) == len(want), 'the encoded text has every argument once')
    for k, v in got:
        c.check(k in want and c.eq(want[k], v), 'the encoded text decodes to the arguments')


def unescape(s):
    for a, b in (('&quot;', '"'), ('&lt;', '<'), ('&gt;', '>'), ('&#10;', '\n'), ('&#9;', '\t'), ('&#13;', '\r'), ('&apos;', "'"), ('&#39;', "'"),
                 ('&#x27;', "'"), ('&#34;', '"'), ('&amp;', '&')):
        s = s.replace(a, b)
    return s


def tags(c, html):
    """[(tag, {attribute: value})] of the elements in the markup."""
    out = []
    i = 0
    while True:
        i = html.find('<', i)
        if i < 0:
            return out
        j = i + 1
        # scan to the closing '>' outside quotes
        name = ''
        while j < len(html) and html[j] not in ' >/' or j == i + 1:
            name = name + html[j]
            j += 1
        attrs = {}
        while j < len(html) and html[j] != '>':
            if html[j] == ' ' or html[j] == '/':
                j += 1
                continue
            k = html.find('=', j)
            key = html[j:k]
            quote = html[k + 1]
            e = html.find(quote, k + 2)
            if key in attrs:
                c.fail('an attribute is repeated')
            attrs[key] = unescape(html[k + 2:e])
            j = e + 1
        if not name.startswith('/'):
            out.append((name, attrs))
        i = j


def check_form(c, html, action, want):
    ts = tags(c, html)
    forms = [a for n, a in ts if n == 'form']
    c.check(len(forms) == 1, 'there is one form')
    c.check(c.eq(forms[0].get('action'), action), 'the form posts to the given address')
    c.check(c.eq(forms[0].get('method', 'get').lower(), 'post'), 'the form uses POST')
    hidden = [a for n, a in ts if n == 'input' and a.get('type') == 'hidden']
    c.check(len(hidden) == len(want), 'each argument appears exactly once')
    for a in hidden:
        c.check(a['name'] in want and c.eq(want[a['name']], a['value']), 'each argument has its exact value')
    for n, a in ts:
        if n == 'input' and a.get('type') != 'hidden':
            c.check('name' not in a, 'nothing else is submitted')
        c.check(n in ('form', 'input', 'html', 'head', 'title', 'body', 'script'), 'no other element appears')


XMLCH = ((9, 10), (13, 13), (32, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x10ffff))


def h_form(c):
    M = c.mod('openid.message')
    p = c.params
    m = M.Message(NS2)
    m.setArg(M.OPENID_NS, 'mode', 'x')
    m.setArg(M.OPENID_NS, c.text('k', p.get('k', 1), 1, 'a-z."<&'), c.text('v', p.get('v', 2), 0, XMLCH))
    action = 'http://h/' + c.text('act', 1, 0, 'graph')
    attrs = {'class': c.text('cls', 1, 0, XMLCH), 'method': 'get', 'action': 'http://evil/'} if p.get('attrs') else None
    html = m.toFormMarkup(action, attrs)
    check_form(c, html, action, m.toPostArgs())


Q = [dict(n=1, k=1, v=1), dict(n=1, k=0, v=2, path=0), dict(n=1, k=0, v=1, query=1, path=0), dict(n=2, k=1, v=0, slash=0, path=0), dict(n=1, k=0, v=1, query=2, frag=1, path=0), dict(n=1, v=0, frag=2, path=1),
     dict(n=0, query=1, frag=1), dict(n=1, dict=1, k=1, v=1, frag=0)]
HARNESSES = {
    'append': dict(fn=h_append, quick=Q, thorough=Q + [dict(n=2, k=1, v=1, query=1), dict(n=1, k=2, v=2, path=0), dict(n=1, query=3, frag=3, path=0, v=0, k=0)],
                   bounds='base URL with path, query and fragment of up to 1-3 visible ASCII characters each; up to 2 arguments with names and values up to 2 characters of all Unicode'),
    'url': dict(fn=h_url, quick=[dict(), dict(query=1, frag=1, path=0, v=0), dict(bare=1, v=0, path=0)], bounds='as above, OpenID 2 message with a symbolic field'),
    'form': dict(fn=h_form, quick=[dict(v=1, k=1, attrs=1), dict(v=2, k=1)], bounds='values up to 2 characters representable in XML, symbolic action and extra attributes'),
}
