"""P28: an XRI's canonical identifier is only trusted from its parent authority."""
from lxml import etree
from six.moves.urllib.parse import parse_qsl, unquote

from checks import fakes

AUTH = '!=@+$('


def full(c, x):
    """With the scheme, for comparison."""
    return x if c.eq(x[:6], 'xri://') else 'xri://' + x


def low(x):
    return x.lower()


def root_of(c, iname):
    """Root authority of an XRI: its symbol, cross-reference or first segment; None if it has none."""
    x = iname[6:] if c.eq(iname[:6], 'xri://') else iname
    if not x or c.eq(x[0], '/'):
        return None
    if c.eq(x[0], '('):
        i = x.find(')')
        return x[:i + 1] if i >= 0 else None
    if c.has_char(x[0], AUTH):
        return x[0]
    for i in range(len(x)):
        if c.has_char(x[i], '/!*'):
            return x[:i]
    return x


def child_of(c, child, parent):
    """child is parent followed by one more '!' segment"""
    n = len(parent)
    if len(child) <= n:
        return False
    return c.And(c.eq(child[:n], parent), c.eq(child[n], '!'), c.Not(c.has_char(child[n + 1:], '!')))


def trusted(c, iname, ids):
    """ids: canonical identifiers from the outermost document to the one of the name."""
    root = root_of(c, iname)
    if root is None:
        return False
    ok = []
    chain = list(reversed(ids))
    for a, b in zip(chain, chain[1:]):
        if b is None or b == '':
            return False
        ok.append(child_of(c, low(full(c, a)), low(full(c, b))))
    ok.append(child_of(c, low(full(c, chain[-1])), low('xri://' + root)))
    return c.And(*ok)


def ident(c, name, spec):
    pre, n, chars, post = spec
    return pre + c.text(name, n, 0, chars) + post


def build(c, ids, services=0):
    root = fakes.xrds()
    for k, i in enumerate(ids):
        x = fakes.el(root, 'XRD')
        fakes.el(x, 'Query', '*q%d' % k)
        if k == len(ids) - 1:
            for j in range(services):
                fakes.service(x, ['http://specs.openid.net/auth/2.0/signon'], ['http://op%d/' % j], local=['http://local/'])
        if i is not None:
            fakes.el(x, 'CanonicalID', i)
            if c.params.get('second'):
                fakes.el(x, 'CanonicalID', c.params['second'])
    return root


def h_chain(c):
    p = c.params
    X = c.mod('openid.yadis.etxrd')
    iname = ident(c, 'iname', p['iname'])
    ids = []
    for k, s in enumerate(p['ids']):
        ids.append(None if p.get('missing') and c.maybe('missing%d' % k) else ident(c, 'id%d' % k, s))
    r, ex = c.attempt(X.getCanonicalID, iname, etree.ElementTree(build(c, ids)))
    if not ids or ids[-1] is None:
        c.check(ex is None and r is None, 'without canonical identifier there is none')
        return
    c.check(ex is None or isinstance(ex, X.XRDSError), 'only the document error is raised')
    good = trusted(c, iname, ids)
    c.check(c.Iff(ex is None, good), 'a canonical identifier is accepted exactly from its parent authorities')
    if ex is None:
        c.check(c.eq(full(c, r), full(c, ids[-1])), 'the canonical identifier is returned unchanged')


def h_discover(c):
    """Discovery never yields an endpoint with an untrusted canonical identifier."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    iname = ident(c, 'iname', p['iname'])
    c.assume(c.Or(c.eq(iname[:6], 'xri://'), c.has_char(iname[:1], AUTH)))
    ids = [None if c.maybe('missing%d' % k) else ident(c, 'id%d' % k, s) for k, s in enumerate(p['ids'])]
    doc = c.document(build(c, ids, c.pick('services', 2)))
    status = c.choice('status', (200, 206, 201, 204, 300, 302, 404, 500))
    f = fakes.install(c, lambda u, b, h: fakes.Response(u, status, {}, doc))
    r, ex = c.attempt(D.discover, iname)
    c.check(ex is None or isinstance(ex, D.DiscoveryFailure), 'discovery of an XRI fails with the discovery error only')
    c.check(all(u.startswith('http://proxy.xri.net/') for u, b in f.calls), 'only the resolver is asked')
    if ex is not None:
        return
    name, eps = r
    bare = iname[6:] if c.eq(iname[:6], 'xri://') else iname
    c.check(c.eq(name, bare), 'the name without scheme identifies the user')
    if not eps:
        return
    c.check(status in (200, 206), 'failed answers are not used')
    c.check(ids[-1] is not None and trusted(c, iname, ids), 'endpoints only for a trusted canonical identifier')
    for e in eps:
        c.check(c.And(c.eq(full(c, e.claimed_id), full(c, ids[-1])), c.eq(full(c, e.canonicalID), full(c, ids[-1]))), 'the claimed identifier is the canonical one')
        c.check(c.eq(e.getDisplayIdentifier(), bare), 'the name is displayed')
        c.check(e.server_url == 'http://op0/' and e.local_id == 'http://local/', 'the endpoint is the one of the document')


TYPES = ['http://specs.openid.net/auth/2.0/server', 'http://specs.openid.net/auth/2.0/signon', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0']


def h_mixed(c):
    """The resolver follows references, so it may give another document for each service type asked for."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    answers = {}

    def answer(u, b, h):
        k = TYPES.index(dict(parse_qsl(u.partition('?')[2]))['_xrd_t'])
        if k in answers:
            status, ident, n, doc = answers[k]
            return fakes.Response(u, status, {}, doc)
        kind = c.choice('kind%d' % k, p['kinds'])
        status, ident, n = 200, None, 0
        if kind == 'gone':
            status = c.choice('status%d' % k, (300, 404))
        else:
            ident = None if kind == 'anonymous' else '=!' + c.text('id%d' % k, 1, 1, p['chars'])
            n = 1 if kind == 'anonymous' else c.pick('services%d' % k, 2)
        root = fakes.xrds()
        x = fakes.el(root, 'XRD')
        if n:
            fakes.service(x, [p.get('type', TYPES[k])], ['http://op%d/' % k])
        if ident is not None:
            fakes.el(x, 'CanonicalID', ident)
        answers[k] = (status, ident, n, c.document(root))
        return fakes.Response(u, status, {}, answers[k][3])
    fakes.install(c, answer)
    r, ex = c.attempt(D.discover, '=x')
    c.check(ex is None or isinstance(ex, D.DiscoveryFailure), 'discovery of an XRI fails with the discovery error only')
    if ex is not None:
        return
    ok = [v for v in answers.values() if v[0] == 200]
    for e in r[1]:
        v = answers[int(e.server_url[len('http://op'):-1])]
        c.check(v[0] == 200 and v[2] == 1, 'endpoints are those of the documents')
        c.check(v[1] is not None and c.eq(full(c, e.claimed_id), full(c, v[1])) and c.eq(full(c, e.canonicalID), full(c, v[1])), 'the claimed identifier is the canonical one of the document the endpoint is from')
    if ok and all(v[1] is not None for v in ok) and c.And([c.eq(v[1], ok[0][1]) for v in ok]):
        c.check(len(r[1]) > 0 or not sum(v[2] for v in ok), 'if all documents agree their services are used')


def h_scheme(c):
    p = c.params
    X = c.mod('openid.yadis.xri')
    s = p.get('pre', '') + c.text('s', p['n'], 0, p.get('chars'))
    r, ex = c.attempt(X.identifierScheme, s)
    c.check(ex is None and r in ('XRI', 'URI'), 'every text is classified')
    c.check(c.Iff(r == 'XRI', c.Or(c.eq(s[:6], 'xri://'), c.And(len(s) > 0, c.has_char(s[:1], AUTH)))), 'XRIs are known by their leading characters')


UNRES = '-._~'
URI = 'a-zA-Z0-9'


def h_normal(c):
    """The URI form can be undone, so distinct XRIs stay distinct."""
    p = c.params
    X = c.mod('openid.yadis.xri')
    s = p.get('pre', '') + c.text('s', p['n'], 0, p.get('chars')) + p.get('post', '')
    u, ex = c.attempt(X.toURINormal, s)
    if ex is not None:
        c.check(isinstance(ex, UnicodeError) and c.Not(c.all_chars(s, ((0, 0xd7ff), (0xe000, 0x10ffff)))), 'only surrogates can not be escaped')
        return
    c.check(c.eq(unquote(u), full(c, s)), 'undoing the escapes gives the XRI')
    c.check(u[:6] == 'xri://', 'the URI form has the scheme')
    c.check(c.all_chars(u, ((33, 33), (35, 59), (61, 61), (63, 91), (93, 93), (95, 95), (97, 122), (126, 126))), 'the URI form has URI characters only')
    depth = False
    for ch in u[6:]:
        if depth:
            c.check(c.Or(c.Not(c.has_char(ch, '/?#')), not closes(c, u, s)), 'separators inside cross-references are escaped')
        if c.eq(ch, '('):
            depth = True
        elif c.eq(ch, ')'):
            depth = False


def closes(c, u, s):
    """Every cross-reference is closed (on its line)."""
    opened = False
    for ch in s:
        if opened and c.eq(ch, '\n'):
            return False
        if c.eq(ch, '('):
            opened = True
        elif c.eq(ch, ')'):
            opened = False
    return not opened


def h_query(c):
    """The resolver is asked for the XRI and the service type, nothing else."""
    p = c.params
    R = c.mod('openid.yadis.xrires')
    X = c.mod('openid.yadis.xri')
    s = p.get('pre', '=') + c.text('s', p['n'], 0, p['chars']) + p.get('post', '')
    t = c.text('type', p['tn'], 0, p.get('tchars')) if c.maybe('typed') else None
    u = R.ProxyResolver('http://proxy/').queryURL(s, t)
    n = X.toURINormal(s)[6:]
    c.check(c.eq(u[:13], 'http://proxy/') and c.eq(u[13:13 + len(n)], n), 'the question is about the XRI')
    rest = u[13 + len(n):]
    inner = n
    while inner and c.eq(inner[-1], '?'):
        inner = inner[:-1]
    c.check(c.eq(rest[:1], '&' if c.has_char(inner, '?') else '?'), 'the arguments extend the query')
    want = [('_xrd_r', 'application/xrds+xml'), ('_xrd_t', t)] if t else [('_xrd_r', 'application/xrds+xml;sep=false')]
    got = parse_qsl(rest[1:], keep_blank_values=True)
    c.check(len(got) == len(want), 'the arguments state document and service type')
    for (a, b), (x, y) in zip(got, want):
        c.check(c.And(c.eq(a, x), c.eq(b, y)), 'the arguments state document and service type')


def f(pre, n, chars, post=''):
    return [pre, n, chars, post]


EX = '=@!aA'
HARNESSES = {
    'chain': dict(fn=h_chain,
                  quick=[dict(iname=f('', 2, '=@!(a/*)x'), ids=[f('', 4, '=@!a')]),
                         dict(iname=f('=x', 0, ''), ids=[f('=!', 2, '!a*A'), f('=!', 4, '!aA')], missing=1),
                         dict(iname=f('=x', 0, ''), ids=[f('=!', 1, '!a'), f('=!', 2, '!a'), f('=!', 4, '!a')]),
                         dict(iname=f('=x', 0, ''), ids=[f('=!', 1, 'aA'), f('=!', 3, '!aA'), f('=!', 5, '!aA')]),
                         dict(iname=f('', 1, '=@!'), ids=[f('xri://', 1, '=@!', '!a'), f('', 1, '=@!', '!a!b')]),
                         dict(iname=f('xri://', 3, '(a)/@'), ids=[f('', 2, '(a)/@', '!b')], missing=1),
                         dict(iname=f('(http://A', 1, 'b)/', ')*x'), ids=[f('(http://a', 2, 'b)/!', ')!b')]),
                         dict(iname=f('ab', 2, 'c*!/', 'd'), ids=[f('ab', 2, 'c*!/A', '!b')]),
                         dict(iname=f('=x', 0, ''), ids=[f('=', 2, 'print')]),
                         dict(iname=f('=x', 0, ''), ids=[f('', 2, 'print')]),
                         dict(iname=f('@x', 0, ''), ids=[f('@!1', 0, ''), f('@!1!', 2, '1!')], second='@!2'),
                         dict(iname=f('@x', 0, ''), ids=[])],
                  thorough=[dict(iname=f('=x', 0, ''), ids=[f('=!', 2, '!aA'), f('=!', 3, '!aA'), f('=!', 5, '!aA')], missing=1),
                            dict(iname=f('', 3, '=@!(a/*)x'), ids=[f('', 5, '=@!a')]), dict(iname=f('=x', 0, ''), ids=[f('=', 2, '!a'), f('=', 3, '!a'), f('=', 4, '!a'), f('=', 5, '!a')])],
                  bounds='up to 3 (thorough 4) documents, names up to 3 and canonical identifiers up to 5 free characters'),
    'discover': dict(fn=h_discover, quick=[dict(iname=f('=x', 0, ''), ids=[f('=!', 1, '!a'), f('=!', 2, '!a')]), dict(iname=f('', 1, '=@!(', ')/'), ids=[f('', 2, '=@!a()', '!b')]), dict(iname=f('xri://', 2, '=(/)'), ids=[f('=', 2, '!a')])], thorough=[dict(iname=f('=', 1, 'print'), ids=[f('=', 3, '!a'), f('=', 4, '!a')])], bounds='one or two documents'),
    'mixed': dict(fn=h_mixed, quick=[dict(kinds=['named', 'gone', 'anonymous'], chars='ab'), dict(kinds=['named', 'gone'], chars='aA', type=TYPES[1])], thorough=[dict(kinds=['named', 'gone', 'anonymous'], chars='a-zA')],
              bounds='every service type answered by another document: with its own symbolic canonical identifier, without one, or not at all'),
    'scheme': dict(fn=h_scheme, quick=[dict(n=2), dict(n=7, chars='xri:/a='), dict(pre='xri:/', n=2)], thorough=[dict(n=8, chars='xri:/a=X'), dict(n=4)], bounds='texts up to 2 (8) characters'),
    'normal': dict(fn=h_normal, quick=[dict(pre='=', n=3, chars='(/)?#% a'), dict(pre='(', n=2, chars='print', post=')/b'), dict(n=2), dict(pre='xri://', n=2, chars='(%)/\n'), dict(pre='@(', n=3, chars='/?#%)(\n', post=')')], thorough=[dict(pre='=', n=5, chars='(/)?#%'), dict(n=3)], bounds='XRIs of templates with up to 3 (5) free characters over Unicode'),
    'query': dict(fn=h_query, quick=[dict(n=2, chars='?/(a#&', tn=1), dict(n=1, chars='print', tn=2, tchars='a&=% +/;?'), dict(pre='=a?', n=2, chars='?a&(', tn=0), dict(pre='=(', n=2, chars='?a)/', post=')', tn=0)], thorough=[dict(n=4, chars='?/(a)', tn=0), dict(n=1, chars='a', tn=3)], bounds='XRIs with up to 2 (4) free characters, service types up to 2 (3)'),
}
