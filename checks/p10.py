"""P10: return-to verification accepts only listed, non-wildcard addresses."""
from checks import fakes
from checks.p09 import authority

RT = 'http://specs.openid.net/auth/2.0/return_to'


def entry(c, name, kind):
    """(entry, parts) of an allowed-address entry; parts is None when it can never match."""
    if kind == 'path':
        p = '/' + c.text(name + 'p', 2, 0, 'ab/')
        return 'http://h' + p, ('http', 'h', p)
    if kind == 'host':
        h = c.text(name + 'h', 2, 1, 'ab')
        return 'http://' + h + '/', ('http', h, '/')
    if kind == 'wild':
        h = c.text(name + 'h', 1, 1, 'ab')
        return 'http://*.' + h + '/', None
    if kind == 'wildvar':
        h = c.text(name + 'h', 1, 1, 'ab')
        return c.choice(name + 'pre', ['http://u@*.', 'http://u:p@*.', 'http://%2A.', 'http://%2a.', 'HTTP://*.', 'http://u:*@*.']) + h + '/', None
    if kind == 'startext':
        p = c.choice(name + 'p', ['/*', '/://*.a', '/*.a/'])
        return 'http://' + c.choice(name + 'u', ['', 'u@']) + 'h' + p, ('http', 'h', p)
    if kind == 'star':
        return 'http://*/', None
    if kind == 'https':
        return 'https://h/', ('https', 'h', '/')
    if kind == 'frag':
        return 'http://h/#' + c.text(name + 'f', 1, 1, 'ab'), None
    if kind == 'bad':
        return c.choice(name + 'bad', ['', 'h', 'ftp://h/', 'http://', 'http://h:x/', '//h/', 'http:///', 'mailto:h']), None
    raise ValueError(kind)


def extends(c, P, U):
    if c.eq(P, U):
        return True
    if not U.startswith(P):
        return False
    return c.Or(P.endswith('/'), U[len(P)] == '/', U[len(P)] == '?')


def address(c, kind):
    """(url, (scheme, host, path))"""
    if kind == 'path':
        p = '/' + c.text('rp', 3, 0, 'ab/?')
        return 'http://h' + p, ('http', 'h', p)
    if kind == 'host':
        h = c.text('rh', 3, 1, 'ab.')
        c.assume(c.Not(c.Or(h.startswith('.'), '..' in h)))
        return 'http://' + h + '/', ('http', h, '/')
    if kind == 'https':
        return 'https://h/', ('https', 'h', '/')
    if kind == 'sub':
        h = c.text('rh', 1, 1, 'ab') + '.' + c.str('rh2', 1, 'ab')
        return 'http://' + h + '/', ('http', h, '/')
    if kind == 'star':
        p = c.choice('rp', ['/*', '/*/x', '/b', '/://*.a', '/://x.a', '/'])
        return 'http://h' + p, ('http', 'h', p)
    return 'http://h/', ('http', 'h', '/')


def allowed(c, entries, addr):
    ok = False
    for e in entries:
        if e is not None:
            ok = c.Or(ok, c.And(e[0] == addr[0], c.eq(e[1], addr[1]), extends(c, e[2], addr[2])))
    return ok


def h_matches(c):
    T = c.mod('openid.server.trustroot')
    p = c.params
    es = [entry(c, 'e%d' % i, k) for i, k in enumerate(p['e'])]
    url, addr = address(c, p['a'])
    r, ex = c.attempt(T.returnToMatches, [e[0] for e in es], url)
    c.check(ex is None, 'matching never raises')
    c.check(c.Iff(r, allowed(c, [e[1] for e in es], addr)), 'an address matches exactly when a valid entry without wildcard contains it')


def h_badaddr(c):
    """Odd return addresses never match and never raise."""
    T = c.mod('openid.server.trustroot')
    t = c.text('t', 3, 0, c.params.get('chars', 'ascii'))
    url = c.params['pre'] + t
    r, ex = c.attempt(T.returnToMatches, ['http://h/', 'http://*.x/'], url)
    c.check(ex is None, 'matching never raises')
    if c.params['pre'] == 'http://' and not c.has_char(t, '\t\r\n%'):
        c.check(c.Implies(r, c.eq(authority(c, url)[0].lower(), 'h')), 'only addresses of the host match')


class Boom(Exception):
    pass


def h_verify(c):
    """verifyReturnTo with a fake discovery function."""
    T = c.mod('openid.server.trustroot')
    p = c.params
    seen = []
    es = [entry(c, 'e%d' % i, k) for i, k in enumerate(p['e'])]
    outcome = c.choice('outcome', ['ok', 'redirected', 'failed', 'none'])
    D = c.mod('openid.yadis.discover')

    def vrfy(u):
        seen.append(u)
        if outcome == 'redirected':
            raise T.RealmVerificationRedirected(u, 'http://other/')
        if outcome == 'failed':
            raise D.DiscoveryFailure('x', None)
        return [e[0] for e in es] if outcome == 'ok' else []
    kind = p['realm']
    rh = c.text('realmh', 2, 1, 'ab')
    port = c.choice('port', ['1', '79', '81', '443', '444', '1023', '1024', '8080', '65535']) if kind == 'port' else ''
    realm, want = {'plain': ('http://' + rh + '/', 'http://' + rh + '/'), 'wild': ('http://*.' + rh + '/x', 'http://www.' + rh + '/x'),
                   'port': ('http://*.' + rh + ':' + port + '/x', 'http://www.' + rh + ':' + port + '/x'), 'star': ('http://*/', None), 'bad': ('ftp://' + rh + '/', None),
                   'frag': ('http://' + rh + '/#x', None)}[kind]
    url, addr = address(c, p['a'])
    r, ex = c.attempt(T.verifyReturnTo, realm, url, _vrfy=vrfy)
    c.check(ex is None or isinstance(ex, D.DiscoveryFailure), 'only a failed discovery is reported as such')
    if want is None:
        c.check(ex is None and not r and not seen, 'an unusable realm verifies nothing')
        return
    c.check(len(seen) == 1, 'discovery is run once')
    U = c.mod('openid.urinorm')
    if kind != 'plain':
        c.check(c.eq(U.urinorm(seen[0]), want), 'discovery is run on the realm, with www in place of the wildcard')
    else:
        c.check(c.eq(seen[0], want), 'discovery is run on the realm')
    if outcome == 'ok':
        c.check(c.Iff(r, allowed(c, [e[1] for e in es], addr)), 'verified exactly when a discovered address matches')
    else:
        c.check(ex is not None or not r, 'not verified when discovery failed, was redirected or found nothing')
    if ex is None:
        c.check(r is True or r is False or not isinstance(r, str), 'a verdict is returned')


def h_discover(c):
    """The whole way through Yadis discovery with a fake network."""
    T = c.mod('openid.server.trustroot')
    F = c.mod('openid.fetchers')
    Y = c.mod('openid.yadis.discover')
    p = c.params
    doc = fakes.xrds()
    xrd = fakes.el(doc, 'XRD')
    urls = []
    for i, k in enumerate(p['services']):
        u = 'http://h/' + c.text('u%d' % i, 1, 0, 'ab')
        fakes.service(xrd, {'rt': [RT], 'other': ['http://other/'], 'both': ['http://other/', RT], 'sym': [RT[:-1] + c.str('ty%d' % i, 1, 'a-z')]}[k], [u])
        if k in ('rt', 'both'):
            urls.append((True, u))
        elif k == 'sym':
            urls.append((c.eq(c_last(c, i), 'o'), u))
    body = c.document(doc)
    realm = 'http://h/'
    how = c.choice('how', ['same', 'redirect', 'status', 'error', 'junk', 'location'])
    final = realm
    if how == 'redirect':
        final = c.choice('final', ['http://', 'https://']) + c.text('fh', 2, 1, 'hHx') + c.choice('port', ['', ':80', ':443', ':8']) + '/' + c.text('fp', 1, 0, 'ab?') + c.choice('fq', ['', '?q', '?q=1'])
    status = c.int('status', 100, 599) if how == 'status' else 200
    if how == 'status':
        c.assume(c.And(c.Not(status == 200), c.Not(status == 206)))
    calls = []

    def answer(url, b, headers):
        calls.append(url)
        if how == 'error':
            raise Boom('network')
        if how == 'junk':
            return fakes.Response(url, 200, {'content-type': 'application/xrds+xml'}, b'<x/>')
        if how == 'location' and c.eq(url, realm):
            return fakes.Response(url, 200, {'content-type': 'text/html', 'x-xrds-location': 'http://elsewhere/'}, b'')
        return fakes.Response(final if how != 'location' else url, status, {'content-type': 'application/xrds+xml'}, body)
    fakes.install(c, answer)
    path = '/' + c.text('rp', 1, 0, 'ab')
    r, ex = c.attempt(T.verifyReturnTo, realm, 'http://h' + path)
    c.check(ex is None or isinstance(ex, (Y.DiscoveryFailure, F.HTTPFetchingError)), 'only a failed discovery is reported as such')
    good = False
    for cond, u in urls:
        good = c.Or(good, c.And(cond, extends(c, u[8:], path)))
    if how in ('same', 'location'):
        c.check(ex is None, 'discovery succeeds')
        c.check(c.Iff(r, good), 'verified exactly when a discovered return address matches')
    elif how == 'redirect':
        sch, rest = final[:final.find(':')], final[final.find('//') + 2:]
        hostport, sl, tail = rest.partition('/')
        h, col, port = hostport.partition(':')
        same = c.And(sch == 'http', c.eq(h.lower(), 'h'), port in ('', '80'), c.Or(c.eq(tail, ''), c.eq(tail, '?')))
        if c.eq(tail, '?'):
            return
        c.check(ex is None, 'a redirect is not an error')
        c.check(c.Iff(r, c.And(same, good)), 'not verified when discovery was redirected')
    else:
        c.check(ex is not None or not r, 'not verified when discovery failed')


def c_last(c, i):
    return c.e.inputs['ty%d' % i] if c.symbolic else c.used['ty%d' % i]


K = ['path', 'host', 'wild', 'star', 'https', 'frag', 'bad']
QM = [dict(e=['wildvar'], a=a) for a in ('host', 'sub')] + [dict(e=['startext'], a='star'), dict(e=['wildvar', 'startext'], a='star'), dict(e=['wild'], a='sub')] + \
     [dict(e=[k], a=a) for k in K for a in ('path', 'host', 'https')] + [dict(e=[], a='path')] + \
     [dict(e=e, a='path') for e in (['wild', 'path'], ['bad', 'path'], ['path', 'path'], ['star', 'bad'], ['frag', 'https', 'path'])]
HARNESSES = {
    'matches': dict(fn=h_matches, quick=QM, thorough=QM + [dict(e=[k, l], a=a) for k in K for l in K for a in ('path', 'host')],
                    bounds='up to 3 entries of 7 kinds with hosts and paths up to 2 characters; return address up to 3 symbolic characters'),
    'badaddr': dict(fn=h_badaddr, quick=[dict(pre=''), dict(pre='http://'), dict(pre='http://h'), dict(pre='http://h:', chars='0-9/@?')], bounds='arbitrary ASCII text up to 3 characters'),
    'verify': dict(fn=h_verify, quick=[dict(e=['path'], a='path', realm=r) for r in ('plain', 'wild', 'port', 'star', 'bad', 'frag')] + [dict(e=['wild', 'path'], a='path', realm='plain')],
                   bounds='realm hosts up to 2 characters, all discovery outcomes'),
    'discover': dict(fn=h_discover, quick=[dict(services=s) for s in (['rt'], ['other'], ['sym'], ['other', 'both'], [])],
                     thorough=[dict(services=s) for s in (['rt'], ['other'], ['sym'], ['other', 'both'], [], ['rt', 'rt'], ['sym', 'sym'])],
                     bounds='documents with up to 2 services; final address, HTTP status and addresses symbolic'),
}
