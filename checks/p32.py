"""P32: login requests state exactly what the application asked for."""
from six.moves.urllib.parse import parse_qsl

from checks import fakes, p08, rp, stores
from checks.p26 import Session

SELECT = 'http://specs.openid.net/auth/2.0/identifier_select'
TSERVER = 'http://specs.openid.net/auth/2.0/server'
KINDS = {'v2': [rp.T2], 'v11': [rp.T11], 'v10': [rp.T10], 'both': [rp.T11, rp.T2], 'select': [TSERVER], 'select+': [rp.T2, TSERVER], 'old+x': ['http://x/', rp.T10]}


def version(kind):
    return 1 if kind in ('v11', 'v10', 'old+x') else 2


def service(c, p, kind, op=rp.OP):
    """A discovered service, and the identifier pair it stands for."""
    D = c.mod('openid.consumer.discover')
    e = D.OpenIDServiceEndpoint()
    e.type_uris = list(KINDS[kind])
    e.server_url = op
    if kind.startswith('select'):
        return e, SELECT, SELECT
    e.claimed_id = rp.ID if p.get('claimed') is None else 'http://' + c.str('claimed', p['claimed'], p.get('idchars', 'print'))
    local = c.choice('local', (None, '', 'x'))
    canonical = c.choice('canonical', (None, 'y')[:1 if p.get('noxri') else 2])
    if local == 'x':
        local = 'http://l/' + c.text('l', p.get('n', 1), 0, p.get('idchars'))
    if canonical == 'y':
        canonical = '=!' + c.text('canon', p.get('n', 1), 0, p.get('idchars'))
        e.claimed_id = canonical
    e.local_id, e.canonicalID = local, canonical
    if local is not None and len(local):
        return e, e.claimed_id, local
    return e, e.claimed_id, canonical if canonical is not None else e.claimed_id


def same_pairs(c, got, want):
    """The two lists of pairs agree, in any order."""
    c.check(len(got) == len(want), 'exactly the stated arguments are present')
    for k, v in want:
        c.check(c.Or([c.And(c.eq(k, a), c.eq(v, b)) for a, b in got]), 'each argument is present with its value')


def check_return_to(c, got, base, extra):
    """The return address with further arguments, nothing else."""
    c.check(got is not None, 'a return address is given')
    head, h, frag = base.partition('#')
    c.check(c.eq(got.partition('#')[2], frag), 'the fragment of the return address stays')
    place, q, query = head.partition('?')
    gplace, q2, gquery = got.partition('#')[0].partition('?')
    c.check(c.eq(place, gplace), 'the place of the return address stays')
    old = parse_qsl(query, keep_blank_values=True)
    new = parse_qsl(gquery, keep_blank_values=True)
    c.check(len(new) == len(old) + len(extra), 'exactly the expected arguments are added to the return address')
    for x, y in zip(new, old):
        c.check(c.And(c.eq(x[0], y[0]), c.eq(x[1], y[1])), 'the arguments of the return address stay')
    same_pairs(c, new[len(old):], extra)


def the_request(c, p, kind):
    C = c.mod('openid.consumer.consumer')
    e, claimed, local = service(c, p, kind)
    handle = None
    assoc = None
    if c.maybe('associated'):
        handle = c.text('handle', p.get('n', 1), 0, p.get('hchars'))
        assoc = c.mod('openid.association').Association(handle, b'k' * 20, 1000, 1000, 'HMAC-SHA1')
    return C.AuthRequest(e, assoc), e, claimed, local, handle


def expected(kind, claimed, local, handle, mode, realm, anonymous):
    v2 = version(kind) == 2
    w = {'openid.mode': mode, ('openid.realm' if v2 else 'openid.trust_root'): realm}
    if v2:
        w['openid.ns'] = rp.NS2
    if not anonymous:
        w['openid.identity'] = local
        if v2:
            w['openid.claimed_id'] = claimed
    if handle is not None:
        w['openid.assoc_handle'] = handle
    return w


def h_message(c):
    """Every part of the message comes from where it should."""
    p = c.params
    kind = c.choice('kind', p['kinds'])
    v2 = version(kind) == 2
    r, e, claimed, local, handle = the_request(c, p, kind)
    before = {}
    if p.get('args'):
        for i in range(p['args']):
            k, v = c.text('arg%d' % i, 1, 1, 'a-c'), c.text('val%d' % i, 1, 0, 'print')
            before[k] = v
    extra = list(before.items())
    r.return_to_args = before
    anonymous = c.maybe('anonymous')
    _, ex = c.attempt(r.setAnonymous, anonymous)
    c.check((ex is not None) == (anonymous and not v2), 'exactly OpenID 1 requests can not be anonymous')
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'refused with a value error')
        anonymous = False
    realm = c.text('realm', p.get('n', 1), 0, p.get('rchars'))
    rt = c.choice('return_to', (None, '', 'x')[:3])
    if rt == 'x':
        rt = 'http://rp/' + c.text('rt', p.get('rn', 1), 0, p.get('rtchars', 'ab?&#='))
    immediate = c.maybe('immediate')
    m, ex = c.attempt(r.getMessage, realm, rt, immediate)
    none = rt is None or len(rt) == 0
    c.check((ex is not None) == (none and (immediate or not v2 or bool(extra))), 'exactly requests which need a return address and have none are refused')
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'refused with a value error')
        return
    w = expected(kind, claimed, local, handle, 'checkid_immediate' if immediate else 'checkid_setup', realm, anonymous)
    got = m.toPostArgs()
    back = got.pop('openid.return_to', None)
    c.check(c.eq(got, w), 'the message has exactly the stated fields')
    if none:
        c.check(back is None, 'no return address is invented')
    else:
        check_return_to(c, back, rt, extra)
    other = c.choice('again', (True, False))
    m2, ex = c.attempt(r.getMessage, 'http://other/', 'http://other/r', other)
    c.check(ex is None, 'a second message can be made')
    got = m2.toPostArgs()
    back = got.pop('openid.return_to', None)
    c.check(c.eq(got, expected(kind, claimed, local, handle, 'checkid_immediate' if other else 'checkid_setup', 'http://other/', anonymous)), 'making a message changes nothing for the next one')
    check_return_to(c, back, 'http://other/r', extra)
    if v2 and not extra:
        m3, ex = c.attempt(r.getMessage, 'http://third/', None)
        c.check(ex is None, 'a third message can be made')
        c.check(c.eq(m3.toPostArgs(), expected(kind, claimed, local, handle, 'checkid_setup', 'http://third/', anonymous)), 'making a message changes nothing for the next one')


def h_redirect(c):
    """The redirect goes to the provider and decodes to the message."""
    p = c.params
    kind = c.choice('kind', p['kinds'])
    op = 'http://op/' + c.text('op', p.get('on', 1), 0, p.get('ochars', 'a?&#='))
    C = c.mod('openid.consumer.consumer')
    D = c.mod('openid.consumer.discover')
    e = D.OpenIDServiceEndpoint()
    e.type_uris, e.server_url = list(KINDS[kind]), op
    if not kind.startswith('select'):
        e.claimed_id = rp.ID
        e.local_id = 'http://l/' + c.text('l', p.get('n', 1), 0, p.get('idchars', 'print'))
    r = C.AuthRequest(e, None)
    realm, rt, immediate = 'http://rp/' + c.text('realm', p.get('rn', 1), 0, p.get('rchars')), 'http://rp/?a=b', c.maybe('immediate')
    m = r.getMessage(realm, rt, immediate)
    url = r.redirectURL(realm, rt, immediate)
    verify(c, op, url, m.toPostArgs())
    c.check(r.shouldSendRedirect() == (version(kind) == 1), 'OpenID 1 requests are sent as redirect')


def verify(c, op, url, want):
    head, h, frag = op.partition('#')
    place, q, query = head.partition('?')
    ghead, gh, gfrag = url.partition('#')
    gplace, gq, gquery = ghead.partition('?')
    c.check(c.And(c.eq(place, gplace), c.eq(frag, gfrag)), 'the redirect goes to the discovered endpoint')
    old = parse_qsl(query, keep_blank_values=True)
    new = parse_qsl(gquery, keep_blank_values=True)
    for x, y in zip(new, old):
        c.check(c.And(c.eq(x[0], y[0]), c.eq(x[1], y[1])), 'the arguments of the endpoint stay')
    same_pairs(c, new[len(old):], list(want.items()))


def h_form(c):
    """The form posts exactly the message to the provider."""
    p = c.params
    kind = c.choice('kind', p['kinds'])
    C = c.mod('openid.consumer.consumer')
    e = rp.endpoint(c, 2, 'http://op/' + c.text('op', 1, 0, 'graph'), types=list(KINDS[kind]))
    r = C.AuthRequest(e, None)
    realm, immediate = 'http://rp/' + c.text('realm', 1, 0, p08.XMLCH), c.maybe('immediate')
    m = r.getMessage(realm, rp.RT, immediate)
    attrs = {'class': 'x', 'action': 'http://evil/', 'method': 'get'} if c.maybe('attrs') else None
    html = r.formMarkup(realm, rp.RT, immediate, attrs)
    c.check(html in r.htmlMarkup(realm, rp.RT, immediate, attrs), 'the page has the same form')
    p08.check_form(c, html, e.server_url, m.toPostArgs())


def h_ext(c):
    """Extension arguments are included unchanged."""
    p = c.params
    M = c.mod('openid.message')
    kind = c.choice('kind', p['kinds'])
    C = c.mod('openid.consumer.consumer')
    e = rp.endpoint(c, 2, types=list(KINDS[kind]))
    r = C.AuthRequest(e, None)
    base = r.getMessage('http://rp/', rp.RT).toPostArgs()
    sets = []
    for i in range(p['args']):
        ns = c.choice('ns%d' % i, ('http://x/', 'http://y/', 'http://openid.net/extensions/sreg/1.1')[:p.get('of', 2)])
        k, v = c.text('k%d' % i, p.get('kn', 1), 1, p.get('kchars')), c.text('v%d' % i, p.get('n', 1), 0)
        r.addExtensionArg(ns, k, v)
        sets = [x for x in sets if not (x[0] == ns and c.eq(x[1], k))] + [(ns, k, v)]
    if p.get('known'):
        X = {'sreg': c.mod('openid.extensions.sreg').SRegRequest(required=['email']), 'ax': c.mod('openid.extensions.ax').FetchRequest(), 'pape': c.mod('openid.extensions.pape').Request(max_auth_age=5)}
        name = c.choice('known', sorted(X))
        r.addExtension(X[name])
        for k, v in X[name].getExtensionArgs().items():
            sets.append((X[name].ns_uri, k, v))
    m = r.getMessage('http://rp/', rp.RT)
    for ns, k, v in sets:
        c.check(c.eq(m.getArg(ns, k), v), 'extension arguments are included unchanged')
    got = m.toPostArgs()
    for k, v in base.items():
        c.check(k in got and c.eq(got[k], v), 'the other fields of the request stay')
    names = set(s[0] for s in sets)
    declared = [n for n in names if not m.namespaces.isImplicit(n)]
    c.check(len(got) == len(base) + len(sets) + len(declared), 'exactly the extension arguments are added')
    if version(kind) == 2:
        back = M.Message.fromPostArgs(got)
        for ns, k, v in sets:
            c.check(c.eq(back.getArg(ns, k), v), 'the provider sees the extension arguments')
    url = r.redirectURL('http://rp/', rp.RT) if p.get('url') else None
    if url is not None:
        verify(c, rp.OP, url, got)


def h_begin(c):
    """Beginning a login, with and without store, association and session."""
    p = c.params
    C = c.mod('openid.consumer.consumer')
    A = c.mod('openid.association')
    kind = c.choice('kind', p['kinds'])
    v2 = version(kind) == 2
    c.set_now(rp.NOW)
    how = c.choice('store', p['stores'])
    store = None if how == 'none' else stores.make(c, 'mem')
    e, claimed, local = service(c, dict(claimed=p.get('claimed'), noxri=1, idchars='a '), kind)
    handle, live = None, []
    if how not in ('none', 'empty'):
        for i in range(p.get('assocs', 1)):
            op = c.choice('op%d' % i, (rp.OP, 'http://op/x', 'http://other/'))
            issued = c.int('issued%d' % i, rp.NOW - 2000, rp.NOW - 1)
            life = c.int('life%d' % i, 1, 3000)
            h = 'h%d' % i
            store.storeAssociation(op, A.Association(h, b'k' * 20, issued, life, 'HMAC-SHA1'))
            if op == rp.OP:
                live.append((h, issued, life))
    def answer(u, b, h):
        return fakes.Response(u, 500, {}, b'')
    rt = c.choice('return_to', p.get('returns', [rp.RT]))
    f = fakes.install(c, answer)
    session = Session() if p.get('copying') else {}
    con = C.Consumer(session, store)
    asked = []

    def disco(url):
        asked.append(url)
        return url, [e]
    con._discover = disco
    anonymous = c.maybe('anonymous')
    if c.maybe('known'):
        r, ex = c.attempt(con.beginWithoutDiscovery, e, anonymous)
    else:
        r, ex = c.attempt(con.begin, 'user', anonymous)
        c.check(asked == ['user'], 'the identifier given is discovered')
    c.check((ex is not None) == (anonymous and not v2), 'exactly OpenID 1 logins can not be anonymous')
    if ex is not None:
        c.check(isinstance(ex, C.ProtocolError), 'refused with a protocol error')
        return
    kept = session['_openid_consumer_last_token']
    c.check(kept.server_url == e.server_url and kept.type_uris == e.type_uris and c.eq(kept.getLocalID(), e.getLocalID()), 'the session keeps the service of the login')
    m = r.getMessage('http://rp/', rt, c.maybe('immediate'))
    got = m.getArg(M_NS(c), 'assoc_handle')
    usable = [c.And(c.eq(got, h), issued + life > rp.NOW) for h, issued, life in live] if got is not None else []
    if got is not None:
        c.check(c.Or(usable), 'the handle is the one of a live association with this provider')
    else:
        c.check(c.And([issued + life <= rp.NOW for h, issued, life in live]), 'a live association with this provider is used')
    back = m.getArg(M_NS(c), 'return_to')
    args = parse_qsl(back.partition('?')[2], keep_blank_values=True)
    old = parse_qsl(rt.partition('?')[2], keep_blank_values=True)
    c.check(args[:len(old)] == old, 'the arguments of the return address stay')
    args = args[len(old):]
    nonces = [v for k, v in args if c.eq(k, 'janrain_nonce')]
    ids = [v for k, v in args if c.eq(k, 'openid1_claimed_id')]
    c.check(len(nonces) <= 1 and (v2 or len(nonces) == 1), 'an OpenID 1 login has one nonce in the return address')
    N = c.mod('openid.store.nonce')
    for x in nonces:
        c.check(N.split(x)[0] == rp.NOW, 'the nonce is of this time')
        c.check(len(N.split(x)[1]) > 0, 'the nonce has a random part')
    c.check((len(ids) == 1 and c.eq(ids[0], claimed)) if not v2 else len(ids) == 0, 'an OpenID 1 login has its claimed identifier in the return address')
    c.check(len(args) == len(nonces) + len(ids), 'nothing else is in the return address')
    same = [r.getMessage('http://rp/', rt).getArg(M_NS(c), 'return_to') for i in range(2)]
    c.check(c.eq(same[0], same[1]), 'a login has one nonce only')


def M_NS(c):
    return c.mod('openid.message').OPENID_NS


def h_twice(c):
    """Two logins never share a nonce's random part by construction, nor arguments."""
    C = c.mod('openid.consumer.consumer')
    c.set_now(rp.NOW)
    con = C.Consumer({}, None)
    e1, e2 = rp.endpoint(c, 1), rp.endpoint(c, 1, claimed='http://second/')
    r1, r2 = con.beginWithoutDiscovery(e1), con.beginWithoutDiscovery(e2)
    r1.addExtensionArg('http://x/', 'k', c.text('v', 1))
    r1.return_to_args['extra'] = c.text('x', 1, 0, 'print')
    m2 = r2.getMessage('http://rp/', rp.RT)
    c.check(m2.getArg('http://x/', 'k') is None, 'arguments of one login are not in another')
    args = dict(parse_qsl(m2.getArg(M_NS(c), 'return_to').partition('?')[2], keep_blank_values=True))
    c.check('extra' not in args and args['openid1_claimed_id'] == 'http://second/', 'arguments of one login are not in another')
    m1 = r1.getMessage('http://rp/', rp.RT)
    args1 = dict(parse_qsl(m1.getArg(M_NS(c), 'return_to').partition('?')[2], keep_blank_values=True))
    c.check(args1['openid1_claimed_id'] == rp.ID and c.eq(args1['extra'], r1.return_to_args['extra']), 'a login has its own arguments')


def h_failure(c):
    """Failing discovery is reported, and nothing is begun."""
    p = c.params
    C = c.mod('openid.consumer.consumer')
    F = c.mod('openid.fetchers')
    D = c.mod('openid.consumer.discover')
    session = Session()
    con = C.Consumer(session, None)
    how = c.choice('how', ('none', 'fetch', 'disco'))

    def disco(url):
        if how == 'fetch':
            raise F.HTTPFetchingError('no')
        if how == 'disco':
            raise D.DiscoveryFailure('no', None)
        return url, []
    con._discover = disco
    _, ex = c.attempt(con.begin, c.text('url', p['n'], 0, p.get('chars')))
    c.check(isinstance(ex, C.DiscoveryFailure), 'reported as failing discovery')
    c.check('_openid_consumer_last_token' not in session, 'no login is pending')


V2, V1 = ['v2', 'both', 'select', 'select+'], ['v11', 'v10', 'old+x']
HARNESSES = {
    'message': dict(fn=h_message, quick=[dict(kinds=['v2', 'select'], n=1), dict(kinds=['v11'], n=1, hchars='print'), dict(kinds=V2[1:] + V1, n=0, rn=0), dict(kinds=['v2', 'v11'], n=0, rn=2), dict(kinds=['v2', 'v10'], n=0, rn=1, args=1, noxri=1)],
                    thorough=[dict(kinds=V2, n=2, rn=0), dict(kinds=V1, n=2, rn=0, idchars='print'), dict(kinds=['both', 'v11'], n=0, rn=2, args=1, noxri=1), dict(kinds=['v2'], claimed=2, n=1, rn=0)], bounds='identifiers, handles, realms up to 1-2 characters beyond their start, return addresses with up to 2 free characters, one extra argument'),
    'redirect': dict(fn=h_redirect, quick=[dict(kinds=['v2', 'v11'], on=2, n=0, rn=0), dict(kinds=V2 + V1, on=0, n=1, rn=0), dict(kinds=['v2'], on=0, n=0, rn=1)], thorough=[dict(kinds=['v2'], on=3, n=0, rn=0), dict(kinds=['v2', 'v11'], on=1, n=1, rn=1, rchars='print')], bounds='endpoint addresses with up to 2 (3) free characters'),
    'form': dict(fn=h_form, quick=[dict(kinds=['v2', 'v11'])], bounds='endpoint address and realm with one free character'),
    'ext': dict(fn=h_ext, quick=[dict(kinds=['v2', 'v11'], args=2, of=2, kchars='ab'), dict(kinds=['v2', 'v10'], args=1, of=3, kn=2, kchars='a-z.'), dict(kinds=['v2', 'v11'], args=1, of=1, known=1, kchars='a', n=0), dict(kinds=['v2', 'v11'], args=1, of=1, kchars='a&', n=1, url=1)], thorough=[dict(kinds=V2 + V1, args=3, of=3, kchars='ab')], bounds='up to 2 (3) extension arguments with keys up to 2 characters'),
    'begin': dict(fn=h_begin, quick=[dict(kinds=['v2', 'v11'], stores=['none', 'empty', 'full']), dict(kinds=['select', 'v10'], stores=['none', 'full'], copying=1), dict(kinds=['v11'], stores=['none'], claimed=2), dict(kinds=['v2'], stores=['full'], assocs=2), dict(kinds=['v2', 'v11'], stores=['none'], returns=[rp.RT + '?janrain_nonce=x', rp.RT + '?openid1_claimed_id=x&a=b', rp.RT + '?xjanrain_nonce=', rp.RT + '?', rp.RT + '?a=janrain_nonce%3Dx'])], thorough=[dict(kinds=V2 + V1, stores=['none', 'empty', 'full'], assocs=2)], bounds='up to 2 stored associations with symbolic times'),
    'twice': dict(fn=h_twice, quick=[dict()], bounds='two logins'),
    'failure': dict(fn=h_failure, quick=[dict(n=2)], bounds='identifiers up to 2 characters'),
}
