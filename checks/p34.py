"""P34: discovery turns documents into endpoints without inventing data."""
from lxml import etree

from checks import fakes

IDP = 'http://specs.openid.net/auth/2.0/server'
T20 = 'http://specs.openid.net/auth/2.0/signon'
T11 = 'http://openid.net/signon/1.1'
T10 = 'http://openid.net/signon/1.0'
ALL = (IDP, T20, T11, T10)
RELS = ('openid2.provider', 'openid.server', 'openid2.local_id', 'openid.delegate')
KINDS = ((T20, 'openid2.provider', 'openid2.local_id'), (T11, 'openid.server', 'openid.delegate'))
XRDS_TYPE = 'application/xrds+xml'
LOC = 'http://id/'


# ---- HTML

def words(rel):
    """Words of a rel attribute."""
    out, cur = [], ''
    for i in range(len(rel)):
        ch = rel[i]
        if ch == ' ' or ch == '\t' or ch == '\n':
            if len(cur):
                out.append(cur)
            cur = ''
        else:
            cur = cur + ch
    if len(cur):
        out.append(cur)
    return out


def page(links, extra=None):
    """links: [(rel, href, in head)]; an HTML page with them."""
    h = etree.Element('html')
    head, body = etree.SubElement(h, 'head'), etree.SubElement(h, 'body')
    if extra is not None:
        extra(head)
    for rel, href, inside in links:
        e = etree.SubElement(head if inside else body, 'link')
        if rel is not None:
            e.set('rel', rel)
        if href is not None:
            e.set('href', href)
    return h


def stated(c, links):
    """[(type, provider, local id)] the links state."""
    out = []
    for t, server_rel, local_rel in KINDS:
        servers = [h for r, h, inside in links if inside and r is not None and server_rel in words(r)]
        locals_ = [h for r, h, inside in links if inside and r is not None and local_rel in words(r)]
        if servers and servers[0] is not None and len(servers[0]) > 0:
            out.append((t, servers[0], locals_[0] if locals_ else None))
    return out


def check_endpoints(c, eps, want, claimed):
    c.check(len(eps) == len(want), 'exactly the stated providers are found')
    for e, (t, server, local) in zip(eps, want):
        c.check(e.type_uris == [t], 'version of the provider, newest first')
        c.check(c.eq(e.server_url, server), 'the provider address is the stated one')
        c.check(c.eq(e.local_id or None, local or None), 'the local identifier is the stated one')
        c.check(c.eq(e.claimed_id, claimed), 'the page is the claimed identifier')
        c.check(e.canonicalID is None and not e.isOPIdentifier() and not e.used_yadis, 'nothing is invented')
        c.check(c.eq(e.getLocalID(), local if local else claimed), 'the local identifier defaults to the claimed one')


def a_link(c, i, p):
    rels = p['rels']
    rel = c.choice('rel%d' % i, rels)
    if rel is not None and '?' in rel:
        a, b = rel.split('?')
        rel = a + c.text('relc%d' % i, p.get('rn', 1), 0, p.get('chars', ' \tA-Za-z2.')) + b
    kind = c.choice('href%d' % i, p.get('hrefs', ['text', 'none']))
    href = None if kind == 'none' else c.text('h%d' % i, p.get('n', 2), 0 if p.get('empty') else 1, 'print') if kind == 'text' else kind
    inside = True if not p.get('body') else not c.maybe('body%d' % i)
    return rel, href, inside


def h_html(c):
    """Links of a page."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    links = [a_link(c, i, p) for i in range(p['k'])]
    eps, ex = c.attempt(D.OpenIDServiceEndpoint.fromHTML, LOC, c.html(page(links)))
    c.check(ex is None, 'a page never raises')
    check_endpoints(c, eps, stated(c, links), LOC)


# ---- XRDS

def a_service(c, i, p):
    types = [t for j, t in enumerate(ALL + ('http://other/',)) if c.maybe('type%d.%d' % (i, j))] if p.get('types') == 'all' else list(c.choice('types%d' % i, p['types']))
    uris = []
    for j in range(c.pick('uris%d' % i, p.get('uris', 1) + 1)):
        u = c.text('uri%d.%d' % (i, j), p.get('n', 1), p.get('lo', 0), 'print') if p.get('symuri', True) else 'http://op/%d.%d' % (i, j)
        uris.append((u, str(j)))
    local = [c.text('local%d.%d' % (i, j), p.get('n', 1), 1, 'print') for j in range(c.pick('locals%d' % i, p.get('locals', 1) + 1))]
    delegate = [c.text('delegate%d.%d' % (i, j), p.get('n', 1), 1, 'print') for j in range(c.pick('delegates%d' % i, p.get('delegates', 1) + 1))]
    return types, uris, local, delegate


def local_of(c, types, local, delegate):
    """(conflict, local identifier) a service states."""
    ids = []
    if T11 in types or T10 in types:
        ids += delegate
    if T20 in types:
        ids += local
    if not ids:
        return False, None
    for x in ids[1:]:
        if not x == ids[0]:
            return True, None
    return False, ids[0]


def expected(c, services, claimed):
    """(conflict, endpoints stated) of services in document order of priority."""
    out, conflict = [], False
    for types, uris, local, delegate in services:
        if not any(t in ALL for t in types):
            continue
        for u, q in uris:
            if len(u) == 0:
                continue
            if IDP in types:
                out.append((types, u, None, None))
                continue
            bad, l = local_of(c, types, local, delegate)
            conflict = conflict or bad
            out.append((types, u, l, claimed))
    return conflict, out


def check_services(c, eps, want):
    c.check(len(eps) == len(want), 'exactly the stated services are found')
    for e, (types, u, local, claimed) in zip(eps, want):
        c.check(list(e.type_uris) == types, 'the types are the stated ones')
        c.check(c.eq(e.server_url, u), 'the provider address is the stated one')
        c.check(c.eq(e.local_id, local), 'the local identifier is the stated one')
        c.check(c.eq(e.claimed_id, claimed), 'the claimed identifier is the one discovered')
        c.check(e.canonicalID is None and e.used_yadis, 'nothing is invented')
        c.check(e.isOPIdentifier() == (IDP in types), 'provider identifiers are recognised')
        c.check(e.compatibilityMode() == (IDP not in types and T20 not in types), 'the protocol version is the stated one')
        c.check(e.supportsType(T20) == (IDP in types or T20 in types) and e.supportsType(T11) == (T11 in types), 'supported types are the stated ones')


def doc_of(services, reverse=False, earlier=None):
    root = fakes.xrds()
    if earlier is not None:
        fakes.service(fakes.el(root, 'XRD'), [T20], [earlier])
    xrd = fakes.el(root, 'XRD')
    for i, (types, uris, local, delegate) in enumerate(services):
        fakes.service(xrd, types, uris, str(len(services) - i if reverse else i), local, delegate)
    return root


def h_xrds(c):
    """Services of a service document."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    services = [a_service(c, i, p) for i in range(p['k'])]
    rev = c.maybe('reverse') if p['k'] > 1 else False
    doc = c.document(doc_of(services, rev, 'http://earlier/' if c.maybe('earlier') else None))
    conflict, want = expected(c, services[::-1] if rev else services, LOC)
    eps, ex = c.attempt(D.OpenIDServiceEndpoint.fromXRDS, LOC, doc)
    if conflict:
        c.check(isinstance(ex, D.DiscoveryFailure), 'conflicting local identifiers are refused')
        return
    c.check(ex is None, 'a service document never raises otherwise')
    check_services(c, eps, want)


def h_local(c):
    """Local identifier of one service."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    types = [t for j, t in enumerate(ALL) if c.maybe('type%d' % j)]
    local = [c.text('l%d' % j, p['n'], 1, 'print') for j in range(c.pick('locals', p['k'] + 1))]
    delegate = [c.text('d%d' % j, p['n'], 1, 'print') for j in range(c.pick('delegates', p['k'] + 1))]
    if p.get('empty'):
        # elements without text, after one with text (a service that only has empty ones states nothing of use)
        for k in (local, delegate):
            if k and (k is local or not local):
                k[1:] = [None if c.maybe('empty%d' % j) else x for j, x in enumerate(k[1:])]
            elif k and k[0] is not None:
                k[1:] = [None] * len(k[1:])
    s = fakes.service(fakes.xrds(), types, [LOC], None, local, delegate)
    got, ex = c.attempt(D.findOPLocalIdentifier, s, types)
    bad, want = local_of(c, types, local, delegate)
    if bad:
        c.check(isinstance(ex, D.DiscoveryFailure), 'conflicting local identifiers are refused')
    else:
        c.check(ex is None and c.eq(got, want), 'the local identifier is the stated one')


def h_display(c):
    """What is shown to the user."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    e = D.OpenIDServiceEndpoint()
    c.check(e.getDisplayIdentifier() is None, 'without identifier nothing is shown')
    if c.maybe('claimed'):
        e.claimed_id = c.choice('claimed_id', ['http://a/', '=!', 'http://a/?b']) + c.text('tail', p['n'], 0, '#ab')
        c.check(c.eq(e.getDisplayIdentifier(), e.claimed_id.partition('#')[0]), 'the claimed identifier is shown without fragment')
    shown = c.text('shown', p['n'], 0, '#ab=')
    e.display_identifier = shown
    c.check(c.eq(e.getDisplayIdentifier(), shown), 'the name given by the user is shown as it is')


def rank(types):
    for j, t in enumerate(ALL):
        if t in types:
            return j
    return len(ALL)


def h_order(c):
    """Preference between services."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    given = []
    for i in range(c.pick('k', p['k'] + 1)):
        e = D.OpenIDServiceEndpoint()
        e.type_uris = [t for j, t in enumerate(ALL) if c.maybe('t%d.%d' % (i, j))] if p.get('all') else [c.choice('t%d' % i, ALL + ('x',))]
        given.append(e)
    before = list(given)
    out, ex = c.attempt(D.getOPOrUserServices, given)
    c.check(ex is None and len(out) == len(before), 'no service is lost')
    pos = []
    for e in out:
        hit = [i for i, x in enumerate(before) if x is e]
        c.check(len(hit) == 1 and hit[0] not in pos, 'no service is duplicated')
        pos.append(hit[0])
    for a, b in zip(pos, pos[1:]):
        ra, rb = rank(before[a].type_uris), rank(before[b].type_uris)
        c.check(ra < rb or (ra == rb and a < b), 'provider identifiers, then newer versions first, document order otherwise')
    c.check(given == before, 'the list given is not changed')


# ---- the whole discovery

def strip_fragment(u):
    i = u.find('#')
    return u if i < 0 else u[:i]


def h_discover(c):
    """Discovery of a URL, over every way the documents can be served."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    kind = p['kind']
    server, local = 'http://op/' + c.text('server', 1, 0, 'a-z '), c.text('local', 1, 1, 'print')
    links = [(RELS[0], server, True)]
    if c.maybe('has local'):
        links.append((RELS[2], local, True))
    else:
        local = None
    services = [([T11], [('http://op11/', None)], [], []), ([T20], [(server, None)], [local] if local else [], [])]
    if p.get('op'):
        services.append(([IDP], [('http://idp/', None)], [], []))
    if p.get('empty'):
        services = [(['http://other/'], [('http://other/', None)], [], [])]
    ok = (200, 206)
    status = [c.int('status%d' % i, 100, 599) for i in range(3)] if p.get('status') else [200] * 3
    final = c.choice('final', p.get('finals', ['http://id/', 'HTTP://ID:80/a/../#frag', 'https://other/x']))
    normal = {'http://id/': 'http://id/', 'HTTP://ID:80/a/../#frag': 'http://id/', 'https://other/x': 'https://other/x'}.get(final)
    doc = c.document(doc_of(services))
    second = 'http://xrds/'

    def meta(head):
        e = etree.SubElement(head, 'meta')
        e.set('http-equiv', p.get('meta', 'X-XRDS-Location'))
        e.set('content', second)
    html = c.html(page(links, meta if kind == 'meta' else None))
    plain = {'content-type': 'text/html'}

    def answer(url, body, headers):
        n = len(f.calls) - 1
        if url == second:
            return fakes.Response(second, status[n], {'content-type': p.get('second', XRDS_TYPE)}, doc)
        if kind == 'direct' and n == 0:
            return fakes.Response(final, status[n], {p.get('field', 'content-type'): p.get('type', XRDS_TYPE)}, doc)
        if kind == 'header' and n == 0:
            return fakes.Response(final, status[n], {'content-type': 'text/html', 'x-xrds-location': second}, html)
        return fakes.Response(final, status[n], plain, html)
    f = fakes.install(c, answer)
    r, ex = c.attempt(D.discover, 'http://ID' + c.choice('suffix', ['', '/#x']))
    c.check(ex is None or isinstance(ex, D.DiscoveryFailure), 'discovery fails with the discovery error only')
    urls = [u for u, b in f.calls]
    c.check(urls[0] == 'http://id/' and all(b is None for u, b in f.calls), 'the normalised identifier is fetched')
    expect = ['http://id/']
    xrds = kind in ('direct', 'header', 'meta')
    if kind in ('header', 'meta'):
        if status[0] in ok:
            expect.append(second)
    refetch = xrds and p.get('empty')
    if refetch and all([s in ok for s in status[:len(expect)]]):
        expect.append('http://id/')
    c.check(urls == expect, 'exactly the documents needed are fetched')
    if not all([s in ok for s in status[:len(expect)]]) or normal is None:
        c.check(ex is not None, 'a document that is not available is a discovery error')
        return
    c.check(ex is None, 'discovery succeeds')
    claimed, eps = r
    c.check(claimed == normal, 'the claimed identifier is the final address, normalised')
    if xrds and not refetch:
        want = [(([T20]), server, local, normal), ([T11], 'http://op11/', None, normal)]
        if p.get('op'):
            want.insert(0, ([IDP], 'http://idp/', None, None))
        check_services(c, eps, want)
    else:
        check_endpoints(c, eps, [(T20, server, local)], normal)


def h_input(c):
    """What a user may type."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    typed = p['pre'] + c.text('typed', p['n'], p.get('lo', 0), p.get('chars', 'print')) + p.get('post', '')
    html = c.html(page([(RELS[0], 'http://op/', True)]))
    f = fakes.install(c, lambda u, b, h: fakes.Response(u, 200, {}, html))
    if p.get('xri') is None:
        c.assume(len(typed) > 0 and not c.has_char(typed[:1], '=@+$!(') and not typed[:6] == 'xri://')
    r, ex = c.attempt(D.discover, typed)
    urls = [u for u, b in f.calls]
    c.check(ex is None or isinstance(ex, D.DiscoveryFailure), 'user input fails with the discovery error only')
    if ex is not None:
        c.check(not urls, 'refused input causes no request')
        c.check(not p.get('good'), 'good addresses are accepted')
        return
    if p.get('xri'):
        c.check(all(u[:21] == 'http://proxy.xri.net/' for u in urls), 'names are looked up at the resolver')
        return
    claimed, eps = r
    c.check(len(urls) == 1, 'one document is fetched')
    u = urls[0]
    c.check(c.Or(c.eq(u[:7], 'http://'), c.eq(u[:8], 'https://')), 'only http and https addresses are fetched')
    c.check(c.Not(c.has_char(u, '#')) and c.Not(c.has_char(u, ' \t\n')), 'fetched addresses have no fragment or space')
    rest = u[7:] if u[:7] == 'http://' else u[8:]
    c.check(len(rest) > 0 and not rest[0] == '/', 'fetched addresses name a host')
    c.check(c.eq(claimed, u), 'the claimed identifier is the normalised input')
    check_endpoints(c, eps, [(T20, 'http://op/', None)], u)
    low = typed[:8].lower()
    if low[:7] == 'http://':
        c.check(u[:7] == 'http://', 'the scheme is kept')
    elif low == 'https://':
        c.check(u[:8] == 'https://', 'the scheme is kept')
    elif '://' not in typed:
        c.check(u[:7] == 'http://', 'input without scheme means http')
    elif p.get('other'):
        c.fail('other schemes are refused')
    del f.calls[:]
    r2, ex2 = c.attempt(D.discover, u)
    c.check(ex2 is None and c.eq(r2[0], u) and len(f.calls) == 1 and c.eq(f.calls[0][0], u), 'the claimed identifier discovers itself')
    if p.get('fragment'):
        del f.calls[:]
        r3, ex3 = c.attempt(D.discover, typed + ('' if '#' in typed else '#') + 'frag')
        c.check(ex3 is None and c.eq(r3[0], u), 'a fragment does not change the claimed identifier')


def h_services(c):
    """Services typed by the transport: names below the resolver."""
    p = c.params
    D = c.mod('openid.consumer.discover')
    services = [a_service(c, i, p) for i in range(p['k'])]
    root = doc_of(services)
    xrd = root[0]
    fakes.el(xrd, 'CanonicalID', '=!1')
    doc = c.document(root)
    which = c.pick('which', 4)
    f = fakes.install(c, lambda u, b, h: fakes.Response(u, 200 if len(f.calls) - 1 == which else 404, {}, doc))
    r, ex = c.attempt(D.discover, '=name')
    conflict, want = expected(c, services, None)
    if conflict:
        c.check(isinstance(ex, D.DiscoveryFailure), 'conflicting local identifiers are refused')
        return
    c.check(ex is None, 'a name never raises otherwise')
    name, eps = r
    want = [w for j in range(len(ALL)) for w in want if rank(w[0]) == j]
    c.check(len(eps) == len(want), 'exactly the stated services are found')
    for e, (types, u, local, claimed) in zip(eps, want):
        c.check(list(e.type_uris) == types and c.eq(e.server_url, u) and c.eq(e.local_id, local), 'services are the stated ones')
        c.check(e.claimed_id == 'xri://=!1' and e.canonicalID == 'xri://=!1', 'the canonical identifier is claimed')
        c.check(c.eq(e.getLocalID(), local if local else 'xri://=!1'), 'the local identifier defaults to the claimed one')


ONE = [[IDP], [T20], [T11], [T10], [T20, T11], [T20, T10, T11], [IDP, T20], [], ['http://other/', T11]]
H = ['http://h/', 'none', '']

HARNESSES = {
    'html': dict(fn=h_html,
                 quick=[dict(k=1, rels=['openid2.provider?', '?openid2.provider', 'openid2.provider?openid.server', 'openid?.server', '?'], rn=2, hrefs=['text']),
                        dict(k=2, rels=[RELS[0], RELS[1], RELS[2], RELS[3], 'openid2.provider openid.server', 'x'], body=1, hrefs=['text', 'none']),
                        dict(k=3, rels=[RELS[0], RELS[2], 'openid2.local_id\topenid2.provider'], hrefs=['text', 'none'], n=1, empty=1),
                        dict(k=3, rels=[RELS[1], RELS[3], ' openid.delegate  openid.server '], hrefs=['text', 'none'], n=1, empty=1)],
                 thorough=[dict(k=4, rels=[RELS[0], RELS[1], RELS[2], RELS[3]], hrefs=['text', 'none'], n=1),
                           dict(k=2, rels=['openid2.provider?', '?openid.server', '?openid2.local_id', 'openid.delegate?x', None], rn=2, hrefs=['text']),
                           dict(k=1, rels=['openid.serve?', '?penid.server'], rn=4, hrefs=['text'])],
                 bounds='up to 3 (4) links with rel of known words plus 2 (4) free characters, addresses of up to 2 free characters'),
    'xrds': dict(fn=h_xrds,
                 quick=[dict(k=1, types='all', uris=1, locals=1, delegates=1, lo=1), dict(k=1, types=[[T20], [T20, T11], [T11], [IDP]], uris=2, locals=2, delegates=2),
                        dict(k=2, types=[[IDP], [T20], [T11, T10], ['http://other/']], uris=1, locals=1, delegates=0)],
                 thorough=[dict(k=1, types='all', uris=2, locals=2, delegates=2), dict(k=2, types=ONE, uris=1, locals=1, delegates=1), dict(k=3, types=[[IDP], [T20], [T11]], uris=1, locals=1, delegates=0)],
                 bounds='up to 2 (3) services with every set of types, up to 2 addresses and local identifiers of one free character'),
    'local': dict(fn=h_local, quick=[dict(k=2, n=2), dict(k=2, n=1, empty=1)], thorough=[dict(k=3, n=2), dict(k=3, n=1, empty=1)], bounds='up to 2 (3) LocalID and Delegate elements of up to 2 free characters, every set of types'),
    'display': dict(fn=h_display, quick=[dict(n=2)], thorough=[dict(n=4)], bounds='identifiers with up to 2 (4) free characters'),
    'order': dict(fn=h_order, quick=[dict(k=2, all=1), dict(k=4)], thorough=[dict(k=3, all=1), dict(k=5)], bounds='2 (3) services with every set of types, 4 (5) services with one type'),
    'discover': dict(fn=h_discover,
                     quick=[dict(kind=k, **x) for k in ('html', 'direct', 'header', 'meta') for x in (dict(status=1, finals=['http://id/']), dict(), dict(op=1), dict(empty=1))]
                     + [dict(kind='direct', empty=1, type='Application/XRDS+xml; charset=utf-8', field='Content-Type'), dict(kind='direct', type='application/xrds+xml ;a=b'), dict(kind='meta', meta='x-xrds-LOCATION'), dict(kind='header', second='text/html'), dict(kind='html', finals=['ftp://id/', 'nothing'])],
                     bounds='every way of serving the documents, every status code, redirected or not; provider and local identifier with one free character'),
    'input': dict(fn=h_input,
                  quick=[dict(pre='', n=2), dict(pre='http://', n=2), dict(pre='https://h/', n=2, good=1, chars='a-zA-Z0-9/.#-', fragment=1), dict(pre='h', n=1, post='://x/', chars='print'),
                         dict(pre='f', n=2, post='://x/', chars='a-zA-Z+', other=1), dict(pre='http', n=2, post='://h/', chars='a-zA-Z+', other=1), dict(pre='HTTP', n=1, post='://h/', chars='sS', good=1, lo=0), dict(pre='xri:/', n=2, chars='/=a'),
                         dict(pre='h/p?', n=2, chars='a=&#', good=1, fragment=1), dict(pre='http://h:', n=2, chars='0-9/'), dict(pre='xri://=', n=1, xri=1), dict(pre='=', n=2, xri=1, chars='a-z*')],
                  thorough=[dict(pre='', n=3), dict(pre='http://h/', n=3, chars='print'), dict(pre='http://', n=3, chars='a-zA-Z.:@/?#%'), dict(pre='', n=3, post='://x/', chars='htpsf:')],
                  bounds='inputs with up to 2 (3) free characters in every place of interest'),
    'services': dict(fn=h_services, quick=[dict(k=1, types='all', uris=1, locals=1, delegates=1, lo=1), dict(k=2, types=[[IDP], [T20], [T11, T10], ['http://other/']], uris=1, locals=1, delegates=0, lo=1)],
                     thorough=[dict(k=2, types=ONE, uris=1, locals=1, delegates=1, lo=1)],
                     bounds='services of a resolved name, for each of the resolver\'s answers'),
}
