"""P17: the relying party accepts only identifiers the provider may assert."""
from checks import fakes, rp

IDP = 'http://specs.openid.net/auth/2.0/server'
TYPESETS = [[rp.T2], [rp.T11], [rp.T10], [IDP], [rp.T2, rp.T11], ['http://other/'], []]


def operator(c, name, p):
    if 'opc' in p:
        return 'http://o' + c.text(name, 2, 0, p['opc'])
    return 'http://o' + c.str(name, 1, 'ab') + '/'


def local(c, name, p):
    if 'lc' in p:
        return 'http://i/' + c.text(name, 2, 0, p['lc'])
    return 'http://i/' + c.str(name, 1, 'ab')


def sym_endpoint(c, name, p, types):
    e = rp.endpoint(c, 2, types=types)
    e.server_url = operator(c, name + '_op', p)
    if IDP in types:
        e.claimed_id = e.local_id = None
        return e
    e.claimed_id = 'http://i/' + c.text(name + '_id', p.get('n', 1), p.get('n', 1), p.get('idc', 'ab'))
    k = c.pick(name + '_localkind', 3)
    e.local_id = e.canonicalID = None
    if k == 1:
        e.local_id = local(c, name + '_local', p)
    elif k == 2:
        e.canonicalID = e.claimed_id
    return e


def local_of(e):
    if e.local_id is not None:
        return e.local_id
    return e.canonicalID if e.canonicalID is not None else e.claimed_id


def defrag(u):
    i = u.find('#')
    return u if i < 0 else u[:i]


def matches(c, e, ver, claimed, identity, op):
    if e.claimed_id is None:
        return False
    types = [rp.T2] if ver == 2 else [rp.T11, rp.T10]
    return c.And(any(t in e.type_uris for t in types), c.eq(e.claimed_id, defrag(claimed)), c.eq(local_of(e), identity), ver == 1 or c.eq(e.server_url, op))


def deliver(c, ver, session, services, claimed, identity, op, asked=None):
    f = rp.fields(ver)
    q = None
    for k, v in (('identity', identity), ('claimed_id', claimed if ver == 2 else None), ('op_endpoint', op if ver == 2 else None)):
        if v is None:
            f.pop(k, None)
        else:
            f[k] = v
    rt = rp.RT
    if ver == 1:
        f['return_to'] = rp.RT + '?janrain_nonce=' + rp.NONCE.replace(':', '%3A')
        if claimed is not None:
            f['return_to'] = f['return_to'] + '&openid1_claimed_id=' + claimed.replace('#', '%23')
    signed = ','.join([k for k in f if k not in ('ns', 'mode')] + ['signed'])
    c.set_now(rp.NOW)

    def disco(url):
        return url, services
    con = rp.consumer(c, None, session, disco if services is not None else None)
    net = fakes.install(c, lambda url, b, h: fakes.Response(url, 200, {}, b'is_valid:true\n'))
    q = rp.query(ver, f)
    if ver == 1:
        q.pop('openid1_claimed_id')
        if claimed is not None:
            q['openid1_claimed_id'] = claimed
    q['openid.signed'], q['openid.sig'] = signed, 'x'
    r, ex = c.attempt(con.complete, q, rp.RT)
    c.check(ex is None, 'a response is always answered with a result')
    return r, net, con


def h_match(c):
    p = c.params
    ver = p['ver']
    session = None
    if p['session'] is not None:
        session = sym_endpoint(c, 'ses', p, TYPESETS[p['session']])
    services = None if p['found'] is None else [rp.endpoint(c, ver, 'http://pad%d/' % i) for i in range(p.get('pad', 0))] + [sym_endpoint(c, 'svc%d' % i, p, TYPESETS[t]) for i, t in enumerate(p['found'])]
    claimed = 'http://i/' + c.text('claimed', p.get('n', 1), p.get('n', 1), p.get('idc', 'ab'))
    if not p.get('empty') and c.maybe('frag'):
        claimed = claimed + '#' + c.str('fragment', 1, 'ab')
    if p.get('empty'):
        claimed = ''
    asserted = claimed
    identity = local(c, 'identity', p)
    op = operator(c, 'op', p)
    if ver == 1 and p.get('noclaim'):
        claimed = None
        asserted = session.claimed_id if session is not None else None
    r, net, con = deliver(c, ver, session, services, claimed, identity, op)
    ok = r.status == 'success'
    cand = ([session] if session is not None else []) + (services or [])
    match = c.Or([matches(c, e, ver, asserted, identity, op) for e in cand]) if asserted is not None else False
    c.check(c.Iff(ok, match), 'success exactly when remembered or discovered information confirms the identifier')
    if con.asked:
        c.check(c.And(len(con.asked) == 1, asserted is not None and con.asked[0] is not None and c.eq(defrag(con.asked[0]), defrag(asserted))), 'discovery starts from the claimed identifier')
    if ok:
        e = r.endpoint
        c.check(c.eq(r.identity_url, claimed if ver == 2 else defrag(asserted)), 'the result names the asserted claimed identifier')
        if ver == 2:
            c.check(c.eq(e.server_url, op), 'the result names the asserted provider')
            c.check(c.eq(r.getDisplayIdentifier(), defrag(claimed)), 'the identifier is displayed without fragment')
        c.check(len(net.calls) == 1 and c.eq(net.calls[0][0], e.server_url), 'the provider of the confirmed endpoint is asked')
        c.check(c.Or([c.And(c.eq(e.server_url, x.server_url), matches(c, x, ver, asserted, identity, op)) for x in cand]), 'the endpoint is one that confirms the identifier')


def h_presence(c):
    """Missing identifiers; OpenID 2 responses about no identifier."""
    p = c.params
    session = sym_endpoint(c, 'ses', p, TYPESETS[p['session']]) if p['session'] is not None else None
    claimed = 'http://i/' + c.str('claimed', 1, 'ab') if c.maybe('has_claimed') else None
    identity = 'http://i/' + c.str('identity', 1, 'ab') if c.maybe('has_identity') else None
    op = 'http://o' + c.str('op', 1, 'ab') + '/'
    services = [rp.endpoint(c, 2, op, claimed or 'http://i/a', identity)]
    r, net, con = deliver(c, 2, session, services, claimed, identity, op)
    if (claimed is None) != (identity is None):
        c.check(r.status == 'failure', 'claimed and local identifier only come together')
        c.check(not net.calls, 'the provider is not asked about an incomplete assertion')
    elif claimed is None:
        c.check(r.status == 'success' and r.identity_url is None, 'an assertion about no identifier names none')
        c.check(c.eq(net.calls[0][0], op), 'the asserted provider is asked')
    else:
        c.check(r.status == 'success', 'a confirmed assertion is accepted')


def h_failing(c):
    """Discovery fails in every way."""
    p = c.params
    C, F = c.mod('openid.consumer.consumer'), c.mod('openid.fetchers')
    session = sym_endpoint(c, 'ses', p, TYPESETS[p['session']]) if p['session'] is not None else None
    claimed = 'http://i/' + c.str('claimed', 1, 'ab')
    identity = 'http://i/' + c.str('identity', 1, 'ab')
    op = 'http://o' + c.str('op', 1, 'ab') + '/'
    kind = c.pick('how', 4)

    class Fail(list):
        pass
    ver = p['ver']

    def disco(url):
        if kind == 0:
            raise C.DiscoveryFailure('x', None)
        if kind == 1:
            raise F.HTTPFetchingError('x')
        if kind == 2:
            raise ValueError('x')
        return url, []
    f = rp.fields(ver)
    f['identity'] = identity
    if ver == 2:
        f['claimed_id'], f['op_endpoint'] = claimed, op
    else:
        f['return_to'] = rp.RT + '?janrain_nonce=' + rp.NONCE + '&openid1_claimed_id=' + claimed
    c.set_now(rp.NOW)
    con = rp.consumer(c, None, session, disco)
    net = fakes.install(c, lambda url, b, h: fakes.Response(url, 200, {}, b'is_valid:true\n'))
    q = rp.query(ver, f)
    if ver == 1:
        q['openid1_claimed_id'] = claimed
    q['openid.signed'], q['openid.sig'] = ','.join([k for k in f if k not in ('ns', 'mode')]), 'x'
    r, ex = c.attempt(con.complete, q, rp.RT)
    c.check(ex is None, 'a response is always answered with a result')
    m = session is not None and matches(c, session, ver, claimed, identity, op)
    c.check(c.Iff(r.status == 'success', m), 'failed discovery confirms nothing')


Q2 = [dict(ver=2, session=s, found=f) for s in (None, 0, 1, 3) for f in (None, [0], [1], [3])] + [dict(ver=2, session=4, found=[5]), dict(ver=2, session=None, found=[0, 0]), dict(ver=2, session=None, found=[1, 4]), dict(ver=2, session=None, found=[0], n=2, idc='a/=.A'), dict(ver=2, session=0, found=None, opc='a/A'), dict(ver=2, session=None, found=[0], opc='/?&'),
    dict(ver=2, session=0, found=None, lc='a/A'), dict(ver=2, session=None, found=[0], lc='/#?'), dict(ver=2, session=0, found=None, n=2, idc='a/A')]
Q2 += [dict(ver=2, session=None, found=[0], pad=7), dict(ver=2, session=0, found=[5, 1, 0])]
Q1 = [dict(ver=1, session=None, found=[1], pad=7)] + [dict(ver=1, session=s, found=f, empty=1) for s in (None, 1) for f in ([], [1])] + [dict(ver=1, session=s, found=f) for s in (None, 0, 1, 2, 3) for f in (None, [0], [1], [2])] + [dict(ver=1, session=s, found=[1], noclaim=1) for s in (None, 1, 3)] + [dict(ver=1, session=None, found=[1, 2]), dict(ver=1, session=4, found=[5]), dict(ver=1, session=1, found=None, lc='a/A'), dict(ver=1, session=1, found=None, n=2, idc='a/A')]
T2 = [dict(ver=v, session=s, found=list(f)) for v in (1, 2) for s in (None, 0, 1, 2, 3, 4, 6) for f in ((0, 1), (4, 0), (3, 0), (0,), (6,), (2, 5))]
HARNESSES = {
    'match': dict(fn=h_match, quick=Q2 + Q1, thorough=Q2 + Q1 + T2,
                  bounds='every equality pattern of claimed identifier (with and without fragment), local identifier and provider between assertion, session and up to three discovered services (also behind seven others); 7 sets of service types'),
    'presence': dict(fn=h_presence, quick=[dict(session=s) for s in (None, 0, 3)], bounds='all presence patterns of claimed and local identifier'),
    'failing': dict(fn=h_failing, quick=[dict(ver=v, session=s) for v in (1, 2) for s in (None, 0, 1)], bounds='discovery failing, raising or finding nothing'),
}
