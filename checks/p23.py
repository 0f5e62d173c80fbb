"""P23: the provider asserts only the identity that was asked for and approved."""
from six.moves.urllib.parse import parse_qsl

from checks import rp, stores

SELECT = 'http://specs.openid.net/auth/2.0/identifier_select'
NSS = {1: None, 10: rp.NS1, 11: rp.NS11, 2: rp.NS2}
# arguments of assertions and other messages that have no meaning in a login request
EXTRA = ['response_nonce', 'op_endpoint', 'sig', 'signed', 'invalidate_handle', 'user_setup_url', 'is_valid', 'error', 'ns.x', 'x.y']
STAMP = '2008-01-10T21:20:00Z'


def request(c, ver, imm, identity, claimed, handle=None, rt=rp.RT, realm=None, op=rp.OP, extra=()):
    """The decoded login request, and its query."""
    c.set_now(rp.NOW)
    drawn = []

    def draw(seq):
        """A source of randomness that does not repeat itself soon."""
        drawn.append(1)
        return seq[len(drawn) % len(seq)]
    c.rand_choice = draw
    S = c.mod('openid.server.server')
    server = S.Server(stores.make(c, 'mem'), op)
    q = {'openid.mode': 'checkid_immediate' if imm else 'checkid_setup'}
    for k, v in (('ns', NSS[ver]), ('identity', identity), ('claimed_id', claimed), ('return_to', rt), ('assoc_handle', handle),
                 ('realm' if ver == 2 else 'trust_root', realm)):
        if v is not None:
            q['openid.' + k] = v
    q.update(extra)
    r, ex = c.attempt(server.decodeRequest, q)
    c.check(ex is None, 'a well-formed login request is accepted')
    return server, r, q


def identifiers(c, kind, ver):
    """Identifiers of the request; those that mean the same differ in letter case only."""
    p = c.params
    if kind == 'none':
        return None, None
    if kind == 'select':
        i = SELECT
    elif kind == 'url':
        i = 'http://' + c.str('host', 1, 'aAbB') + '/'
    elif kind == 'path':
        i = 'http://h/' + c.text('path', p['n'], 0, 'a/')
    elif kind == 'frag':
        i = 'http://h/' + c.text('path', p['n'], 0, 'a#?')
    else:
        i = c.text('identity', p['n'], 0, p.get('chars', 'print'))
    if ver != 2:
        return i, None
    if kind == 'half':      # only the claimed identifier asks for a selection
        return i, SELECT
    return i, SELECT if kind == 'select' and not p.get('other') else c.text('claimed', p.get('nc', 1), 0, p.get('chars', 'print'))


def supplied(c, kind):
    p = c.params
    i = None
    if c.maybe('give identity'):
        j = c.pick('form', 2) if kind in ('url', 'path', 'frag') else 0
        if kind == 'frag' and j:
            i = 'http://h/' + c.text('ipath', p['n'], 0, 'a#?')
        elif kind == 'path' and j:
            i = 'http://h/' + c.text('ipath', p['n'], 0, 'a/')
        else:
            i = 'http://' + c.str('ihost', 1, 'aAbB') + '/' if j else c.text('ianswer', p['n'], 0, p.get('chars', 'print'))
    cl = c.text('canswer', 1, 0, p.get('chars', 'print')) if c.maybe('give claimed') else None
    return i, cl


def same(c, a, b):
    """Both name one identifier (for the identifiers generated here)."""
    if c.eq(a, b):
        return True
    if a.startswith('http://') and b.startswith('http://') and len(a) == 9 and len(b) == 9:
        return a[8:] == '/' and b[8:] == '/' and c.eq(a[7].lower(), b[7].lower())
    if a.startswith('http://h/') and b.startswith('http://h/'):
        return c.eq(parts(a), parts(b))
    return False


def parts(u):
    """Path, query and fragment of an identifier; an empty one is none."""
    u, _, frag = u.partition('#')
    u, _, query = u.partition('?')
    return u, query, frag


def h_allow(c):
    """Positive answers."""
    p = c.params
    ver, kind = p['ver'], p['kind']
    S = c.mod('openid.server.server')
    op = rp.OP if ver == 2 or c.maybe('endpoint') else None
    imm = c.maybe('immediate')
    ident, claimed = identifiers(c, kind, ver)
    extra = {}
    if p.get('extra'):
        extra['openid.' + c.choice('extra', EXTRA)] = c.text('xvalue', p['n'], 0, 'print')
    server, r, q = request(c, ver, imm, ident, claimed, op=op, extra=extra)
    i, cl = supplied(c, kind)
    url = 'http://other/' if c.maybe('server_url') else None
    resp, ex = c.attempt(r.answer, True, url, i, cl)
    if ver != 2 and cl is not None and len(cl):
        c.check(isinstance(ex, S.VersionError), 'a claimed identifier is no part of OpenID 1 answers')
        return
    if kind == 'select':
        ok = i is not None and len(i) > 0
        pair = (i, cl if cl is not None and len(cl) else i)
    elif ident is not None and len(ident):
        ok = i is None or len(i) == 0 or same(c, i, ident)
        pair = (ident, claimed)
    else:
        ok = ver == 2 and (i is None or len(i) == 0)
        pair = None
    if not ok:
        c.check(isinstance(ex, ValueError), 'an identity that was not asked for is refused')
        return
    c.check(ex is None, 'the requested identity can be asserted')
    want = {'openid.mode': 'id_res', 'openid.return_to': rp.RT}
    if ver == 2:
        want['openid.ns'] = rp.NS2
    if url or op:
        want['openid.op_endpoint'] = url or op
    if pair is not None:
        want['openid.identity'] = pair[0]
        if ver == 2:
            want['openid.claimed_id'] = pair[1]
    got = dict(resp.fields.toPostArgs())
    nonce = got.pop('openid.response_nonce', None)
    c.check(c.eq(got, want), 'the assertion carries exactly the approved identity, the return address and the endpoint')
    c.check(nonce is not None and len(nonce) == 26 and c.eq(nonce[:20], STAMP), 'the assertion carries a nonce of this moment')
    c.check(resp.needsSigning(), 'an assertion is to be signed')
    c.check(resp.request is r, 'the answer belongs to the request')
    # a second answer has a nonce of its own
    again, ex = c.attempt(r.answer, True, url, i, cl)
    c.check(ex is None, 'the requested identity can be asserted')
    n2 = again.fields.getArg(rp.NS2 if ver == 2 else c.mod('openid.message').OPENID_NS, 'response_nonce')
    c.check(c.Not(c.eq(nonce, n2)), 'each assertion has its own nonce')


def h_deny(c):
    """Refusals."""
    p = c.params
    ver, kind, imm = p['ver'], p['kind'], p['imm']
    S = c.mod('openid.server.server')
    op = rp.OP if ver == 2 or c.maybe('endpoint') else None
    ident, claimed = identifiers(c, kind, ver)
    handle = c.text('handle', 1, 0, 'print') if c.maybe('with handle') else None
    realm = 'http://rp/' if c.maybe('realm') else None
    server, r, q = request(c, ver, imm, ident, claimed, handle, realm=realm, op=op)
    url = 'http://other/' if c.maybe('server_url') else None
    i = 'http://x/' if c.maybe('give identity') else None
    cl = 'http://y/' if ver == 2 and c.maybe('give claimed') else None
    resp, ex = c.attempt(r.answer, False, url, i, cl)
    if imm and not (url or op):
        c.check(isinstance(ex, ValueError), 'an OpenID 1 refusal needs an address')
        return
    c.check(ex is None, 'every request can be refused')
    got = dict(resp.fields.toPostArgs())
    want = {'openid.ns': rp.NS2} if ver == 2 else {}
    if not imm:
        want['openid.mode'] = 'cancel'
        c.check(c.eq(got, want), 'a refusal is a cancel response without anything else')
        c.check(not resp.needsSigning(), 'a cancel response is not signed')
        return
    want['openid.mode'] = 'setup_needed' if ver == 2 else 'id_res'
    setup = got.pop('openid.user_setup_url', None)
    c.check(c.eq(got, want), 'a refusal of an immediate request carries no identity and no signature')
    c.check(setup is not None, 'a refusal of an immediate request names the address to continue at')
    if ver == 2:
        c.check(not resp.needsSigning(), 'a setup-needed response is not signed')
    base = url or op
    c.check(setup.startswith(base + '?'), 'the set-up address is at the provider')
    back = dict(parse_qsl(setup[len(base) + 1:], keep_blank_values=True))
    again = {'openid.mode': 'checkid_setup'}
    if ver == 2:
        again['openid.ns'] = rp.NS2
    for k in ('identity', 'claimed_id', 'return_to'):
        if 'openid.' + k in q:
            again['openid.' + k] = q['openid.' + k]
    if handle is not None and len(handle):
        again['openid.assoc_handle'] = handle
    again['openid.realm' if ver == 2 else 'openid.trust_root'] = realm or rp.RT
    c.check(c.eq(back, again), 'the set-up address makes the same request interactively')


def h_noreturn(c):
    """Requests without return address, and addresses to cancel."""
    p = c.params
    ver = p['ver']
    S = c.mod('openid.server.server')
    imm = c.maybe('immediate')
    rt = None
    if ver != 2 or c.maybe('return_to'):
        rt = rp.RT + (c.choice('query', ['', '?', '?a=b']) if not imm else '')
    ident, claimed = ('http://id/', 'http://id/' if ver == 2 else None)
    server, r, q = request(c, ver, imm, ident, claimed, rt=rt, realm='http://rp/')
    allow = c.maybe('allow')
    if rt is None:
        for f, a in ((r.answer, (allow,)), (r.encodeToURL, (rp.OP,)), (r.getCancelURL, ())):
            _, ex = c.attempt(f, *a)
            c.check(isinstance(ex, S.NoReturnToError), 'a request without return address has no answer')
        return
    u, ex = c.attempt(r.getCancelURL)
    if imm:
        c.check(isinstance(ex, ValueError), 'an immediate request is not cancelled')
    else:
        c.check(ex is None, 'an interactive request can be cancelled')
        c.check(u.startswith(rp.RT + '?'), 'cancelling leads to the return address')
        back = dict(parse_qsl(u[len(rp.RT) + 1:]))
        want = {'openid.mode': 'cancel'}
        if ver == 2:
            want['openid.ns'] = rp.NS2
        if rt.endswith('b'):
            want['a'] = 'b'
        c.check(c.eq(back, want), 'the cancel address carries the cancel response')
    u, ex = c.attempt(r.encodeToURL, rp.OP)
    c.check(ex is None and u.startswith(rp.OP + '?'), 'a request can be sent again')
    back = dict(parse_qsl(u[len(rp.OP) + 1:], keep_blank_values=True))
    if ver != 2:
        q.pop('openid.ns', None)      # OpenID 1 messages need no version
    c.check(c.eq(back, q), 'a request sent again is the same')


VERS = (1, 10, 11, 2)
HARNESSES = {
    'allow': dict(fn=h_allow, quick=[dict(ver=v, kind=k, n=1) for v in (1, 2) for k in ('url', 'text', 'select')] + [dict(ver=2, kind='path', n=2), dict(ver=2, kind='frag', n=2), dict(ver=1, kind='frag', n=1), dict(ver=2, kind='half', n=1), dict(ver=2, kind='select', n=1, other=1), dict(ver=1, kind='select', n=1, extra=1), dict(ver=2, kind='text', n=1, extra=1)] + [dict(ver=2, kind='none', n=1)] + [dict(ver=v, kind='text', n=1) for v in (10, 11)],
                  thorough=[dict(ver=v, kind=k, n=3, nc=2) for v in (1, 2) for k in ('text', 'select')] + [dict(ver=v, kind='text', n=2, chars=None) for v in (1, 2)],
                  bounds='identifiers in the request and in the answer up to 1 (3) characters, or URLs differing in letter case, or in paths, queries or fragments of 2 characters; all answer arguments; a meaningless further argument'),
    'deny': dict(fn=h_deny, quick=[dict(ver=v, kind=k, n=1, imm=i) for v in (1, 2) for k in ('text', 'select') for i in (False, True)] + [dict(ver=2, kind='none', n=1, imm=i) for i in (False, True)] + [dict(ver=v, kind='text', n=1, imm=True) for v in (10, 11)],
                 thorough=[dict(ver=v, kind='text', n=3, nc=2, imm=True) for v in VERS] + [dict(ver=2, kind='text', n=1, imm=True, chars=None)], bounds='identifiers up to 1 (3) characters'),
    'noreturn': dict(fn=h_noreturn, quick=[dict(ver=v) for v in VERS], bounds='all request kinds'),
}
