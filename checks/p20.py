"""P20: the relying party keeps an association only when type and secret agree."""
from six.moves.urllib.parse import parse_qsl

from checks import dhfake, fakes, rp, stores

TYPES = {'HMAC-SHA1': 20, 'HMAC-SHA256': 32}
PAIRS = [('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA1', 'no-encryption')]
ALG = {'DH-SHA1': 'sha1', 'DH-SHA256': 'sha256'}


def compatible(a, s):
    return (a, s) in PAIRS


def body(fields):
    out = ''
    for k, v in fields.items():
        if v is not None:
            out = out + k + ':' + v + '\n'
    return out.encode('utf-8')


class Lax(object):
    """A store that leaves dropping expired associations to its user."""

    def __init__(self):
        self.got = {}

    def storeAssociation(self, url, a):
        self.got[url] = a

    def getAssociation(self, url, handle=None):
        a = self.got.get(url)
        return a if a is not None and handle in (None, a.handle) else None


def begin(c, ver, prefs, answers, store='mem', prior=None, op=rp.OP):
    """Begins a login; answers: list of functions of the posted fields."""
    c.set_now(rp.NOW)
    if store == 'lax':
        s = Lax()
    else:
        s = stores.make(c, store)
    if prior is not None:
        s.storeAssociation(op, prior)
    con = rp.consumer(c, s)
    con.setAssociationPreference(prefs)
    asked = []

    def net(url, b, h):
        f = dict(rp.posted((url, b)))
        asked.append((url, f))
        return answers[min(len(asked), len(answers)) - 1](f)
    fakes.install(c, net)
    r, ex = c.attempt(con.beginWithoutDiscovery, rp.endpoint(c, ver, op))
    c.check(ex is None, 'no answer of a provider makes the login raise')
    for url, f in asked:
        c.check(url == op, 'the endpoint in use is asked')
    return r.assoc, s, asked


def wanted(ver, pref):
    """Fields of the association request for a pair of types."""
    f = {'openid.mode': 'associate', 'openid.assoc_type': pref[0]}
    if ver == 2:
        f['openid.ns'] = rp.NS2
    if ver == 2 or pref[1] != 'no-encryption':
        f['openid.session_type'] = pref[1]
    return f


def check_request(c, ver, pref, f):
    w = wanted(ver, pref)
    got = {k: v for k, v in f.items() if not k.startswith('openid.dh_')}
    c.check(c.eq(got, w), 'the request states the preferred types')
    c.check(('openid.dh_consumer_public' in f) == (pref[1] != 'no-encryption'), 'key exchange values go with encrypted sessions')


def kept(c, s, assoc, cond, handle, secret, typ, life):
    """The association in use and in the store is the negotiated one."""
    st = s.getAssociation(rp.OP)
    c.check(c.Iff(assoc is not None, cond), 'an association is made exactly from an acceptable answer')
    if assoc is None:
        c.check(st is None, 'nothing is stored without acceptable answer')
        return
    c.check(c.And(c.eq(assoc.handle, handle), c.eq(assoc.secret, secret), c.eq(assoc.assoc_type, typ), c.eq(assoc.lifetime, life), assoc.issued == rp.NOW), 'the association is the one the provider sent')
    if life > 0:
        c.check(st is not None and st == assoc, 'the association is stored for the endpoint')


def h_types(c):
    """Association and session type of the answer."""
    p = c.params
    ver = p['ver']
    pref = PAIRS[p['pref']]
    if pref[1] != 'no-encryption':
        dhfake.install(c)
    rver = c.choice('rver', [1, 2, 11])
    f = {'ns': {1: None, 2: rp.NS2, 11: rp.NS11}[rver]}
    a = c.choice('atype', ['HMAC-SHA1', 'HMAC-SHA256', None, 'sym'])
    if a == 'sym':
        a = p['apre'] + c.text('a', p.get('n', 1), 0, 'print')
        c.assume(c.all_chars(a[-1:], 'graph'))
    st = c.choice('stype', ['DH-SHA1', 'DH-SHA256', 'no-encryption', '', None, 'sym'])
    if st == 'sym':
        st = p['spre'] + c.text('s', p.get('n', 1), 0, 'print')
        c.assume(c.all_chars(st[-1:], 'graph'))
    f['assoc_type'], f['session_type'] = a, st
    secret = b'\x01' * TYPES[pref[0]]
    f['assoc_handle'], f['expires_in'] = 'h', '100'
    f['mac_key'] = c.b64(secret)
    f['enc_mac_key'], f['dh_server_public'] = c.b64(secret), 'AQ=='
    assoc, s, asked = begin(c, ver, [pref], [lambda q: fakes.Response(rp.OP, 200, {}, body(f))])
    c.check(len(asked) == 1, 'an answer is not followed by another request')
    check_request(c, ver, pref, asked[0][1])
    # effective session type of the answer
    v1 = rver != 2
    plain = c.Or(v1 and st is None, v1 and st is not None and c.eq(st, ''), st is not None and c.eq(st, 'no-encryption'))
    same = c.Or(st is not None and c.eq(st, pref[1]), pref[1] == 'no-encryption' and plain)
    fallback = c.And(v1, plain)
    known = a is not None and c.Or(c.eq(a, 'HMAC-SHA1'), c.eq(a, 'HMAC-SHA256'))
    ok = c.And(a is not None, c.Or(c.And(fallback, known), c.And(same, c.eq(a, pref[0]) if pref[1] != 'no-encryption' else known)))
    c.check(c.Iff(assoc is not None, ok), 'an association is made exactly from compatible types that were asked for')
    if assoc is not None:
        c.check(c.eq(assoc.assoc_type, a), 'the association has the type of the answer')
        if pref[1] == 'no-encryption' or c.And(fallback, c.Not(same)):
            c.check(c.eq(assoc.secret, secret), 'a plain secret is taken as it is')


def h_fields(c):
    """Presence and form of the other fields, plain session."""
    p = c.params
    ver = p['ver']
    pref = PAIRS[p['pref']]
    f = {'ns': rp.NS2 if ver == 2 else None, 'assoc_type': pref[0], 'session_type': pref[1] if ver == 2 else None}
    secret = c.bytes('secret', TYPES[pref[0]])
    hd = c.text('handle', p['n'], 0, p.get('chars', 'graph')) if c.maybe('has_handle') else None
    f['assoc_handle'] = hd
    ek = c.pick('expires', 4)
    life = None
    if ek == 0:
        life = c.int('life', 0, 10 ** 6)
        f['expires_in'] = str(life)
    elif ek == 1:
        f['expires_in'] = c.text('junk', 2, 0, 'a-z.')
    elif ek == 2:
        life = -5
        f['expires_in'] = '-5'
    mk = c.pick('mac', 3)
    if mk == 0:
        f['mac_key'] = c.b64(secret)
    elif mk == 1:
        f['mac_key'] = c.b64(secret)[:-1] + c.str('bad', 1, '!._')
    assoc, s, asked = begin(c, ver, [pref], [lambda q: fakes.Response(rp.OP, 200, {}, body(f))], p.get('store', 'mem'))
    check_request(c, ver, pref, asked[0][1])
    if mk == 1:
        c.check(assoc is None, 'a malformed secret makes no association')
        return
    ok = hd is not None and life is not None and mk == 0
    if not ok:
        c.check(assoc is None, 'a missing or malformed field makes no association')
        return
    if life < 0:
        if assoc is not None:
            c.check(assoc.getExpiresIn() == 0, 'a negative lifetime is an expired association')
        return
    kept(c, s, assoc, True, hd, secret, pref[0], life)


def h_secret(c):
    """Encrypted sessions: exactly the masked secret."""
    p = c.params
    ver = p['ver']
    pref = PAIRS[p['pref']]
    g = dhfake.install(c, p.get('n', 3))
    n = TYPES[pref[0]]
    secret = c.bytes('secret', n)
    mask = c.sha(ALG[pref[1]], dhfake.btwoc(c, g.secret()))
    enc = bytes(x ^ y for x, y in zip(secret, mask))
    f = {'ns': rp.NS2 if ver == 2 else None, 'assoc_type': pref[0], 'session_type': pref[1], 'assoc_handle': 'h', 'expires_in': '100'}
    how = c.pick('how', 7)
    ek, sp = c.b64(enc), 'D0JE'
    ok = True
    if how == 1:
        ek = c.b64(enc[:-1])
    elif how == 2:
        ek = c.b64(enc + b'\0')
    elif how == 3:
        g.bad = 'invalid public key'
    elif how == 4:
        ek = None
    elif how == 5:
        sp = None
    elif how == 6:
        sp = c.choice('sp', ['', '=', 'A', '!!!!', 'Zm9v!'])
    f['enc_mac_key'], f['dh_server_public'] = ek, sp
    f['mac_key'] = c.b64(b'\0' * n) if c.maybe('plain too') else None
    assoc, s, asked = begin(c, ver, [pref], [lambda q: fakes.Response(rp.OP, 200, {}, body(f))])
    check_request(c, ver, pref, asked[0][1])
    if how:
        if how == 6 and assoc is not None:
            return
        c.check(assoc is None, 'a missing or malformed field makes no association')
        return
    kept(c, s, assoc, True, 'h', secret, pref[0], 100)
    c.check(g.exchanges == [(g.keys[0], 1000004)], 'the secret is agreed with the key the provider sent')
    want = c.mod('openid.cryptutil').longToBase64(g.keys[0])
    c.check(c.eq(asked[0][1]['openid.dh_consumer_public'], want), 'the public key sent is the own one')
    c.check('openid.dh_modulus' not in asked[0][1], 'default parameters are not sent')


def h_negotiate(c):
    """The provider refuses and proposes."""
    p = c.params
    ver = p['ver']
    dhfake.install(c)
    op = p.get('op', rp.OP)
    prefs = [PAIRS[i] for i in p['prefs']]
    rver = c.choice('rver', [2, 1, 11])
    if c.maybe('proposal'):
        code, status = 'unsupported-type', 400
        pa = c.choice('pa', ['HMAC-SHA1', 'HMAC-SHA256', None, 'x'])
        ps = c.choice('ps', ['DH-SHA1', 'DH-SHA256', 'no-encryption', None, 'x'])
    else:
        code = c.choice('code', ['unsupported-type', 'other', None, 'sym'])
        status = c.choice('status', [400, 200, 500])
        pa, ps = prefs[-1]
    if code == 'sym':
        code = 'unsupported-typ' + c.text('code_s', 1, 0, 'a-z')
    err = {'ns': {1: None, 2: rp.NS2, 11: rp.NS11}[rver], 'error': 'no', 'error_code': code, 'assoc_type': pa, 'session_type': ps}
    picked = []
    s20 = b'\x02' * 32

    def answer2(q):
        second = c.pick('second', 4)
        picked.append(second)
        if second == 0:
            return fakes.Response(rp.OP, 400, {}, body(err))
        if second == 1:
            raise c.mod('openid.fetchers').HTTPFetchingError('x')
        if second == 2:
            return fakes.Response(rp.OP, 200, {}, b'')
        a = q['openid.assoc_type']
        f = {'ns': rp.NS2 if ver == 2 else None, 'assoc_type': a, 'session_type': q.get('openid.session_type'), 'assoc_handle': 'h', 'expires_in': '100'}
        m = s20[:TYPES[a]]
        f['mac_key'], f['enc_mac_key'], f['dh_server_public'] = c.b64(m), c.b64(m), 'D0JE'
        return fakes.Response(rp.OP, 200, {}, body(f))
    assoc, s, asked = begin(c, ver, prefs, [lambda q: fakes.Response(op, status, {}, body(err)), answer2], op=op)
    check_request(c, ver, prefs[0], asked[0][1])
    retry = c.And(status == 400, rver == 2, code is not None and c.eq(code, 'unsupported-type'), (pa, ps) in prefs)
    c.check(len(asked) <= 2, 'at most one retry')
    c.check(c.Iff(len(asked) == 2, retry), 'a retry exactly for a proposal that is allowed')
    if len(asked) == 2:
        check_request(c, ver, (pa, ps), asked[1][1])
    c.check((assoc is not None) == (len(asked) == 2 and picked == [3]), 'an association only from an acceptable answer')
    st = s.getAssociation(op)
    c.check((st is None) == (assoc is None) and (st is None or st == assoc), 'the store has the association in use')
    if assoc is not None:
        c.check(assoc.assoc_type == pa, 'the association has the type proposed')


def h_faults(c):
    """Failing fetches, statuses, arbitrary bodies."""
    p = c.params
    ver = p['ver']
    pref = PAIRS[p['pref']]
    if pref[1] != 'no-encryption':
        dhfake.install(c)
    kind = c.pick('kind', 3)
    good = body({'ns': rp.NS2 if ver == 2 else None, 'assoc_type': pref[0], 'session_type': pref[1], 'assoc_handle': 'h', 'expires_in': '100', 'mac_key': c.b64(b'\1' * TYPES[pref[0]]), 'enc_mac_key': c.b64(b'\1' * TYPES[pref[0]]), 'dh_server_public': 'AQ=='})
    status = c.choice('status', [200, 206, 201, 302, 400, 404, 500]) if kind != 0 else 200
    b = good
    if kind == 2:
        b = p.get('bpre', '').encode('ascii') + c.bin('body', p['n'], 0) + p.get('bpost', '').encode('ascii')

    def answer(q):
        if kind == 0:
            raise c.mod('openid.fetchers').HTTPFetchingError('x')
        return fakes.Response(rp.OP, status, {}, b)
    assoc, s, asked = begin(c, ver, [pref], [answer])
    c.check(len(asked) == 1, 'no retry')
    ok = kind == 1 and status in (200, 206)
    if kind != 2:
        c.check((assoc is not None) == ok, 'only a complete answer makes an association')
    elif status not in (200, 206):
        c.check(assoc is None, 'only a successful answer makes an association')
    elif not p.get('bpre'):
        c.check(assoc is None, 'a garbled answer makes no association')


def h_prior(c):
    """An association the relying party already has."""
    p = c.params
    A = c.mod('openid.association')
    issued = c.int('issued', rp.NOW - 1000, rp.NOW)
    life = c.int('life', 0, 2000)
    prior = A.Association('old', b'\3' * 20, issued, life, 'HMAC-SHA1')
    good = body({'ns': rp.NS2, 'assoc_type': 'HMAC-SHA1', 'session_type': 'no-encryption', 'assoc_handle': 'new', 'expires_in': '100', 'mac_key': c.b64(b'\4' * 20)})
    ok = c.maybe('answers')
    assoc, s, asked = begin(c, 2, [PAIRS[3]], [lambda q: fakes.Response(rp.OP, 200 if ok else 500, {}, good)], p['store'], prior)
    live = issued + life > rp.NOW
    c.check(c.Iff(len(asked) == 0, live), 'a new association is negotiated exactly without a live one')
    if len(asked) == 0:
        c.check(assoc.handle == 'old' and assoc.secret == prior.secret, 'the live association is used')
    else:
        c.check((assoc is not None and assoc.handle == 'new') if ok else assoc is None, 'an expired association is not used')


def h_prefs(c):
    """What preferences may be stated."""
    p = c.params
    A = c.mod('openid.association')
    a = c.choice('a', ['HMAC-SHA1', 'HMAC-SHA256', 'sym'])
    s = c.choice('s', ['DH-SHA1', 'DH-SHA256', 'no-encryption', 'sym'])
    a = 'HMAC-SHA' + c.text('as', 3, 0, '1256') if a == 'sym' else a
    s = 'DH-SHA' + c.text('ss', 3, 0, '1256') if s == 'sym' else s
    n, ex = c.attempt(A.SessionNegotiator, [PAIRS[0], (a, s)])
    ok = c.Or([c.And(c.eq(a, x), c.eq(s, y)) for x, y in PAIRS])
    c.check(c.Iff(ex is None, ok), 'only compatible pairs may be preferred')
    c.check(ex is None or isinstance(ex, ValueError), 'an incompatible pair is a value error')
    n = A.SessionNegotiator([PAIRS[i] for i in p['have']])
    have = c.Or([c.And(c.eq(a, PAIRS[i][0]), c.eq(s, PAIRS[i][1])) for i in p['have']])
    c.check(c.Iff(n.isAllowed(a, s), have), 'exactly the preferred pairs are allowed')
    r, ex = c.attempt(n.addAllowedType, a, s)
    c.check(c.Iff(ex is None, ok), 'only compatible pairs may be added')
    c.check(c.Iff(n.isAllowed(a, s), c.Or(have, ok)), 'exactly the preferred pairs are allowed')
    c.check(n.getAllowedType() == (PAIRS[p['have'][0]] if p['have'] else (n.allowed_types[0] if n.allowed_types else (None, None))), 'the first pair is preferred')


HARNESSES = {
    'types': dict(fn=h_types, quick=[dict(ver=v, pref=i, apre='HMAC-SHA', spre='DH-SHA') for v in (1, 2) for i in range(4)] + [dict(ver=v, pref=i, apre='', spre='') for v in (1, 2) for i in (0, 3)],
                  thorough=[dict(ver=v, pref=i, apre='HMAC-SHA', spre='DH-SHA', n=3) for v in (1, 2) for i in range(4)], bounds='all combinations of requested and answered types, known, absent, empty or similar texts'),
    'fields': dict(fn=h_fields, quick=[dict(ver=v, pref=i, n=2) for v in (1, 2) for i in (1, 3)] + [dict(ver=2, pref=3, n=1, store='file')], thorough=[dict(ver=2, pref=3, n=4, chars='print'), dict(ver=1, pref=1, n=3, store='file')], bounds='all presence patterns; handles up to 2 (4) characters, any secret, lifetimes up to 10^6'),
    'secret': dict(fn=h_secret, quick=[dict(ver=v, pref=i) for v in (1, 2) for i in (0, 2)], thorough=[dict(ver=2, pref=i, n=5) for i in (0, 2)], bounds='any secret and any agreed value of 3 (5) bytes, ideal hash'),
    'negotiate': dict(fn=h_negotiate, quick=[dict(ver=2, prefs=[0, 1, 2, 3]), dict(ver=2, prefs=[0, 2]), dict(ver=1, prefs=[2, 0]), dict(ver=2, prefs=[3])] + [dict(ver=2, prefs=q, op='https://op/') for q in ([0, 2], [3])] + [dict(ver=2, prefs=[2], op='https://op:8443/a?b')], thorough=[dict(ver=v, prefs=list(q)) for v in (1, 2) for q in ((1, 3), (0,), (2, 1), (3, 2, 0))], bounds='every proposal, error code, status and second answer'),
    'faults': dict(fn=h_faults, quick=[dict(ver=v, pref=i, n=2) for v in (1, 2) for i in (0, 3)] + [dict(ver=2, pref=3, n=1, bpre='ns:', bpost='\n'), dict(ver=2, pref=3, n=1, bpre='ns:http://specs.openid.net/auth/2.0\nns.', bpost=':x\n')], thorough=[dict(ver=2, pref=3, n=3)], bounds='seven statuses, arbitrary bodies up to 2 (3) bytes'),
    'prior': dict(fn=h_prior, quick=[dict(store=s) for s in ('mem', 'file', 'sqlite', 'lax')], bounds='any issue time and lifetime'),
    'prefs': dict(fn=h_prefs, quick=[dict(have=h) for h in ([], [0], [2, 3], [0, 1, 2, 3])], bounds='known pairs and similar texts'),
}
