"""P24: the association exchange gives both sides the same secret."""
from six.moves.urllib.parse import parse_qsl

from checks import dhfake, fakes, rp, stores
from checks.p20 import ALG, PAIRS, TYPES

NORMAL, DUMB = 'http://localhost/|normal', 'http://localhost/|dumb'


class World(object):
    """A provider and a relying party connected with each other."""

    def __init__(self, c, allowed=None, store='mem', n=3):
        self.c = c
        c.set_now(rp.NOW)
        self.group = dhfake.install(c, n)
        self.secrets, small = [], []

        def urandom(k):
            if k < 16:
                small.append(1)
                return bytes(bytearray([0] * (k - 1) + [len(small)]))
            s = c.bytes('secret%d' % len(self.secrets), k)
            self.secrets.append(s)
            return s
        c.urandom = urandom
        self.S = c.mod('openid.server.server')
        self.op_store, self.rp_store = stores.make(c, 'mem'), stores.make(c, store)
        self.server = self.S.Server(self.op_store, rp.OP)
        if allowed is not None:
            self.server.negotiator.setAllowedTypes([PAIRS[i] for i in allowed])
        self.asked = []
        self.con = rp.consumer(c, self.rp_store)
        fakes.install(c, self.net)

    def net(self, url, body, headers):
        c, S = self.c, self.S
        q = dict(rp.posted((url, body)))
        r, ex = c.attempt(self.server.decodeRequest, q)
        c.check(ex is None, 'the request of the relying party is accepted')
        resp, ex = c.attempt(self.server.handleRequest, r)
        c.check(ex is None or isinstance(ex, S.ProtocolError), 'the request is answered or a protocol error')
        w, ex = c.attempt(self.server.encodeResponse, ex or resp)
        c.check(ex is None, 'the answer can be sent')
        f = dict(c.mod('openid.kvform').kvToDict(w.body))
        self.asked.append((q, w.code, f))
        return fakes.Response(url, w.code, w.headers, w.body.encode('utf-8'))

    def begin(self, ver, prefs):
        c = self.c
        self.con.setAssociationPreference([PAIRS[i] for i in prefs])
        e = rp.endpoint(c, ver)
        r, ex = c.attempt(self.con.beginWithoutDiscovery, e)
        c.check(ex is None, 'beginning a login does not raise')
        return r.assoc


def check_same(c, w, assoc, pair):
    """Both sides have the association of the pair of types."""
    c.check(assoc is not None, 'the exchange makes an association')
    typ, sess = pair
    op = w.op_store.getAssociation(NORMAL, assoc.handle)
    mine = w.rp_store.getAssociation(rp.OP, assoc.handle)
    c.check(op is not None and mine is not None, 'both sides store the association')
    c.check(w.op_store.getAssociation(DUMB, assoc.handle) is None, 'a negotiated association is no private one')
    for a in (op, mine, assoc):
        c.check(a.handle == assoc.handle and a.assoc_type == typ, 'both sides have the same handle and type')
        c.check(c.eq(a.secret, w.secrets[-1]), 'both sides have the same secret')
        c.check(len(a.secret) == TYPES[typ], 'the secret has the length of the type')
    c.check(op.issued + op.lifetime == mine.issued + mine.lifetime, 'both sides agree on the expiry')
    q, code, f = w.asked[-1]
    c.check(code == 200, 'the answer is a success')
    if sess == 'no-encryption':
        c.check(c.eq(f.get('mac_key'), c.b64(w.secrets[-1])), 'a plain session carries the secret')
        c.check('enc_mac_key' not in f, 'a plain session carries the secret once')
    else:
        c.check('mac_key' not in f, 'the secret is not sent in clear')
        mask = c.sha(ALG[sess], dhfake.btwoc(c, w.group.secret()))
        c.check(c.eq(f.get('enc_mac_key'), c.b64(bytes(x ^ y for x, y in zip(w.secrets[-1], mask)))), 'the secret is sent masked')
        k = w.group.keys
        c.check(len(w.group.exchanges) == 2 and sorted(w.group.exchanges) == sorted([(k[-1], k[-2]), (k[-2], k[-1])]), 'each side uses the public key of the other')


def h_exchange(c):
    """The relying party's first preference is supported."""
    p = c.params
    w = World(c, p.get('allowed'), p.get('store', 'mem'), p.get('n', 3))
    assoc = w.begin(p['ver'], [p['pref']])
    pair = PAIRS[p['pref']]
    check_same(c, w, assoc, pair)
    q, code, f = w.asked[-1]
    want = {'assoc_type': pair[0], 'assoc_handle': assoc.handle, 'expires_in': '1209600'}
    if p['ver'] == 2:
        want['ns'] = rp.NS2
    if p['ver'] == 2 or pair[1] != 'no-encryption':
        want['session_type'] = pair[1]
    got = {k: v for k, v in f.items() if k not in ('mac_key', 'enc_mac_key', 'dh_server_public')}
    c.check(c.eq(got, want), 'the answer describes the association')
    # the association signs and verifies between the two
    M = c.mod('openid.message')
    r = w.server.decodeRequest(dict([('openid.mode', 'checkid_setup'), ('openid.identity', 'i'), ('openid.return_to', rp.RT), ('openid.assoc_handle', assoc.handle)] +
                                    ([('openid.ns', rp.NS2), ('openid.claimed_id', 'i')] if p['ver'] == 2 else [])))
    m = w.server.signatory.sign(r.answer(True)).fields
    c.check(m.getArg(M.OPENID_NS, 'assoc_handle') == assoc.handle and m.getArg(M.OPENID_NS, 'invalidate_handle') is None, 'the provider signs with the association')
    c.check(assoc.checkMessageSignature(m), 'the relying party verifies what the provider signs')


def h_negotiate(c):
    """Support and preferences differ."""
    p = c.params
    ver, prefs = p['ver'], p['prefs']
    allowed = [i for i in range(4) if c.maybe('allow %d' % i)]
    if p.get('reverse'):
        allowed = allowed[::-1]
    w = World(c, allowed)
    assoc = w.begin(ver, prefs)
    first = prefs[0]
    q, code, f = w.asked[0]
    if first in allowed:
        check_same(c, w, assoc, PAIRS[first])
        c.check(len(w.asked) == 1, 'a supported type needs one request')
        return
    c.check(code == 400, 'a refusal has an error status')
    if ver == 2:
        want = {'ns': rp.NS2, 'error_code': 'unsupported-type'}
        if allowed:
            want['assoc_type'], want['session_type'] = PAIRS[allowed[0]]
        got = dict(f)
        text = got.pop('error', None)
        c.check(bool(text), 'a refusal says why')
        c.check(c.eq(got, want), 'a refusal names the preferred supported types')
        if allowed and allowed[0] in prefs:
            c.check(len(w.asked) == 2, 'a proposal within the preferences is tried')
            check_same(c, w, assoc, PAIRS[allowed[0]])
            return
    else:
        c.check(f.get('mode') == 'error' and 'error' in f, 'an OpenID 1 refusal is an error')
    c.check(len(w.asked) == 1 and assoc is None, 'no association without agreement')
    c.check(w.rp_store.getAssociation(rp.OP) is None, 'no association without agreement')


def h_custom(c):
    """Group parameters of the relying party's choice; keys that do not fit."""
    p = c.params
    w = World(c)
    typ, sess = PAIRS[p['pref']]
    cu = c.mod('openid.cryptutil')
    q = {'openid.mode': 'associate', 'openid.assoc_type': typ, 'openid.session_type': sess}
    if p['ver'] == 2:
        q['openid.ns'] = rp.NS2
    y = c.bvint('y', 16)
    q['openid.dh_consumer_public'] = cu.longToBase64(y)
    own = c.maybe('own group')
    if own:
        q['openid.dh_modulus'], q['openid.dh_gen'] = 'Fw==', 'BQ=='
    how = c.pick('how', 3)
    if how == 1:
        w.group.bad = 'not in the group'
    if how == 2:
        q['openid.dh_consumer_public'] = ''
    r, ex = c.attempt(w.server.decodeRequest, q)
    c.check(ex is None or (isinstance(ex, w.S.ProtocolError) and how), 'a request with proper values is accepted')
    if ex is not None:
        return
    resp, ex = c.attempt(w.server.handleRequest, r)
    if how:
        c.check(isinstance(ex, w.S.ProtocolError), 'values that do not fit are a protocol error')
        return
    c.check(ex is None, 'proper values are answered')
    f = dict(resp.fields.toPostArgs())
    c.check(w.group.params[-1] == (23, 5) if own else w.group.params[-1][1] == 2, 'the group is the one asked for')
    c.check(w.group.exchanges[0][0] == w.group.keys[0] and w.group.exchanges[0][1] == y, 'the secret is agreed with the key of the request')
    c.check(c.eq(f['openid.dh_server_public'], cu.longToBase64(w.group.keys[0])), 'the public key sent is the own one')
    mask = c.sha(ALG[sess], dhfake.btwoc(c, w.group.secret()))
    c.check(c.eq(f['openid.enc_mac_key'], c.b64(bytes(x ^ z for x, z in zip(w.secrets[-1], mask)))), 'the secret is sent masked')
    c.check('openid.mac_key' not in f, 'the secret is not sent in clear')


def h_values(c):
    """Key-exchange values that are missing or empty, each on its own."""
    p = c.params
    w = World(c)
    typ, sess = PAIRS[p['pref']]
    q = {'openid.mode': 'associate', 'openid.assoc_type': typ, 'openid.session_type': sess}
    if p['ver'] == 2:
        q['openid.ns'] = rp.NS2
    form = {}
    for k, good in (('dh_modulus', 'Fw=='), ('dh_gen', 'BQ=='), ('dh_consumer_public', 'Aw==')):
        form[k] = c.pick(k, 4)
        if form[k]:
            q['openid.' + k] = (None, '', good, 'A')[form[k]]
    group = (form['dh_modulus'], form['dh_gen'])
    good = (group == (2, 2) or group == (0, 0)) and form['dh_consumer_public'] == 2
    r, ex = c.attempt(w.server.decodeRequest, q)
    if ex is None:
        resp, ex = c.attempt(w.server.handleRequest, r)
    if sess == 'no-encryption':
        c.check(ex is None, 'a plain session needs no key-exchange values')
        return
    if good:
        c.check(ex is None, 'proper values are answered')
        c.check(w.group.params[-1] == (23, 5) if group[0] else w.group.params[-1][1] == 2, 'the group is the one asked for')
    elif group == (1, 1):
        c.check(ex is None or isinstance(ex, w.S.ProtocolError), 'values that do not fit are a protocol error')
    else:
        c.check(isinstance(ex, w.S.ProtocolError), 'missing and malformed values are a protocol error')


def h_names(c):
    """Texts that are no session or association type, alone and next to proper ones."""
    p = c.params
    ver = p['ver']
    w = World(c)
    sess, typ = 'no-encryption', 'HMAC-SHA1'
    if c.maybe('session'):
        sess = c.choice('sess', [None, '', ' ', 'sym', 'DH-SHA1 ', 'dh-sha1', 'DH-SHA256', 'DH-SHA1', 'DH-SHA512', 'None', 'no_encryption', 'No-Encryption'])
        if sess == 'sym':
            sess = p.get('pre', 'no-encryptio') + c.text('sess_s', 1, 0, 'print')
    if c.maybe('association'):
        typ = c.choice('typ', [None, '', ' ', 'sym', 'HMAC-SHA256', 'hmac-sha1', 'HMAC-SHA512', 'HMAC', 'None'])
        if typ == 'sym':
            typ = 'HMAC-SHA' + c.text('typ_s', 1, 0, 'print')
    q = {'openid.mode': 'associate', 'openid.dh_consumer_public': 'Aw=='}
    if ver != 1:
        q['openid.ns'] = {2: rp.NS2, 11: rp.NS11}[ver]
    for k, v in (('session_type', sess), ('assoc_type', typ)):
        if v is not None:
            q['openid.' + k] = v
    plain = c.Or(sess is not None and c.eq(sess, 'no-encryption'), ver != 2 and (sess is None or len(sess) == 0))
    atype = typ if typ is not None or ver == 2 else 'HMAC-SHA1'
    ok = False
    if atype is not None:
        ok = c.Or(c.And(plain, c.Or(c.eq(atype, 'HMAC-SHA1'), c.eq(atype, 'HMAC-SHA256'))),
                  sess is not None and c.Or(c.And(c.eq(sess, 'DH-SHA1'), c.eq(atype, 'HMAC-SHA1')), c.And(c.eq(sess, 'DH-SHA256'), c.eq(atype, 'HMAC-SHA256'))))
    r, ex = c.attempt(w.server.decodeRequest, q)
    resp = None
    if ex is None:
        resp, ex = c.attempt(w.server.handleRequest, r)
    c.check(ex is None or isinstance(ex, w.S.ProtocolError), 'the request is answered or a protocol error')
    c.check(c.Iff(ex is None, ok), 'exactly requests for compatible known types are answered')
    if ex is None:
        f = dict(resp.fields.toPostArgs())
        c.check(c.eq(f['openid.assoc_type'], atype), 'the answer has the type asked for')
        c.check(('openid.mac_key' in f) == bool(plain), 'the secret is in clear exactly in a plain session')
        if not plain:
            c.check(c.eq(f.get('openid.session_type'), sess), 'the answer has the session asked for')
    else:
        c.check(not w.secrets, 'no association is made for a refused request')


def h_handed(c):
    """An association handed out some time after it was made."""
    p = c.params
    w = World(c)
    typ, sess = PAIRS[p['pref']]
    A = c.mod('openid.association')
    age, life = c.int('age', 0, 2000), c.int('life', 0, 2000)
    a = A.Association('h' + c.text('handle', 1, 0, 'print'), c.bytes('own', TYPES[typ]), rp.NOW - age, life, typ)
    q = {'openid.mode': 'associate', 'openid.assoc_type': typ, 'openid.session_type': sess, 'openid.dh_consumer_public': 'Aw=='}
    if p['ver'] == 2:
        q['openid.ns'] = rp.NS2
    r = w.server.decodeRequest(q)
    resp, ex = c.attempt(r.answer, a)
    c.check(ex is None, 'the request is answered')
    f = dict(resp.fields.toPostArgs())
    left = life - age
    if left < 0:
        left = 0
    c.check(c.eq(f['openid.expires_in'], str(left)), 'the answer says how long the association lasts from now')
    c.check(c.eq(f['openid.assoc_handle'], a.handle) and f['openid.assoc_type'] == typ, 'the answer describes the association')
    if sess == 'no-encryption':
        c.check(c.eq(f['openid.mac_key'], c.b64(a.secret)), 'a plain session carries the secret')


def h_xor(c):
    """Masking a secret and taking the mask off again."""
    p = c.params
    g = dhfake.install(c, p['n'])
    D = c.mod('openid.dh')
    from cryptography.hazmat.primitives import hashes
    alg, name, size = ((hashes.SHA1(), 'sha1', 20), (hashes.SHA256(), 'sha256', 32))[p['t']]
    a, b = D.DiffieHellman.fromDefaults(), D.DiffieHellman.fromDefaults()
    s = c.bytes('s', size)
    m, ex = c.attempt(a.xor_secret, b.public_key, c.b64(s), alg)
    c.check(ex is None, 'a secret can be masked')
    mask = c.sha(name, dhfake.btwoc(c, g.secret()))
    c.check(c.eq(m, c.b64(bytes(x ^ y for x, y in zip(s, mask)))), 'the mask is the hash of the agreed number')
    u, ex = c.attempt(b.xor_secret, a.public_key, m, alg)
    c.check(ex is None and c.eq(u, c.b64(s)), 'taking the mask off gives the secret')
    bad = c.bytes('bad', size + p.get('d', 1))
    u, ex = c.attempt(b.xor_secret, a.public_key, c.b64(bad), alg)
    c.check(isinstance(ex, ValueError), 'a secret of another length than the mask is refused')


HARNESSES = {
    'exchange': dict(fn=h_exchange, quick=[dict(ver=v, pref=i) for v in (1, 2) for i in range(4)] + [dict(ver=2, pref=0, store='file'), dict(ver=2, pref=2, allowed=[2])],
                     thorough=[dict(ver=2, pref=i, n=6) for i in (0, 2)] + [dict(ver=2, pref=0, store='sqlite')], bounds='any secret; any agreed number of 3 (6) bytes; ideal hash'),
    'negotiate': dict(fn=h_negotiate, quick=[dict(ver=2, prefs=[0, 1, 2, 3]), dict(ver=2, prefs=[2, 0], reverse=1), dict(ver=1, prefs=[2, 3]), dict(ver=2, prefs=[3])], thorough=[dict(ver=2, prefs=[1, 3, 2]), dict(ver=1, prefs=[0, 3], reverse=1)], bounds='all sets of supported types'),
    'custom': dict(fn=h_custom, quick=[dict(ver=v, pref=i) for v in (1, 2) for i in (0, 2)], bounds='public keys up to 16 bits, two groups'),
    'values': dict(fn=h_values, quick=[dict(ver=v, pref=i) for v in (1, 2) for i in (0, 1, 2)], bounds='each value missing, empty, proper or malformed base64'),
    'names': dict(fn=h_names, quick=[dict(ver=v) for v in (1, 2, 11)], thorough=[dict(ver=2, pre='DH-SHA1'), dict(ver=1, pre='')], bounds='known, absent, empty and near-miss texts of session and association type'),
    'handed': dict(fn=h_handed, quick=[dict(ver=v, pref=i) for v in (1, 2) for i in (0, 3)], bounds='ages and lifetimes up to 2000 s'),
    'xor': dict(fn=h_xor, quick=[dict(t=t, n=3, d=d) for t in (0, 1) for d in (1, -1)], thorough=[dict(t=t, n=8) for t in (0, 1)], bounds='any secret; any agreed number of 3 (8) bytes'),
}
