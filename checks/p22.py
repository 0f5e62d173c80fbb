"""P22: the provider confirms each of its own stateless signatures at most once."""
from checks import rp, stores

NORMAL, DUMB = 'http://localhost/|normal', 'http://localhost/|dumb'
LIFE = 14 * 24 * 3600
TYPES = rp.TYPES
SIZES = dict((t, (a, n)) for t, a, n in TYPES)
NSS = {1: None, 10: rp.NS1, 11: rp.NS11, 2: rp.NS2}


class World(object):
    """A provider; handles and nonces never repeat, secrets are arbitrary."""

    def __init__(self, c, store='mem'):
        self.c = c
        c.set_now(rp.NOW)
        self.store = stores.make(c, store)
        self.S = c.mod('openid.server.server')
        self.M = c.mod('openid.message')
        self.server = self.S.Server(self.store, rp.OP)
        self.keys = []
        fresh, drawn = [], []

        def urandom(n):
            if n < 16:
                fresh.append(1)
                return bytes(bytearray([0] * (n - 1) + [len(fresh)]))
            s = c.bytes('secret%d' % len(self.keys), n)
            self.keys.append(s)
            return s

        def draw(seq):
            drawn.append(1)
            return seq[len(drawn) % len(seq)]
        c.urandom, c.rand_choice = urandom, draw

    def put(self, key, handle, name, typ, old=True):
        c = self.c
        A = c.mod('openid.association')
        alg, n = SIZES[typ]
        secret = c.bytes(name + ' secret', n)
        issued = c.int(name + ' issued', rp.NOW - 10 ** 7, rp.NOW) if old else rp.NOW
        life = c.int(name + ' lifetime', 0, 10 ** 7) if old else LIFE
        self.store.storeAssociation(key, A.Association(handle, secret, issued, life, typ))
        return dict(handle=handle, secret=secret, type=typ, end=issued + life, shared=key == NORMAL)

    def login(self, ver, handle, identity='http://i/', extra=None):
        """The response to a login request, not signed yet."""
        c = self.c
        q = {'openid.mode': 'checkid_setup', 'openid.identity': identity, 'openid.return_to': rp.RT}
        if ver == 2:
            q['openid.claimed_id'] = identity
        if NSS[ver] is not None:
            q['openid.ns'] = NSS[ver]
        if handle is not None:
            q['openid.assoc_handle'] = handle
        r = self.server.decodeRequest(q)
        resp = r.answer(True)
        if extra is not None:
            resp.fields.setArg('http://ext/', 'q', extra)
        return resp

    def sign(self, resp):
        return self.c.attempt(self.server.signatory.sign, resp)

    def ask(self, post):
        """Fields of the answer to a direct verification request."""
        c = self.c
        q = dict(post)
        q['openid.mode'] = 'check_authentication'
        r, ex = c.attempt(self.server.decodeRequest, q)
        c.check(ex is None, 'a verification request with handle and signature is accepted')
        resp, ex = c.attempt(self.server.handleRequest, r)
        c.check(ex is None, 'every verification request is answered')
        f = dict(resp.fields.toPostArgs())
        ns = rp.NS2 if q.get('openid.ns') == rp.NS2 else None
        c.check(c.eq(f.pop('openid.ns', None), ns), 'the answer is in the version of the request')
        v = f.pop('openid.is_valid', None)
        c.check(v in ('true', 'false'), 'the answer states whether the message is valid')
        return v == 'true', f


def listed(post, skip=('openid.sig', 'openid.signed')):
    return sorted(k[7:] for k in post if k.startswith('openid.') and k not in skip)


def check_signed(c, w, before, post, assoc, ih):
    """The message is the response, complete and signed by the association."""
    want = dict(before)
    want['openid.assoc_handle'] = assoc['handle']
    if ih is not None:
        want['openid.invalidate_handle'] = ih
    got = dict(post)
    sig, signed = got.pop('openid.sig', None), got.pop('openid.signed', None)
    c.check(sig is not None and signed is not None, 'the response is signed')
    c.check(c.eq(got, want), 'the signed response says what the response says, with the handle of the association')
    names = signed.split(',')
    c.check(sorted(names) == sorted(listed(post) + ['signed']), 'everything said is signed')
    f = {k[7:]: v for k, v in post.items()}
    c.check(c.eq(sig, rp.signature(c, assoc['type'], assoc['secret'], f, signed)), 'the signature is the keyed hash under that association')


def h_sign(c):
    """Which association signs a response."""
    p = c.params
    w = World(c, p.get('store', 'mem'))
    typ = TYPES[c.pick('type', 2)][0]
    shared = w.put(NORMAL, 'h1', 'shared', typ) if c.maybe('have shared') else None
    w.put(DUMB, 'p1', 'private', 'HMAC-SHA1')
    handle = None if p['none'] else c.text('handle', p.get('n', 2), 1, p.get('chars', 'hp1'))
    value = c.text('value', p.get('v', 1), 0, p.get('vc'))
    resp = w.login(p['ver'], handle, extra=value)
    before = dict(resp.fields.toPostArgs())
    signed, ex = w.sign(resp)
    if c.has_char(value, '\n'):
        c.check(isinstance(ex, w.S.EncodingError), 'what cannot be signed is an encoding error')
        return
    c.check(ex is None, 'every response can be signed')
    c.check(c.eq(dict(resp.fields.toPostArgs()), before), 'the response itself stays as it is')
    post = dict(signed.fields.toPostArgs())
    known = handle is not None and shared is not None and c.eq(handle, 'h1')
    if known and shared['end'] > rp.NOW:
        check_signed(c, w, before, post, shared, None)
        ok, f = w.ask(post)
        c.check(not ok, 'a message signed with a shared association is not confirmed')
        c.check(f == {}, 'nothing else is said')
        return
    new = post.get('openid.assoc_handle')
    c.check(len(w.keys) == 1, 'a fresh private association is made')
    if known and p.get('store', 'mem') != 'mem' and len(w.keys[0]) != SIZES[typ][1]:
        known = False       # other stores forget expired associations, and so their type
    typ = typ if known else 'HMAC-SHA1'
    c.check(len(w.keys[0]) == SIZES[typ][1], 'its type is that of the rejected association')
    c.check(new is not None and c.Not(c.eq(new, 'p1')) and c.Not(c.eq(new, 'h1')), 'its handle is new')
    a = dict(handle=new, secret=w.keys[0], type=typ)
    check_signed(c, w, before, post, a, handle)
    # a stateless message is confirmed once, for as long as the association lasts
    t = c.int('delay', 0, 4 * 10 ** 6)
    c.set_now(rp.NOW + t)
    ok, f = w.ask(post)
    c.check(c.Iff(ok, t < LIFE), 'a stateless signature is confirmed during its lifetime')
    want = {} if handle is None or len(handle) == 0 else {'openid.invalidate_handle': handle}
    c.check(c.eq(f, want), 'the rejected handle is confirmed to be invalid')
    again, f = w.ask(post)
    c.check(not again, 'a stateless signature is not confirmed twice')


def genuine(c, w, ver, assoc, value):
    """A message signed by an association of the provider."""
    f = {'mode': 'id_res', 'identity': value, 'return_to': rp.RT, 'response_nonce': rp.NONCE, 'assoc_handle': assoc['handle']}
    if NSS[ver] is not None:
        f['ns'] = NSS[ver]
    f['ns.x'] = 'http://ext/'
    f['x.q'] = 'V'
    signed = ','.join(sorted(f) + ['signed'])
    f['signed'] = signed
    f['sig'] = rp.signature(c, assoc['type'], assoc['secret'], f, signed)
    return f


def h_verify(c):
    """Alterations of a message the provider signed."""
    p = c.params
    ver, kind = p['ver'], p['kind']
    w = World(c, p.get('store', 'mem'))
    typ = TYPES[p.get('t', 0)][0]
    a = w.put(NORMAL if p.get('shared') else DUMB, 'p1', 'own', typ)
    other = w.put(DUMB, 'p2', 'other', typ, old=False)
    v = 'http://i/' + c.text('v', 1, 0, 'print')
    f = genuine(c, w, ver, a, v)
    q = {'openid.' + k: x for k, x in f.items()}
    q0 = dict(q)
    if kind == 'same':
        pass
    elif kind == 'value':
        k = c.choice('field', ['identity', 'return_to', 'response_nonce', 'x.q', 'ns.x'])
        q['openid.' + k] = ('http://' if k == 'ns.x' else '') + c.text('new', p.get('n', 2), 0, 'print')
    elif kind == 'drop':
        del q['openid.' + c.choice('field', ['identity', 'return_to', 'response_nonce', 'x.q', 'signed'])]
    elif kind == 'extra':
        q['openid.' + c.choice('field', ['error', 'x.r', 'sreg.q'])] = c.text('new', 1, 0, 'print')
    elif kind == 'sig':
        q['openid.sig'] = c.str('sig', len(f['sig']) + p.get('d', 0), 'graph')
    elif kind == 'list':
        s = f['signed'].split(',')
        i = c.pick('entry', len(s))
        s[i:i + 1] = c.choice('with', [[], [s[i], s[i]], ['x' + s[i]], [s[i], 'error']])
        q['openid.signed'] = ','.join(s)
    elif kind == 'handle':
        q['openid.assoc_handle'] = c.text('handle', 2, 1, 'p12x')
    elif kind == 'other':
        f['assoc_handle'] = 'p2'
        q['openid.assoc_handle'] = 'p2'
        q['openid.sig'] = rp.signature(c, typ, a['secret'], f, f['signed'])
        c.assume(c.Not(c.eq(a['secret'], other['secret'])))
    ok, rest = w.ask(q)
    c.check(rest == {}, 'nothing else is said')
    intact = c.eq(q, q0) or kind == 'extra'
    if p.get('shared'):
        c.check(not ok, 'a message signed with a shared association is not confirmed')
        left = w.server.signatory.getAssociation('p1', dumb=False, checkExpiration=False)
        c.check(left is not None and c.eq(left.secret, a['secret']), 'shared associations are not touched by verification')
    else:
        c.check(c.Iff(ok, c.And(intact, a['end'] > rp.NOW)), 'confirmed exactly if it is unaltered and the association has not expired')
    again, rest = w.ask(q)
    c.check(not again, 'no message is confirmed twice')
    again, rest = w.ask(q0)
    if ok:
        c.check(not again, 'no message is confirmed twice')


def h_invalidate(c):
    """Notices about rejected handles."""
    p = c.params
    w = World(c, p.get('store', 'mem'))
    a = w.put(DUMB, 'p1', 'private', 'HMAC-SHA1', old=False)
    s = w.put(NORMAL, 'h1', 'shared', 'HMAC-SHA256')
    f = genuine(c, w, p['ver'], a, 'http://i/')
    q = {'openid.' + k: x for k, x in f.items()}
    good = c.maybe('genuine')
    if not good:
        q['openid.sig'] = 'x'
    h = c.text('invalidate', p.get('n', 2), 0, p.get('chars', 'hp1'))
    q['openid.invalidate_handle'] = h
    ok, rest = w.ask(q)
    c.check(ok == good, 'the notice does not change the verdict')
    known = c.And(c.eq(h, 'h1'), s['end'] > rp.NOW)
    if len(h) == 0:
        c.check(rest == {}, 'nothing is said about no handle')
    elif known:
        c.check(rest == {}, 'a handle that is in use is not declared invalid')
        r2, ex = w.sign(w.login(p['ver'], 'h1'))
        c.check(ex is None and r2.fields.getArg(w.M.OPENID_NS, 'assoc_handle') == 'h1', 'the handle can still be used')
    else:
        c.check(c.eq(rest, {'openid.invalidate_handle': h}), 'an unknown handle is confirmed to be invalid')
    for x in (q, {'openid.' + k: y for k, y in f.items()}):
        again, rest = w.ask(x)
        c.check(not again, 'the handle is not confirmed again, whatever notice is asked for')


def h_fresh(c):
    """New associations: own handles, own secrets, which the handles do not tell."""
    p = c.params
    w = World(c, p.get('store', 'mem'))
    drawn = []

    def urandom(n):
        drawn.append((n, c.bytes('random%d' % len(drawn), n)))
        return drawn[-1][1]
    c.urandom = urandom
    typs = [TYPES[c.pick('type%d' % i, 2)][0] for i in range(2)]
    dumb = [c.maybe('private%d' % i) for i in range(2)]
    got = []
    for i in range(2):
        n = len(drawn)
        a, ex = c.attempt(w.server.signatory.createAssociation, dumb[i], typs[i])
        c.check(ex is None, 'an association can always be made')
        c.check(a.assoc_type == typs[i] and a.expiresIn == w.server.signatory.SECRET_LIFETIME, 'it is of the type asked for and lives as long as it should')
        mine = drawn[n:]
        keys = [x for k, x in mine if k == SIZES[typs[i]][1]]
        c.check(len(keys) == 1 and c.eq(a.secret, keys[0]), 'its secret is drawn at random, with the size of its type')
        got.append((a, [x for k, x in mine if x is not keys[0]]))
        again = w.server.signatory.getAssociation(a.handle, dumb[i])
        c.check(again is not None and c.eq(again.secret, a.secret) and again.assoc_type == typs[i], 'the provider has it under its handle')
        if not c.Or(c.eq(a.handle, got[0][0].handle)) or not i:
            c.check(w.server.signatory.getAssociation(a.handle, not dumb[i]) is None, 'and only as what it is')
    (a, u), (b, v) = got
    same = c.eq(a.handle, b.handle)
    c.check(c.Implies(same, c.And(typs[0] == typs[1], len(u) > 0, c.eq(u, v))), 'handles are the same only if everything drawn for them is')


def h_history(c):
    """Histories of associations, logins, and verifications."""
    p = c.params
    ver = p['ver']
    w = World(c, p.get('store', 'mem'))
    shared, messages, used, late = [], [], {}, False
    for step in range(p['steps']):
        ops = ['associate', 'login', 'verify', 'expire'] if step else ['associate', 'login']
        op = p['ops'][step] if p.get('ops') else c.choice('op %d' % step, ops)
        if op == 'associate':
            typ = TYPES[c.pick('type %d' % step, 2)][0]
            a = w.server.signatory.createAssociation(dumb=False, assoc_type=typ)
            c.check(c.eq(a.secret, w.keys[-1]) and a.assoc_type == typ, 'an association has its own secret and the wanted type')
            c.check(a.handle not in [x['handle'] for x in shared] and a.handle not in used, 'an association has its own handle')
            shared.append(dict(handle=a.handle, secret=a.secret, type=typ, end=a.issued + a.lifetime))
            c.check(a.issued + a.lifetime > w_now(w, c), 'a new association has not expired')
        elif op == 'login':
            hs = [None, 'nope'] + [x['handle'] for x in shared] + [m['handle'] for m in messages if not m['shared']]
            h = c.choice('handle %d' % step, hs)
            n = len(w.keys)
            resp = w.login(ver, h, 'http://i%d/' % step)
            before = dict(resp.fields.toPostArgs())
            r, ex = w.sign(resp)
            c.check(ex is None, 'every response can be signed')
            post = dict(r.fields.toPostArgs())
            got = post.get('openid.assoc_handle')
            k = [x for x in shared if x['handle'] == h]
            live = bool(k) and k[0]['end'] > w_now(w, c)
            if live:
                check_signed(c, w, before, post, k[0], None)
            else:
                c.check(len(w.keys) == n + 1 and got not in hs and got not in used, 'a fresh private association is made')
                if k:
                    shared.remove(k[0])
                typ = k[0]['type'] if k else 'HMAC-SHA1'
                check_signed(c, w, before, post, dict(handle=got, secret=w.keys[-1], type=typ), h)
                used[got] = 0
            messages.append(dict(post=post, handle=got, shared=live, end=w_now(w, c) + LIFE, ih=None if live else h))
        elif op == 'verify':
            if not messages:
                continue
            m = messages[c.pick('message %d' % step, len(messages))]
            q = dict(m['post'])
            alter = c.maybe('altered %d' % step)
            if alter:
                q['openid.identity'] = 'http://evil/'
            ok, rest = w.ask(q)
            c.check(not (ok and (alter or m['shared'])), 'only unaltered messages with stateless signatures are confirmed')
            c.check(not (ok and used[m['handle']] & 1), 'no handle is confirmed twice')
            c.check(not (ok and m['end'] <= w_now(w, c)), 'nothing is confirmed after the association has expired')
            if not alter and not m['shared'] and not used[m['handle']] and m['end'] > w_now(w, c):
                c.check(ok, 'a genuine message is confirmed when it is first asked for')
            if not m['shared']:
                used[m['handle']] |= 1 if ok else 2
            known = any(x['handle'] == m['ih'] and x['end'] > w_now(w, c) for x in shared)
            c.check(c.eq(rest, {'openid.invalidate_handle': m['ih']} if m['ih'] is not None and not known else {}), 'exactly unknown handles are confirmed to be invalid')
        else:
            w.time = w_now(w, c) + c.choice('wait %d' % step, [LIFE - 1, LIFE])
            c.set_now(w.time)


def w_now(w, c):
    return getattr(w, 'time', rp.NOW)


HARNESSES = {
    'sign': dict(fn=h_sign, quick=[dict(ver=v, none=n) for v in (1, 2) for n in (False, True)] + [dict(ver=2, none=False, store='sqlite', vc='ab', v=1), dict(ver=11, none=False, vc='ab')],
                 thorough=[dict(ver=v, none=False, n=3, v=2) for v in (1, 2)] + [dict(ver=2, none=False, store='file', vc='ab'), dict(ver=2, none=False, store='mysql', vc='ab')], bounds='request handles of 1-2 (3) characters over those of the stored handles; any issue time within 10^7 s, lifetime, secret, delay'),
    'verify': dict(fn=h_verify, quick=[dict(ver=v, kind=k) for v in (1, 2) for k in ('same', 'value', 'drop', 'extra', 'sig', 'list', 'handle', 'other')] +
                   [dict(ver=2, kind=k, shared=True) for k in ('same', 'sig')] + [dict(ver=2, kind='same', t=1), dict(ver=2, kind='sig', d=-1), dict(ver=2, kind='sig', d=1), dict(ver=11, kind='same'), dict(ver=2, kind='same', store='sqlite')],
                   thorough=[dict(ver=2, kind=k, t=1) for k in ('value', 'sig', 'list', 'handle')] + [dict(ver=2, kind='value', n=4)], bounds='all single alterations of the listed kinds, any secret, issue time and lifetime; ideal keyed hash'),
    'fresh': dict(fn=h_fresh, quick=[dict(), dict(store='sqlite')], bounds='two associations made in the same second, of any type and kind; everything drawn at random is symbolic'),
    'invalidate': dict(fn=h_invalidate, quick=[dict(ver=1), dict(ver=2), dict(ver=2, store='sqlite')], thorough=[dict(ver=2, n=3, chars='print'), dict(ver=2, store='file')], bounds='handles of up to 2 (3) characters'),
    'history': dict(fn=h_history, quick=[dict(ver=2, steps=3), dict(ver=2, steps=5, ops=['associate', 'login', 'verify', 'login', 'verify']), dict(ver=1, steps=4, ops=['associate', 'login', 'expire', 'verify']), dict(ver=2, steps=5, ops=['login', 'verify', 'login', 'expire', 'verify']),
                                                dict(ver=2, steps=5, ops=['associate', 'expire', 'login', 'verify', 'verify'])],
                    thorough=[dict(ver=2, steps=4), dict(ver=1, steps=4), dict(ver=2, steps=6, ops=['associate', 'login', 'login', 'verify', 'verify', 'verify'])], bounds='all histories of 3 (4) operations, and of 5 (6) with listed operation kinds'),
}
