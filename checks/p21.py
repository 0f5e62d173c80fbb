"""P21: the provider turns every request into a valid request or a protocol error."""
from checks import dhfake, rp, stores

NSS = {1: None, 10: rp.NS1, 11: rp.NS11, 2: rp.NS2}
MODES = {'checkid_setup': 'CheckIDRequest', 'checkid_immediate': 'CheckIDRequest', 'check_authentication': 'CheckAuthRequest', 'associate': 'AssociateRequest'}


def server(c):
    c.set_now(rp.NOW)
    S = c.mod('openid.server.server')
    return S, S.Server(stores.make(c, 'mem'), rp.OP)


def decode(c, srv, S, q):
    before = dict(q)
    r, ex = c.attempt(srv.decodeRequest, q)
    c.check(ex is None or isinstance(ex, S.ProtocolError), 'no query makes decoding fail with anything but a protocol error')
    c.check(c.eq(q, before), 'the query is left alone')
    return r, ex


def same_message(c, r, q):
    c.check(c.eq(dict(r.message.toPostArgs()), {k: v for k, v in q.items()}), 'the request carries exactly the fields of the query')


def h_mode(c):
    """Every mode on queries complete for every kind of request."""
    p = c.params
    ver = p['ver']
    S, srv = server(c)
    dhfake.install(c)
    q = {'openid.identity': rp.ID, 'openid.return_to': rp.RT, 'openid.assoc_handle': 'h', 'openid.sig': 's', 'openid.session_type': 'no-encryption',
         'openid.assoc_type': 'HMAC-SHA1', 'openid.signed': 'mode'}
    if ver == 2:
        q['openid.claimed_id'] = rp.ID
    if NSS[ver] is not None:
        q['openid.ns'] = NSS[ver]
    mode = None
    if not p.get('absent'):
        mode = p.get('pre', '') + c.text('mode', p['n'], 0, p.get('chars')) + p.get('post', '')
        q['openid.mode'] = mode
    r, ex = decode(c, srv, S, q)
    for m, cls in MODES.items():
        if mode is not None and c.eq(mode, m):
            c.check(ex is None and type(r).__name__ == cls and r.mode == m, 'a request of a defined mode is returned as such')
            same_message(c, r, q)
            return
    c.check(ex is not None, 'a request of another mode is refused')


def contained(c, rt, realm):
    """rt (http://h/...) lies within the realm (http://h/...), by the specification."""
    h1, h2 = rt[7:], realm[7:]
    i, j = h1.index('/'), h2.index('/')
    if not c.eq(h1[:i], h2[:j]):
        return False
    a, b = h1[i:], h2[j:]
    if c.eq(a, b):
        return True
    if not (len(a) > len(b) and c.eq(a[:len(b)], b)):
        return False
    return c.Or(c.eq(b[-1:], '/'), c.eq(a[len(b)], '/'), c.eq(a[len(b)], '?'))


def h_checkid(c):
    """Login requests: all presence patterns, addresses in and out of the realm."""
    p = c.params
    ver = p['ver']
    S, srv = server(c)
    q = {'openid.mode': c.choice('mode', ['checkid_setup', 'checkid_immediate'])}
    if NSS[ver] is not None:
        q['openid.ns'] = NSS[ver]
    f = {}
    for k, v in (('identity', 'i'), ('claimed_id', 'c'), ('assoc_handle', 'h')):
        if c.maybe(k):
            f[k] = c.text(v, 1, 0, 'print')
    if c.maybe('return_to'):
        f['return_to'] = '' if c.maybe('empty return_to') else 'http://' + c.str('rh', 1, 'ab') + '/' + c.text('rp', p['n'], 0, 'ab/?')
    realm = None
    if c.maybe('realm'):
        realm = '' if c.maybe('empty realm') else 'http://' + c.str('oh', 1, 'ab') + '/' + c.text('op', p.get('m', 1), 0, 'ab/')
    name, decoy = ('realm', 'trust_root') if ver == 2 else ('trust_root', 'realm')
    if realm is not None:
        f[name] = realm
    if p.get('decoy'):
        f[decoy] = 'http://other/'
    for k, v in f.items():
        q['openid.' + k] = v
    r, ex = decode(c, srv, S, q)
    rt = f.get('return_to')
    if ver == 2:
        ok = ('identity' in f) == ('claimed_id' in f) and (rt is not None or realm)
    else:
        ok = 'identity' in f
    if rt is not None:
        ok = ok and rt != '' and (not realm or contained(c, rt, realm))
    elif ver != 2:
        ok = False
    if not ok:
        c.check(ex is not None, 'an incomplete request, or one whose return address is not within its realm, is refused')
        return
    c.check(ex is None, 'a complete request is accepted')
    same_message(c, r, q)
    want = dict(identity=f.get('identity'), claimed_id=f.get('claimed_id'), return_to=rt, trust_root=realm or rt, assoc_handle=f.get('assoc_handle'))
    for k, v in want.items():
        c.check(c.eq(getattr(r, k), v), 'the request object has the values of the query')
    c.check(r.mode == q['openid.mode'] and r.immediate == (r.mode == 'checkid_immediate') and r.op_endpoint == rp.OP, 'the request object has the values of the query')


def h_urls(c):
    """Login requests with arbitrary return addresses and realms."""
    p = c.params
    S, srv = server(c)
    q = {'openid.mode': 'checkid_setup', 'openid.ns': rp.NS2, 'openid.return_to': p.get('rt', ''), 'openid.realm': p.get('realm', '')}
    which = 'openid.' + p['field']
    q[which] = p.get('pre', '') + c.text('t', p['n'], 0, p.get('chars')) + p.get('post', '')
    r, ex = decode(c, srv, S, q)
    T = c.mod('openid.server.trustroot')
    rt, realm = q['openid.return_to'], q['openid.realm']
    root = T.TrustRoot.parse(realm if len(realm) else rt)
    good = T.TrustRoot.parse(rt) is not None and root is not None and root.validateURL(rt)
    c.check((ex is None) == good, 'a request is accepted exactly if its return address lies within its realm')


def h_checkauth(c):
    """Direct verification requests."""
    p = c.params
    ver = p['ver']
    S, srv = server(c)
    q = {'openid.mode': 'check_authentication'}
    if NSS[ver] is not None:
        q['openid.ns'] = NSS[ver]
    for k in ('assoc_handle', 'sig', 'signed', 'invalidate_handle'):
        if c.maybe(k):
            q['openid.' + k] = c.text(k + ' value', p['n'], 0, p.get('chars'))
    if p.get('free'):
        q['openid.' + c.text('name', p['free'], 1, 'ab.:,')] = 'v'
    r, ex = decode(c, srv, S, q)
    if not ('openid.assoc_handle' in q and 'openid.sig' in q):
        c.check(ex is not None, 'a verification request without handle or signature is refused')
        return
    c.check(ex is None, 'a verification request with handle and signature is accepted')
    same_message(c, r, q)
    c.check(c.eq(r.assoc_handle, q['openid.assoc_handle']) and c.eq(r.invalidate_handle, q.get('openid.invalidate_handle')), 'the request object has the values of the query')
    w = dict(q)
    w['openid.mode'] = 'id_res'
    c.check(c.eq(dict(r.signed.toPostArgs()), w), 'the message to verify is the one that was signed')


def h_associate(c):
    """Association requests."""
    p = c.params
    ver = p['ver']
    S, srv = server(c)
    g = dhfake.install(c)
    q = {'openid.mode': 'associate'}
    if NSS[ver] is not None:
        q['openid.ns'] = NSS[ver]
    def typ(name, pre, vals):
        k = c.pick(name, len(vals) + 2)
        if k < len(vals):
            q['openid.' + name] = vals[k]
        elif k == len(vals):
            q['openid.' + name] = pre + c.text(name + ' text', p['n'], 0, p.get('chars'))
        return q.get('openid.' + name)
    s = typ('session_type', p.get('pre', ''), ['no-encryption', 'DH-SHA1', 'DH-SHA256', ''])
    a = typ('assoc_type', p.get('pre', ''), ['HMAC-SHA1', 'HMAC-SHA256'])
    pub = c.choice('public', [None, 'AQI=', 'AQ', 'é']) if not p.get('nodh') else None
    if pub is not None:
        q['openid.dh_consumer_public'] = pub
    mod, gen = None, None
    if p.get('params'):
        mod, gen = c.choice('modulus', [None, '', 'Fw==', 'x']), c.choice('generator', [None, '', 'BQ==', 'AQ==', 'x'])
        if mod is not None:
            q['openid.dh_modulus'] = mod
        if gen is not None:
            q['openid.dh_gen'] = gen
    r, ex = decode(c, srv, S, q)
    if ver != 2:
        s = 'no-encryption' if s is None or len(s) == 0 else s
        a = 'HMAC-SHA1' if a is None else a
    ok = False
    if s is None or a is None:
        pass
    elif c.eq(s, 'no-encryption'):
        ok = c.Or(c.eq(a, 'HMAC-SHA1'), c.eq(a, 'HMAC-SHA256'))
    else:
        ok = c.Or(c.And(c.eq(s, 'DH-SHA1'), c.eq(a, 'HMAC-SHA1')), c.And(c.eq(s, 'DH-SHA256'), c.eq(a, 'HMAC-SHA256')))
        if ok:
            custom = mod is not None and gen is not None and (mod != '' or gen != '')
            if (mod is None) != (gen is None) or pub is None:
                ok = False
            elif custom and not (mod == 'Fw==' and gen == 'BQ=='):
                ok = False
            elif pub in ('AQ', 'é'):
                ok = False
    if not ok:
        c.check(ex is not None, 'an incomplete or contradictory association request is refused')
        return
    c.check(ex is None, 'a complete association request is accepted')
    same_message(c, r, q)
    c.check(c.eq(r.assoc_type, a) and c.eq(r.session.session_type, s), 'the request object has the values of the query')
    if s != 'no-encryption':
        c.check(c.eq(r.session.consumer_public_key, pub), 'the request object has the values of the query')
        c.check(g.params[-1] == (0x17, 5) if mod else g.params[-1][1] == 2, 'the group is that of the query')


def h_names(c):
    """Queries with arbitrary argument names."""
    p = c.params
    S, srv = server(c)
    q = {}
    if not p.get('bare'):
        q.update({'openid.mode': 'checkid_setup', 'openid.identity': 'i', 'openid.claimed_id': 'c', 'openid.return_to': rp.RT})
        if NSS[p['ver']] is not None:
            q['openid.ns'] = NSS[p['ver']]
    names = p['names']
    for i, (pre, n, post) in enumerate(names):
        k = pre + c.text('k%d' % i, n, 0, p.get('kc', '.nsm')) + post
        for o in list(q):
            if c.eq(o, k):
                return
        q[k] = c.text('v%d' % i, p['n'], 0, p.get('chars'))
    r, ex = decode(c, srv, S, q)
    if ex is None and r is not None:
        M = c.mod('openid.message')
        m, ex = c.attempt(M.Message.fromPostArgs, q)
        c.check(ex is None, 'the fields of an accepted request are valid')
        same_message(c, r, q)
    elif ex is not None:
        e, ex2 = c.attempt(ex.whichEncoding)
        c.check(ex2 is None, 'every protocol error can be reported')
    c.check(r is None or isinstance(r, S.CheckIDRequest), 'the mode decides the kind of request')


def h_empty(c):
    S, srv = server(c)
    r, ex = decode(c, srv, S, {})
    c.check(ex is None and r is None, 'no arguments are no request')
    q = {c.text('k', 2, 0, 'print'): c.text('v', 1, 0, 'print')}
    r, ex = decode(c, srv, S, q)
    c.check(ex is not None, 'arguments without a mode are a protocol error')


VERS = (1, 10, 11, 2)
HARNESSES = {
    'mode': dict(fn=h_mode, quick=[dict(ver=v, pre=a, n=2, post=b, chars='print') for v in (1, 2) for a, b in (('', ''), ('checkid_se', 'p'), ('checkid_immedia', ''), ('check_aut', 'entication'), ('as', 'ciate'), ('', 'associate'))] + [dict(ver=v, absent=1, n=0) for v in VERS] + [dict(ver=v, pre='checkid_setu', n=2) for v in (10, 11)],
                 thorough=[dict(ver=v, n=5) for v in (1, 2)] + [dict(ver=2, pre='checkid_', n=9, chars='a-z_')], bounds='modes of up to 2 (5) characters, and the defined ones with up to 2 (9) characters changed'),
    'checkid': dict(fn=h_checkid, quick=[dict(ver=v, n=2) for v in (1, 2)] + [dict(ver=v, n=0, m=0, decoy=True) for v in (1, 2)] + [dict(ver=v, n=1) for v in (10, 11)], thorough=[dict(ver=2, n=4, m=3), dict(ver=1, n=4, m=3)], bounds='all presence patterns; hosts of 1 character, paths up to 2 (4) characters'),
    'urls': dict(fn=h_urls, quick=[dict(field='return_to', n=3), dict(field='return_to', pre='http://', n=2, chars='print'), dict(field='return_to', pre='http://a', n=2, chars='print', realm='http://a/'), dict(field='realm', n=2, rt='http://a/'), dict(field='realm', pre='http://', n=2, chars='print', post='b/', rt='http://a.b/')],
                 thorough=[dict(field='return_to', n=5, chars='print'), dict(field='return_to', pre='http://a/', n=4, chars='print', realm='http://a/b'), dict(field='realm', pre='http://', n=4, chars='print', rt='http://a.b/')], bounds='any text up to 3 (5) characters, or after a prefix up to 2 (4)'),
    'checkauth': dict(fn=h_checkauth, quick=[dict(ver=v, n=1) for v in VERS] + [dict(ver=2, n=1, free=3, chars='ab')], thorough=[dict(ver=v, n=3) for v in (1, 2)], bounds='all presence patterns, values up to 1 (3) characters'),
    'associate': dict(fn=h_associate, quick=[dict(ver=v, n=1) for v in VERS] + [dict(ver=v, n=2, pre='HMAC-SHA', nodh=1, chars='0-9') for v in (1, 2)] + [dict(ver=2, n=0, params=1), dict(ver=1, n=0, params=1)], thorough=[dict(ver=v, n=4, nodh=1) for v in (1, 2)], bounds='all presence patterns; types known or any text of 1-2 (4) characters; key exchange values valid or malformed'),
    'names': dict(fn=h_names, quick=[dict(ver=v, names=[['openid.', 3, '']], n=1) for v in VERS] + [dict(ver=2, names=[['openid.ns.', 1, ''], ['openid.ns.', 1, '']], n=1, chars='ab', kc='abm'), dict(ver=2, names=[['openid.ns.', 4, '']], n=1, kc='mode'), dict(ver=1, names=[['openid.ns', 1, ''], ['openid.ns.', 1, '']], n=1),
                                     dict(ver=1, bare=1, names=[['openid.ns', 1, ''], ['openid.', 4, '']], n=1)],
                  thorough=[dict(ver=v, names=[['openid.', 5, '']], n=2, kc='print') for v in (1, 2)] + [dict(ver=2, names=[['openid.ns.', 2, ''], ['openid.', 3, '']], n=2, kc='.nsabm')], bounds='names of up to 3 (5) characters after the prefix, any values up to 1 (2) characters'),
    'empty': dict(fn=h_empty, bounds='arguments of up to 2 characters'),
}
