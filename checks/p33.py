"""P33: non-positive responses are never reported as success; completing is total."""
from checks import fakes, rp

NSS = {1: None, 10: rp.NS1, 11: rp.NS11, 2: rp.NS2}
STATUS = ('success', 'failure', 'cancel', 'setup_needed')
TOKEN = '_openid_consumer_last_token'
SERVICES = '_yadis_services__openid_consumer_'


def build(c, ver, session=None, manager=None, is_valid='true'):
    """A positive assertion the provider would confirm, and who receives it."""
    c.set_now(rp.NOW)
    v = 2 if ver == 2 else 1
    e = rp.endpoint(c, v)
    con = rp.consumer(c, None, e if session else None, lambda u: (u, [e]))
    if manager is not None:
        M = c.mod('openid.yadis.manager')
        con.session[SERVICES] = M.YadisServiceManager(manager, manager, [e], SERVICES)
    fakes.install(c, lambda u, b, h: fakes.Response(u, 200, {}, ('is_valid:%s\n' % is_valid).encode('ascii')))
    f = rp.fields(v)
    if NSS[ver] is not None:
        f['ns'] = NSS[ver]
    q = rp.query(v, f)
    q['openid.signed'], q['openid.sig'] = ','.join([k for k in f if k not in ('ns', 'mode')]), 'x'
    return con, q, e


def expect(c, ver, mode, setup_url):
    """Expected statuses by the specifications: {status: condition}."""
    isv2 = ver == 2
    idres = mode is not None and c.eq(mode, 'id_res')
    cancel = mode is not None and c.eq(mode, 'cancel')
    setup = mode is not None and isv2 and c.eq(mode, 'setup_needed')
    old_setup = c.And(idres, not isv2 and setup_url is not None)
    ok = c.And(idres, c.Not(old_setup))
    return {'success': ok, 'cancel': cancel, 'setup_needed': c.Or(setup, old_setup), 'failure': c.Not(c.Or(ok, cancel, setup, old_setup))}


def settle(c, con, q, url=rp.RT, again=True):
    C = c.mod('openid.consumer.consumer')
    r, ex = c.attempt(con.complete, q, url)
    c.check(ex is None, 'processing a response always returns a result')
    c.check(isinstance(r, C.Response) and r.status in STATUS, 'the result has one of the four outcomes')
    c.check(TOKEN not in con.session, 'the pending login is over')
    if r.status in ('success', 'cancel') and r.identity_url is not None:
        c.check(SERVICES not in con.session, 'the remembered services are forgotten after success or cancel')
    return r


def h_mode(c):
    """Every mode, on a message that would otherwise be a valid assertion."""
    p = c.params
    ver = p['ver']
    con, q, e = build(c, ver, session=c.maybe('session'), manager=rp.ID)
    mode = None
    if p.get('absent'):
        del q['openid.mode']
    else:
        mode = p.get('pre', '') + c.text('mode', p['n'], 0, p.get('chars')) + p.get('post', '')
        q['openid.mode'] = mode
    setup = None
    if c.maybe('setup_url'):
        setup = c.text('url', 1, 0, 'print')
        q['openid.user_setup_url'] = setup
    had = TOKEN in con.session
    r = settle(c, con, q)
    for s, cond in expect(c, ver, mode, setup).items():
        c.check(c.Iff(r.status == s, cond), 'the outcome is the one the mode denotes')
    if r.status == 'setup_needed':
        c.check(r.setup_url is None if setup is None else c.eq(r.setup_url, setup), 'the set-up address is the one of the message')
    if r.status != 'success':
        c.check((r.endpoint is e) if had else r.endpoint is None, 'the outcome is about the login that was begun')
        c.check(c.Or(r.identity_url is None, c.eq(r.identity_url, rp.ID)), 'the outcome is about the login that was begun')
    if r.status == 'failure':
        c.check(SERVICES in con.session, 'after a failure the other services can still be tried')


def h_error(c):
    """Reported errors reach the application unchanged."""
    p = c.params
    ver = p['ver']
    con, q, e = build(c, ver, session=c.maybe('session'))
    q['openid.mode'] = 'error'
    want = {}
    for k in ('error', 'contact', 'reference'):
        want[k] = None
        if c.maybe('has_' + k):
            want[k] = c.text(k, p['n'], 0, None)
            q['openid.' + k] = want[k]
    r = settle(c, con, q)
    c.check(r.status == 'failure', 'an error is a failure')
    for k, a in (('error', r.message), ('contact', r.contact), ('reference', r.reference)):
        c.check(a is None if want[k] is None else c.eq(a, want[k]), 'the error is reported as the provider stated it')


def h_presence(c):
    """Every mode with missing and arbitrary further fields."""
    p = c.params
    ver = p['ver']
    con, q, e = build(c, ver, session=p['session'], manager=rp.ID)
    q['openid.mode'] = p['mode']
    names = [k for k in sorted(q) if k != 'openid.mode']
    i = c.pick('field', len(names))
    if p.get('two'):
        j = c.pick('field2', len(names))
        c.assume(j > i)
        q[names[j]] = p.get('other', '')
        if c.maybe('drop2'):
            del q[names[j]]
    how = c.pick('how', 2)
    if how == 0:
        del q[names[i]]
    else:
        q[names[i]] = c.text('v', p.get('n', 1), 0, p.get('chars', 'print'))
    r = settle(c, con, q)
    m = p['mode']
    if m in ('cancel', 'setup_needed', 'error', 'nonsense'):
        c.check(r.status != 'success', 'a response that is no assertion never succeeds')
    if m == 'id_res' and how == 0 and names[i] in ('openid.identity', 'openid.return_to', 'openid.sig', 'openid.signed', 'openid.assoc_handle', 'openid.op_endpoint', 'openid.response_nonce', 'openid.claimed_id'):
        c.check(r.status == 'failure', 'an assertion without a mandatory field fails')


def h_any(c):
    """Arbitrary arguments: a result in every case."""
    p = c.params
    c.set_now(rp.NOW)
    con, q, e = build(c, p['ver'], session=c.maybe('session'))
    full = dict(q)
    if p['base'] == 'none':
        q.clear()
    if p['base'] == 'mode':
        q = {k: v for k, v in q.items() if k in ('openid.ns', 'openid.mode')}
    for i in range(p['args']):
        k = p['pre'] + c.text('k%d' % i, p['kn'], 0, p.get('kc', 'print')) + p.get('post', '')
        v = c.choice('known%d' % i, p['values']) if 'values' in p else c.text('v%d' % i, p['vn'], 0, p.get('vc', 'print'))
        q[k] = v
    url = rp.RT
    r = settle(c, con, q, url)
    if p['base'] != 'full':
        c.check(r.status != 'success', 'a response that is no assertion never succeeds')


def h_url(c):
    """Arbitrary addresses the response arrived at."""
    p = c.params
    con, q, e = build(c, p['ver'], session=True)
    url = p['pre'] + c.text('u', p['n'], 0, p.get('chars', 'print')) + p.get('post', '')
    settle(c, con, q, url)


def h_session(c):
    """Which session entries survive."""
    p = c.params
    mgr = 'http://' + c.text('m', 2, 0, 'id/') + '/'
    con, q, e = build(c, p['ver'], session=p['session'], manager=mgr, is_valid=p.get('valid', 'true'))
    q['openid.mode'] = p['mode']
    con.session['other'] = 'x'
    r = settle(c, con, q)
    c.check(con.session.get('other') == 'x', 'other session entries stay')
    gone = r.status in ('success', 'cancel') and (p['session'] or r.status == 'success')
    c.check((SERVICES in con.session) == (not gone), 'the remembered services are forgotten exactly after success or cancel')


VERS = [1, 10, 11, 2]
NSV = [rp.NS2, rp.NS1, rp.NS11, 'http://x/', '', 'sreg', rp.NS2 + 'x']
HARNESSES = {
    'mode': dict(fn=h_mode,
                 quick=[dict(ver=v, absent=1) for v in VERS] + [dict(ver=v, n=6) for v in VERS] + [dict(ver=v, pre=a, post=b, n=1) for v in (1, 2) for a, b in (('setup_', 'eeded'), ('id', 'res'), ('ca', 'cel'), ('', 'cancel'), ('id_res', ''), ('err', 'r'), ('', '_complete_id_res'), ('inval', 'd'))],
                 thorough=[dict(ver=v, n=12) for v in VERS] + [dict(ver=v, pre='setup_', post='', n=7) for v in VERS],
                 bounds='every mode of up to 6 (thorough 12) characters over Unicode and templates of the known modes, with and without user_setup_url, in four protocol namespaces'),
    'error': dict(fn=h_error, quick=[dict(ver=v, n=2) for v in VERS], thorough=[dict(ver=v, n=5) for v in VERS], bounds='error texts up to 2 (5) characters, all presence patterns'),
    'presence': dict(fn=h_presence,
                     quick=[dict(ver=v, mode=m, session=s) for v in (1, 2) for m in ('id_res', 'cancel', 'error', 'setup_needed', 'nonsense') for s in (False, True)] + [dict(ver=11, mode='id_res', session=True)],
                     thorough=[dict(ver=v, mode=m, session=s, two=1) for v in (1, 2) for m in ('id_res', 'cancel') for s in (False, True)] + [dict(ver=v, mode='id_res', session=True, n=2, chars='./:@[#?%h') for v in (1, 2)],
                     bounds='one (two) fields missing or replaced by any printable text of up to 1 (2) characters'),
    'any': dict(fn=h_any,
                quick=[dict(ver=2, base='none', args=1, pre='', kn=2, vn=1), dict(ver=2, base='none', args=2, pre='openid.', kn=1, vn=1, kc='ab.', vc='a.')] +
                      [dict(ver=2, base=b, args=1, pre='openid.ns', kn=2, values=NSV, kc=None) for b in ('none', 'mode', 'full')] +
                      [dict(ver=v, base='full', args=2, pre='openid.ns.', kn=1, kc='ab.', values=NSV) for v in (1, 2)] +
                      [dict(ver=v, base='full', args=1, pre='openid.', kn=2, vn=1, vc='ab') for v in (1, 2)] +
                      [dict(ver=v, base='full', args=1, pre='openid.ns.', post=k, kn=0, values=NSV + ['x']) for v in (1, 2) for k in ('mode', 'openid', 'identity', 'sreg', 'ns')] +
                      [dict(ver=v, base='full', args=1, pre=k, kn=0, vn=2, vc='print') for v in (1, 2) for k in ('openid.ns', 'openid.mode.x', 'openid.ns.a.b', 'openid', 'openid.')],
                thorough=[dict(ver=2, base='none', args=2, pre='openid.', kn=2, vn=1, kc='abns.'), dict(ver=2, base='full', args=2, pre='openid.', kn=2, vn=1, kc='ns.a', vc='a.')],
                bounds='up to two further arguments with symbolic names and values'),
    'url': dict(fn=h_url, quick=[dict(ver=v, pre=a, post=b, n=2, chars=ch) for v in (1, 2) for a, b, ch in (('', '', None), ('http://', '', 'print'), ('http://rp', '/r', 'print'), ('', '://rp/r', 'print'), ('http://rp/r', '', 'print'))],
                thorough=[dict(ver=2, pre='http://', post='', n=3), dict(ver=2, pre='', post='', n=3)], bounds='templates with up to 2 (3) free characters'),
    'session': dict(fn=h_session, quick=[dict(ver=v, mode=m, session=s) for v in (1, 2) for m in ('id_res', 'cancel', 'error', 'setup_needed') for s in (False, True)] + [dict(ver=2, mode='id_res', session=True, valid='false')], bounds='every mode with and without a pending login'),
}
