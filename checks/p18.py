"""P18: the relying party rejects replayed or misdirected assertions."""
from six.moves.urllib.parse import quote

from checks import fakes, rp, stores


def deliver(c, ver, store, url, change=None, args=None, confirm=b'is_valid:true\n', session=None, op=rp.OP):
    """One delivery of an assertion the provider confirms."""
    f = rp.fields(ver)
    if ver == 2:
        f['op_endpoint'] = op
    for k, v in (change or {}).items():
        if v is None:
            f.pop(k, None)
        else:
            f[k] = v
    con = rp.consumer(c, store, session if session is not None else rp.endpoint(c, ver, op))
    net = fakes.install(c, lambda u, b, h: fakes.Response(u, 200, {}, confirm))
    q = rp.query(ver, f)
    for k, v in (args or {}).items():
        if v is None:
            q.pop(k, None)
        else:
            q[k] = v
    q['openid.signed'], q['openid.sig'] = ','.join([k for k in f if k not in ('ns', 'mode')]), 'x'
    r, ex = c.attempt(con.complete, q, url)
    c.check(ex is None, 'a response is always answered with a result')
    c.last = r
    return r, q


def h_base(c):
    """Scheme, host, port and path of the return address."""
    p = c.params
    c.set_now(rp.NOW)

    def url(n):
        scheme = ['http', 'https'][c.pick(n + '_s', 2)] if p['part'] == 'scheme' else 'http'
        host = 'r' + c.text(n + '_h', p.get('n', 2), 0, 'ab.') + 'p' if p['part'] == 'host' else 'rp'
        port = c.choice(n + '_p', ['', ':80', ':443', ':8080', ':8', ':081']) if p['part'] in ('port', 'scheme') else ''
        path = '/' + c.text(n + '_path', p.get('n', 2), 0, p.get('pc', 'ab/;')) if p['part'] == 'path' else '/r'
        return scheme, host, port, path

    def norm(u):
        port = u[2]
        if (u[0], port) in (('http', ':80'), ('https', ':443')):
            port = ''
        if port == ':081':
            port = ':81'
        return u[0], u[1], port, u[3]
    a, b = url('a'), url('b')
    A, B = a[0] + '://' + ''.join(a[1:]), b[0] + '://' + ''.join(b[1:])
    r, q = deliver(c, 2, None, A, {'return_to': B})
    same = c.And([c.eq(x, y) for x, y in zip(norm(a), norm(b))])
    c.check(c.Implies(r.status == 'success', same), 'success only at the asserted scheme, host and path')
    if p['part'] == 'path':
        # dot segments cannot occur; anything equal must be accepted
        c.check(c.Iff(r.status == 'success', same), 'the asserted address itself is accepted')
    elif '..' not in A and ':081' not in (a[2], b[2]):
        c.check(c.Implies(same, r.status == 'success'), 'the asserted address itself is accepted')


def h_odd(c):
    """Odd return addresses never succeed elsewhere and never raise."""
    p = c.params
    c.set_now(rp.NOW)
    rt = p['pre'] + c.text('t', p['n'], p.get('lo', 0), p.get('chars')) + p['post']
    r, q = deliver(c, 2, None, rp.RT, {'return_to': rt})
    ok = r.status == 'success'
    c.check(c.Implies(ok, c.eq(rt[:len(rp.RT)].lower(), rp.RT)), 'success only at the asserted scheme, host and path') if not p.get('norm') else None
    if p.get('norm'):
        U = c.mod('openid.urinorm')
        n, ex = c.attempt(U.urinorm, rt)
        c.check(c.Implies(ok, c.And(ex is None, n is not None and c.Or(c.eq(n, rp.RT), c.eq(n[:len(rp.RT) + 1], rp.RT + '?'), c.eq(n[:len(rp.RT) + 1], rp.RT + '#')))), 'success only at the asserted address')


def h_args(c):
    """Query arguments of the return address and of the response."""
    p = c.params
    c.set_now(rp.NOW)
    ver = p['ver']
    rt_args = []
    for i in range(p['rt']):
        rt_args.append((c.str('rk%d' % i, 1, 'ab'), c.text('rv%d' % i, 1, 0, p.get('chars', 'ab'))))
    bare = []
    for i in range(p['bare']):
        bare.append(('ab'[i], c.text('bv%d' % i, 1, 0, p.get('chars', 'ab'))))
    base = [('janrain_nonce', rp.NONCE), ('openid1_claimed_id', rp.ID)] if ver == 1 else []
    rt = rp.RT + '?' + '&'.join([quote(k) + '=' + quote(v, safe='') for k, v in base + rt_args])
    args = {}
    sent = []
    for k, v in bare:
        if c.maybe('has_' + k):
            args[k] = v
            sent.append((k, v))
    r, q = deliver(c, ver, None, rp.RT, {'return_to': rt}, args)
    carried = c.And([c.Or([c.And(c.eq(k, k2), c.eq(v, v2)) for k2, v2 in sent]) for k, v in rt_args])
    extra = c.And([c.Or([c.And(c.eq(k, k2), c.eq(v, v2)) for k2, v2 in rt_args]) for k, v in sent])
    c.check(c.Implies(r.status == 'success', carried), 'the response carries every query argument of the return address')
    c.check(c.Implies(r.status == 'success', extra), 'the response carries no further arguments')
    c.check(c.Implies(c.And(carried, extra), r.status == 'success'), 'the asserted arguments are accepted')


def h_openid_args(c):
    """Arguments of the return address named like protocol fields."""
    p = c.params
    c.set_now(rp.NOW)
    k = c.choice('k', ['mode', 'identity', 'op_endpoint', 'foo', 'sig', 'return_to'])
    v = c.choice('v', ['id_res', rp.LOCAL, rp.OP, '']) if c.maybe('known') else c.text('w', 1, 0, 'print')
    rt = rp.RT + '?openid.' + k + '=' + quote(v, safe='')
    r, q = deliver(c, 2, None, rp.RT, {'return_to': rt})
    have = q.get('openid.' + k)
    c.check(c.Implies(r.status == 'success', have is not None and c.eq(have, v)), 'the response carries every query argument of the return address with its value')


def h_nonce(c):
    """Well-formed nonces: the window, and the second delivery."""
    p = c.params
    ver = p['ver']
    N = c.mod('openid.store.nonce')
    lo, hi = p.get('range', (1204200000, 1204300000))  # around 29 February 2008
    now = c.int('now', lo, hi)
    c.set_now(now)
    when = c.choice('when', p['whens']) if 'whens' in p else c.int('when', lo, hi)
    nonce = N.mkNonce(when)
    s = stores.make(c, p['store'])
    change, args = {}, {}
    if ver == 2:
        change['response_nonce'] = nonce
    else:
        change['return_to'] = rp.RT + '?janrain_nonce=' + nonce.replace(':', '%3A') + '&openid1_claimed_id=http%3A%2F%2Fid%2F'
        args['janrain_nonce'] = nonce
    r, q = deliver(c, ver, s, rp.RT, change, args)
    inside = c.And(when - now <= N.SKEW, now - when <= N.SKEW)
    c.check(c.Iff(r.status == 'success', inside), 'a fresh nonce is accepted exactly inside the window')
    if r.status != 'success':
        return
    later = c.int('later', 0, 10 ** 6)
    c.set_now(now + later)
    if p.get('cleanup') and c.maybe('cleanup'):
        s.cleanup() if hasattr(s, 'cleanup') else s.cleanupNonces()
    r, q = deliver(c, ver, s, rp.RT, change, args)
    c.check(r.status != 'success', 'the same assertion never succeeds twice')


def h_twice(c):
    """Two assertions of one or two providers."""
    p = c.params
    ver = p['ver']
    c.set_now(rp.NOW)
    s = stores.make(c, p['store'])
    ops = ['http://o' + c.str('op%d' % i, 1, 'ab') + '/' for i in (0, 1)]
    salts = [c.text('salt%d' % i, p.get('n', 1), 0, p.get('chars', 'ab')) for i in (0, 1)]
    secs = [c.choice('t%d' % i, ['2008-01-10T21:20:00Z', '2008-01-10T21:20:01Z']) for i in (0, 1)]
    out = []
    for i in (0, 1):
        n = secs[i] + salts[i]
        change, args = {}, {}
        who = 'http://id%s/' % c.choice('who%d' % i, ['', '2']) if p.get('ids') else rp.ID
        if ver == 2:
            change['response_nonce'] = n
            change['claimed_id'] = who
        else:
            change['return_to'] = rp.RT + '?janrain_nonce=' + quote(n) + '&openid1_claimed_id=' + quote(who, safe='')
            args['janrain_nonce'] = n
            args['openid1_claimed_id'] = who
        if p.get('ids'):
            change['x.y'] = c.choice('other%d' % i, ['1', '2'])
        r, q = deliver(c, ver, s, rp.RT, change, args, op=ops[i], session=rp.endpoint(c, ver, ops[i], who))
        out.append(r.status == 'success')
    c.check(out[0], 'the first assertion is accepted')
    same = c.And(secs[0] == secs[1], c.eq(salts[0], salts[1]), ver == 1 or c.eq(ops[0], ops[1]))
    c.check(c.Iff(out[1], c.Not(same)), 'the second is accepted exactly when its nonce is another one')


def h_bad_nonce(c):
    p = c.params
    ver = p['ver']
    c.set_now(rp.NOW)
    s = stores.make(c, 'mem') if p.get('store', 1) else None
    kind = p['kind']
    change, args = {}, {}
    n = None
    if kind != 'missing':
        n = p['pre'] + c.text('n', p['n'], 0, p.get('chars', 'print')) + p.get('post', '')
    if ver == 2:
        change['response_nonce'] = n
        if kind == 'bare':
            change['response_nonce'] = None
            change['return_to'] = rp.RT + '?janrain_nonce=' + rp.NONCE
            args['janrain_nonce'] = rp.NONCE
    else:
        change['return_to'] = rp.RT + '?openid1_claimed_id=http%3A%2F%2Fid%2F' + ('&janrain_nonce=' + quote(n, safe='') if n is not None else '')
        args['janrain_nonce'] = n
        if kind == 'bare':
            args['janrain_nonce'] = None
            change['return_to'] = rp.RT + '?openid1_claimed_id=http%3A%2F%2Fid%2F'
            change['response_nonce'] = rp.NONCE
    r, q = deliver(c, ver, s, rp.RT, change, args)
    c.check(r.status == 'failure', 'a missing or malformed nonce never succeeds')


PARTS = [dict(part='scheme'), dict(part='host'), dict(part='port'), dict(part='path'), dict(part='path', n=1, pc='print')]
HARNESSES = {
    'base': dict(fn=h_base, quick=PARTS[:4], thorough=[dict(d, n=3) for d in PARTS[:4]], bounds='pairs of addresses differing in scheme, host (up to 2 free characters), port or path (up to 2)'),
    'odd': dict(fn=h_odd, quick=[dict(pre='', post='', n=2), dict(pre='http://rp', post='/r', n=2, chars='./@:[a?#', norm=1), dict(pre='http://rp/r', post='', n=2, chars='print', norm=1), dict(pre='http://', post='rp/r', n=2, chars='a@:/.?#[', norm=1)],
                thorough=[dict(pre='', post='', n=3, chars='ascii'), dict(pre='http://rp', post='/r', n=3, chars='./@:[a?#', norm=1), dict(pre='http://rp/r', post='', n=3, chars='./?#;a%', norm=1)],
                bounds='return addresses of the templates with up to 2/3 free characters'),
    'args': dict(fn=h_args, quick=[dict(ver=v, rt=a, bare=b) for v in (1, 2) for a, b in ((0, 1), (1, 0), (1, 1), (2, 2))] + [dict(ver=2, rt=1, bare=1, chars='print')], thorough=[dict(ver=2, rt=3, bare=2), dict(ver=2, rt=1, bare=1, chars=None)],
                 bounds='up to 2/3 arguments in the return address and 2 in the response, symbolic names and values'),
    'openid_args': dict(fn=h_openid_args, bounds='return addresses with an argument named like a protocol field'),
    'nonce': dict(fn=h_nonce, quick=[dict(ver=v, store='mem', cleanup=1) for v in (1, 2)] + [dict(ver=2, store='file', whens=[1204243199, 1204243200, 1204250000])], thorough=[dict(ver=v, store=s, cleanup=1) for v in (1, 2) for s in ('mem', 'file', 'sqlite')] + [dict(ver=2, store='mem', range=(10 ** 9, 2 * 10 ** 9))],
                  bounds='all clocks and nonce times in 28 hours around a leap day (thorough: 2001 to 2033), second delivery up to 10^6 s later, with clean-up in between'),
    'twice': dict(fn=h_twice, quick=[dict(ver=v, store=s) for v in (1, 2) for s in ('mem', 'file', 'sqlite')] + [dict(ver=2, store='mem', n=2, chars='print')] + [dict(ver=v, store='mem', ids=1) for v in (1, 2)], bounds='two assertions with symbolic providers and nonces'),
    'bad_nonce': dict(fn=h_bad_nonce, quick=[dict(ver=v, kind=k) for v in (1, 2) for k in ('missing', 'bare')] + [dict(ver=v, kind='x', pre='', n=3, store=s) for v in (1, 2) for s in (0, 1)] + [dict(ver=2, kind='x', pre='2008-01-10', post='21:20:00Zx', n=1, chars='a-su-z0-9'), dict(ver=2, kind='x', pre='2008-1', post='0T21:20:00Zx', n=1, chars='5-9')] +
                      [dict(ver=2, kind='x', pre='2008-01-10T21:', post='', n=3, chars='0-9:')],
                      bounds='nonces missing, given in the field of the other version, or malformed (up to 3 characters)'),
}
for _q in HARNESSES['bad_nonce']['quick']:
    _q.setdefault('pre', '')
    _q.setdefault('n', 0)
