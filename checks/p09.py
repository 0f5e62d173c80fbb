"""P09: realm matching never accepts a URL outside the realm."""


def valid_host(c, h):
    labels = h.split('.')
    if not h:
        return False
    for i, l in enumerate(labels):
        if not l and i < len(labels) - 1:
            return False
    return True


def host_ok(c, wild, rh, uh):
    """rh without the '*.'"""
    rh, uh = rh.lower(), uh.lower()
    if c.eq(rh, uh):
        return True
    return wild and uh.endswith('.' + rh)


def call(c, realm, url):
    T = c.mod('openid.server.trustroot')
    r, ex = c.attempt(T.TrustRoot.checkURL, realm, url)
    c.check(ex is None, 'matching never raises')
    return r


def h_host(c):
    p = c.params
    wild = c.maybe('wild')
    rh, uh = c.text('rh', p['r'], 1, p['chars']), c.text('uh', p['u'], 1, p['chars'] + '*')
    r = call(c, 'http://' + ('*.' if wild else '') + rh + '/', 'http://' + uh + '/')
    star = c.has_char(uh, '*')
    if not valid_host(c, rh) or not valid_host(c, uh) or star:
        c.check(c.Not(r), 'malformed hosts are never accepted')
    else:
        c.check(c.Iff(r, host_ok(c, wild, rh, uh)), 'accepted exactly when the host is the realm host or below the wildcard domain')


def h_star(c):
    """Where a wildcard may stand."""
    p = c.params
    rh = c.text('rh', p['n'], 1, 'a*.')
    uh = c.text('uh', p.get('u', 2), 1, 'ab.*')
    r = call(c, 'http://' + rh + '/', 'http://' + uh + '/')
    if c.has_char(uh, '*'):
        c.check(c.Not(r), 'an address with a star in its host is never accepted')
        return
    if not c.has_char(rh, '*'):
        return
    if c.eq(rh, '*'):
        c.check(c.Iff(r, valid_host(c, uh)), 'a bare wildcard stands for every host')
        return
    ok = rh.startswith('*.') and not c.has_char(rh[1:], '*')
    if not ok:
        c.check(c.Not(r), 'a wildcard elsewhere than as first label is never accepted')
    elif len(rh) > 2 and valid_host(c, rh[2:]) and valid_host(c, uh):
        c.check(c.Iff(r, host_ok(c, True, rh[2:], uh)), 'accepted exactly below the wildcard domain')


def h_port(c):
    p = c.params
    s1, s2 = c.choice('s1', ['http', 'https', 'HTTP']), c.choice('s2', ['http', 'https'])
    p1, p2 = c.choice('p1', [None, '', 'sym']), c.choice('p2', [None, '', 'sym'])
    n1 = n2 = None
    t1 = t2 = ''
    if p1 is not None:
        t1 = ':' + (c.text('n1', p['n'], 1, '0-9') if p1 else '')
    if p2 is not None:
        t2 = ':' + (c.text('n2', p['n'], 1, '0-9') if p2 else '')
    d = {'http': 80, 'https': 443}
    v1 = int(t1[1:]) if len(t1) > 1 else d[s1.lower()]
    v2 = int(t2[1:]) if len(t2) > 1 else d[s2]
    r = call(c, s1 + '://h' + t1 + '/', s2 + '://h' + t2 + '/p')
    want = c.And(s1.lower() == s2, v1 == v2, v1 <= 65535, v2 <= 65535)
    c.check(c.Iff(r, want), 'accepted exactly when scheme and port (with defaults) are equal')


def h_badport(c):
    t = c.text('t', 2, 1, 'print')
    good = c.all_chars(t, '0-9')
    side = c.maybe('realm')
    if side:
        c.assume(c.Not(c.has_char(t, '/?#@')))
        r = call(c, 'http://h:' + t + '/', 'http://h/')
    else:
        c.assume(c.Not(c.has_char(t, '/?#@')))
        r = call(c, 'http://h/', 'http://h:' + t + '/')
    if not good:
        c.check(c.Not(r), 'a bad port is never accepted')


def query(c, name, form):
    if form == 0:
        return ''
    if form == 1:
        return '?k=' + c.text(name + 'v', 1, 0, 'ab')
    if form == 2:
        return '?k=a&' + c.str(name + 'k', 1, 'ab') + '=' + c.text(name + 'v', 1, 0, 'ab')
    return '?k' + c.str(name + 'k', 1, 'ab') + '=a'


def h_path(c):
    p = c.params
    rp = '/' + c.text('rp', p['r'], 0, p.get('chars', 'ab/'))
    up = '/' + c.text('up', p['u'], 0, p.get('chars', 'ab/'))
    rq, uq = query(c, 'rq', p.get('rq', 0)), query(c, 'uq', p.get('uq', 0))
    P, U = rp + rq, up + uq
    r = call(c, 'http://h' + P, 'http://h' + U)
    if c.eq(P, U):
        want = True
    elif not U.startswith(P):
        want = False
    elif rq:
        want = U[len(P)] == '&'
    else:
        want = c.Or(P.endswith('/'), U[len(P)] == '/', U[len(P)] == '?')
    c.check(c.Iff(r, want), 'accepted exactly when the path is the realm path or extends it at a boundary')


def h_case(c):
    """Path and query are compared with letter case, the host without."""
    a, b = c.str('a', 1, 'a-zA-Z'), c.str('b', 1, 'a-zA-Z')
    r = call(c, 'http://' + a + '.com/x', 'http://' + b + '.com/x')
    c.check(c.Iff(r, c.eq(a.lower(), b.lower())), 'hosts are compared without letter case')
    r = call(c, 'http://h/' + a, 'http://h/' + b)
    c.check(c.Iff(r, c.eq(a, b)), 'paths are compared with letter case')


def h_fragment(c):
    f = c.text('f', 2, 1, 'graph')
    r = call(c, 'http://h/' + c.text('p', 1, 0, 'a-z') + '#' + f, 'http://h/' + c.text('u', 1, 0, 'a-z') + '#' + f)
    c.check(c.Not(r), 'a realm with a fragment is never accepted')


def authority(c, url):
    rest = url[url.find('//') + 2:]
    i = 0
    while i < len(rest) and rest[i] not in '/?#':
        i += 1
    auth = rest[:i].rpartition('@')[2]
    h, colon, port = auth.partition(':')
    return h, rest[i:]


def h_confuse(c):
    """Arbitrary text spliced into a URL never makes it look like another host."""
    p = c.params
    t = c.text('t', p['n'], 1, p.get('chars', 'print'))
    url = p['pre'] + t + p['post']
    r = call(c, p['realm'], url)
    h, tail = authority(c, url)
    base = p['base']
    good = c.eq(h.lower(), base) if not p.get('wild') else c.Or(c.eq(h.lower(), base), h.lower().endswith('.' + base))
    # an escaped host is compared after unescaping
    if c.has_char(h, '%'):
        good = c.Not(c.has_char(h.replace('%', ''), '/'))
        c.check(c.Implies(r, c.Not(h.lower().endswith('evil'))), 'an escaped delimiter never hides the real host')
        return
    c.check(c.Implies(r, good), 'a URL of another host is never accepted')


def h_any(c):
    """No text makes matching fail."""
    p = c.params
    t = c.text('t', p['n'], 0, p.get('chars', 'ascii'))
    call(c, p['pre'] + t + p['post'], 'http://h/')
    call(c, 'http://h/', p['pre'] + t + p['post'])
    T = c.mod('openid.server.trustroot')
    r, ex = c.attempt(T.TrustRoot.checkSanity, p['pre'] + t + p['post'])
    c.check(ex is None, 'the sanity check never raises')


QC = [dict(pre='http://good', n=2, post='.evil/', realm='http://good/', base='good'), dict(pre='http://good', n=2, post='evil/', realm='http://*.good/', base='good', wild=1),
      dict(pre='http://', n=2, post='good/', realm='http://good/', base='good'), dict(pre='http://', n=2, post='good/', realm='http://*.good/', base='good', wild=1),
      dict(pre='http://good%', n=2, post='.evil/', realm='http://good/', base='good', chars='0-9a-fA-F'), dict(pre='http://good%', n=2, post='evil', realm='http://good/', base='good', chars='0-9a-fA-F')]
HARNESSES = {
    'host': dict(fn=h_host, quick=[dict(r=2, u=3, chars='ab.'), dict(r=3, u=3, chars='a.'), dict(r=1, u=3, chars='a-zA-Z.-')], thorough=[dict(r=3, u=5, chars='ab.'), dict(r=2, u=4, chars='a-zA-Z.-')],
                 bounds='realm hosts up to 3 and URL hosts up to 3/5 characters over letters, dots, hyphens, stars; with and without wildcard'),
    'star': dict(fn=h_star, quick=[dict(n=4, u=3)], thorough=[dict(n=6, u=4)], bounds='realm hosts up to 4/6 characters with stars'),
    'port': dict(fn=h_port, quick=[dict(n=3)], thorough=[dict(n=5)], bounds='ports up to 3/5 digits, absent or empty; both schemes'),
    'badport': dict(fn=h_badport, bounds='up to 2 printable characters'),
    'path': dict(fn=h_path, quick=[dict(r=2, u=4), dict(r=1, u=1, uq=1), dict(r=1, u=2, uq=2), dict(r=1, u=1, rq=1, uq=2), dict(r=0, u=0, rq=2, uq=2), dict(r=0, u=0, rq=3, uq=1), dict(r=1, u=1, rq=1, uq=1),
                                   dict(r=1, u=1, rq=1), dict(r=1, u=2, chars="a/;=&,:@!$'()*+~_-"), dict(r=1, u=2, chars='a/;=&,:@+', rq=1, uq=1)],
                 thorough=[dict(r=4, u=6)] + [dict(r=2, u=2, rq=a, uq=b) for a in range(4) for b in range(4)], bounds='paths up to 2/4 and 4/6 characters over letters and slashes; up to two query arguments'),
    'case': dict(fn=h_case, bounds='one letter'),
    'fragment': dict(fn=h_fragment, bounds='fragments up to 2 characters'),
    'confuse': dict(fn=h_confuse, quick=QC, thorough=[dict(d, n=3) if 'chars' not in d else d for d in QC], bounds='2/3 printable characters spliced into the host'),
    'any': dict(fn=h_any, quick=[dict(pre='http://', n=2, post='/'), dict(pre='http://h', n=2, post=''), dict(pre='', n=3, post=''), dict(pre='http://[', n=2, post=']/', chars=':1ava.'),
                                 dict(pre='http://', n=2, post='', chars=':*@.80'), dict(pre='http://', n=4, post='/', chars=':*@.'), dict(pre='http://*.', n=2, post='/')],
                thorough=[dict(pre='http://', n=3, post='/'), dict(pre='http://h', n=3, post=''), dict(pre='', n=4, post=''), dict(pre='http://', n=6, post='/', chars=':*@.')],
                bounds='arbitrary ASCII text of up to 2/3 characters in place of authority, tail or whole URL'),
}
