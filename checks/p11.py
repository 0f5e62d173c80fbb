"""P11: URL normalisation is idempotent and keeps resources distinct."""
UNRES = 'a-zA-Z0-9\\-._~'.replace('\\-', '-')
UNRESERVED = ((45, 46), (48, 57), (65, 90), (95, 95), (97, 122), (126, 126))


def rds(path):
    """RFC 3986 section 5.2.4 by segments (independent formulation)."""
    absolute = path.startswith('/')
    segs = path.split('/')
    if absolute:
        segs = segs[1:]
    out = []
    last = len(segs) - 1
    for i, s in enumerate(segs):
        if s == '.':
            if i == last:
                out.append('')
        elif s == '..':
            if out:
                out.pop()
            if i == last:
                out.append('')
        else:
            out.append(s)
    return '/' + '/'.join(out)


def norm(c, u):
    return c.attempt(c.mod('openid.urinorm').urinorm, u)


def dotseg(path):
    segs = path.split('/')
    for s in segs:
        if s == '.' or s == '..':
            return True
    return False


def check_form(c, r, https=None):
    scheme = 'https' if r.startswith('https:') else 'http'
    c.check(r.startswith(scheme + '://'), 'the result is an absolute http(s) URL')
    rest = r[len(scheme) + 3:]
    i = 0
    while i < len(rest) and rest[i] not in '/?#':
        i += 1
    auth, tail = rest[:i], rest[i:]
    c.check(tail.startswith('/'), 'the path is not empty')
    host = auth.rpartition('@')[2]
    c.check(c.all_chars(host, ((0, 64), (91, 0x10ffff))), 'the host is lower-case')
    c.check(not host.endswith(':'), 'no empty port')
    name, colon, port = host.rpartition(':')
    if colon and not host.endswith(']'):
        c.check(c.Not(c.eq(port, '80' if scheme == 'http' else '443')), 'no default port')
        c.check(len(port) > 0 and c.all_chars(port, '0-9'), 'a port is a number')
    path = tail.partition('#')[0].partition('?')[0]
    c.check(not dotseg(path), 'no dot segments')
    c.check(c.all_chars(r, ((33, 126),)), 'only characters legal in URLs')


def h_any(c):
    """Arbitrary text in one position of a URL."""
    p = c.params
    u = p['pre'] + c.text('t', p['n'], p.get('lo', 0), p.get('chars', 'ascii')) + p.get('post', '')
    r, ex = norm(c, u)
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'illegal input is rejected only with a value error')
        return
    check_form(c, r)
    r2, ex2 = norm(c, r)
    c.check(ex2 is None and c.eq(r2, r), 'normalising again changes nothing')


def h_scheme(c):
    s = c.text('s', 5, 0, 'a-zA-Z+.:1')
    u = s + '://h/p'
    r, ex = norm(c, u)
    low = s.lower()
    if c.Or(c.eq(low, 'http'), c.eq(low, 'https')):
        c.check(ex is None and c.eq(r, low + '://h/p'), 'http(s) URLs are accepted with any letter case')
    elif c.all_chars(s, 'a-zA-Z'):
        c.check(isinstance(ex, ValueError), 'other schemes are refused')
    elif ex is None:
        check_form(c, r)


def h_dots(c):
    p = c.params
    t = c.text('t', p['n'], p.get('lo', 0), p.get('chars', './a'))
    r, ex = norm(c, 'http://h/' + t + p.get('tail', ''))
    c.check(ex is None and c.eq(r, 'http://h' + rds('/' + t) + p.get('tail', '')), 'dot segments are removed as RFC 3986 prescribes')
    U = c.mod('openid.urinorm')


def h_host(c):
    p = c.params
    h = c.text('h', p['n'], 1, 'a-zA-Z0-9-')
    port = c.text('port', 3, 0, '0-9')
    https = c.maybe('https')
    u = ('https' if https else 'http') + '://' + h + p.get('suffix', '') + (':' + port if c.maybe('colon') else '') + '/'
    r, ex = norm(c, u)
    c.check(ex is None, 'a plain host with a port is accepted')
    want = ('https' if https else 'http') + '://' + h.lower() + p.get('suffix', '')
    colon = u.endswith(':' + port + '/') and len(port) > 0
    if colon and not c.eq(int(port), 443 if https else 80):
        want = want + ':' + str(int(port))
    c.check(c.eq(r, want + '/'), 'the host is kept in lower case, with its port unless it is the default one')


def h_distinct(c):
    """Two URLs that differ in one unreserved character."""
    p = c.params
    a, b = c.str('a', 1, UNRESERVED), c.str('b', 1, UNRESERVED)
    c.assume(c.Not(c.eq(a, b)))
    x, y = c.text('x', p.get('x', 1), 0, p.get('xc', 'a-zA-Z0-9/')), c.text('y', p.get('y', 1), 0, p.get('xc', 'a-zA-Z0-9/'))
    if p.get('host'):
        c.assume(c.Not(c.eq(a.lower(), b.lower())))
    r1, e1 = norm(c, p['pre'] + x + a + y + p.get('post', ''))
    r2, e2 = norm(c, p['pre'] + x + b + y + p.get('post', ''))
    if p.get('host'):
        if e1 is not None or e2 is not None:
            c.check(c.Or(isinstance(e1, ValueError), isinstance(e2, ValueError)), 'only value errors')
            return
    c.check(e1 is None and e2 is None, 'unreserved characters are accepted')
    c.check(c.Not(c.eq(r1, r2)), 'URLs that differ in an unreserved character stay distinct')
    if not p.get('host') and not c.eq(a, '.'):
        # and their escaped spelling is equivalent
        r3, e3 = norm(c, p['pre'] + x + '%' + hex2(c, a) + y + p.get('post', ''))
        c.check(e3 is None and c.eq(r3, r1), 'an escaped unreserved character equals the character')


def hex2(c, ch):
    return '%02X' % ord(ch)


def h_escape(c):
    """Two URLs that differ in one escaped byte."""
    p = c.params
    h1, h2 = c.str('h1', 2, '0-9a-fA-F'), c.str('h2', 2, '0-9a-fA-F')
    c.assume(c.Not(c.eq(h1.lower(), h2.lower())))
    r1, e1 = norm(c, p['pre'] + '%' + h1 + p.get('post', ''))
    r2, e2 = norm(c, p['pre'] + '%' + h2 + p.get('post', ''))
    c.check(e1 is None and e2 is None, 'escaped bytes are accepted')
    c.check(c.Not(c.eq(r1, r2)), 'URLs that differ in an escaped byte stay distinct')
    r3, e3 = norm(c, r1)
    c.check(e3 is None and c.eq(r3, r1), 'normalising again changes nothing')


QANY = [dict(pre='http://', n=3, post='/'), dict(pre='http://h', n=2, lo=1), dict(pre='http://h/', n=3), dict(pre='http://h/?', n=3), dict(pre='http://h/#', n=3),
        dict(pre='http://h/', n=2, chars=None), dict(pre='http://h/?', n=1, chars=None), dict(pre='http://h/#', n=1, chars=None),
        dict(pre='http://h/a/', n=3, chars='%2EFe5./'), dict(pre='http://h/?', n=3, chars='%25=&+a'), dict(pre='http://h/#', n=3, chars='%25a#'),
        dict(pre='http://h%', n=2, post='/', chars='0-9A-Fa-f'), dict(pre='http://u@', n=1, post='/'), dict(pre='http://h:', n=3, chars='0-9'),
        dict(pre='http://', n=3, chars='a@:%[].', post='/'), dict(pre='', n=3, chars='ascii')]
TANY = QANY + [dict(pre='http://', n=4, post='/'), dict(pre='http://h/', n=4), dict(pre='http://h/?', n=4), dict(pre='http://h/#', n=4),
               dict(pre='http://h/?', n=2, chars=None), dict(pre='http://h/#', n=2, chars=None), dict(pre='http://', n=6, chars='a@:%25./', post='/'),
               dict(pre='http://h/a/', n=6, chars='%2EFe5./')]
QD = [dict(pre='http://h/'), dict(pre='http://h/?'), dict(pre='http://h/?', post='=1'), dict(pre='http://h/?k='), dict(pre='http://h/#'), dict(pre='http://h/?a&'),
      dict(pre='http://', post='/p', host=1, xc='a-z0-9'), dict(pre='http://u', post='@h/', xc='a-z0-9', x=0, y=0, host=1) ]
HARNESSES = {
    'any': dict(fn=h_any, quick=QANY, thorough=TANY, bounds='arbitrary ASCII text (up to 3/4 characters; up to 3/6 over structural characters; up to 2 characters of all Unicode outside the host) in host, authority, path, query and fragment'),
    'scheme': dict(fn=h_scheme, quick=[dict()], bounds='schemes up to 5 printable characters'),
    'dots': dict(fn=h_dots, quick=[dict(n=7), dict(n=4, tail='?q=1'), dict(n=3, chars='./a-c')], thorough=[dict(n=10), dict(n=5, tail='?q=1'), dict(n=5, chars='./a-c')],
                 bounds='paths up to 7/10 characters over dot, slash and letters'),
    'host': dict(fn=h_host, quick=[dict(n=2), dict(n=1, suffix='.com')], bounds='hosts up to 2 characters, ports up to 3 digits'),
    'distinct': dict(fn=h_distinct, quick=QD[:-1], thorough=QD[:-1] + [dict(d, x=2, y=2) for d in QD[:-1]],
                     bounds='one differing unreserved character with up to 1/2 characters of context on each side, in host, path, query name, query value and fragment'),
    'escape': dict(fn=h_escape, quick=[dict(pre='http://h/a'), dict(pre='http://h/?k='), dict(pre='http://h/?'), dict(pre='http://h/#a')],
                   bounds='every pair of escaped bytes in path, query name, query value and fragment'),
}
