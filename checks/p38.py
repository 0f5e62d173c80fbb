"""P38: over-broad realms are reported as such."""

TLDS = set('''
ac ad ae aero af ag ai al am an ao aq ar arpa as asia at au aw ax az ba bb bd be bf bg bh bi biz bj bm bn bo br bs bt bv bw by bz ca cat cc
cd cf cg ch ci ck cl cm cn co com coop cr cu cv cx cy cz de dj dk dm do dz ec edu ee eg er es et eu fi fj fk fm fo fr ga gb gd ge gf gg gh
gi gl gm gn gov gp gq gr gs gt gu gw gy hk hm hn hr ht hu id ie il im in info int io iq ir is it je jm jo jobs jp ke kg kh ki km kn kp kr kw
ky kz la lb lc li lk lr ls lt lu lv ly ma mc md me mg mh mil mk ml mm mn mo mobi mp mq mr ms mt mu museum mv mw mx my mz na name nc ne net
nf ng ni nl no np nr nu nz om org pa pe pf pg ph pk pl pm pn pr pro ps pt pw py qa re ro rs ru rw sa sb sc sd se sg sh si sj sk sl sm sn so
sr st su sv sy sz tc td tel tf tg th tj tk tl tm tn to tp tr travel tt tv tw tz ua ug uk us uy uz va vc ve vg vi vn vu wf ws xn--0zwm56d
xn--11b5bs3a9aj6g xn--80akhbyknj4f xn--9t4b11yi5a xn--deba0ad xn--g6w251d xn--hgbk6aj7f53bba xn--hlcj6aya9esc7a xn--jxalpdlp xn--kgbechtv
xn--zckzah ye yt yu za zm zw'''.split())
# names that never are top-level domains (reserved, or not of the form of one)
NEVER = ['localdomain', 'local', 'test', 'example', 'invalid', 'internal', 'onion', 'alt', 'corp', 'home']
LONG = sorted(t for t in TLDS if len(t) > 2)
ENDS = ['', '/', '/x', '/x?q=1', '/a.com', '/?r=http://x.com/', ':8080/', ':80', ':443/x']


def sane(c, wild, labels, tld, known):
    """Written from the documentation: labels are those before the last one."""
    if not known or any_empty(c, labels):
        return False
    if not labels:
        return False
    if wild and len(tld) == 2 and len(labels[-1]) <= 3:
        return len(labels) > 1
    return True


def any_empty(c, labels):
    for l in labels:
        if not l:
            return True
    return False


def ask(c, realm):
    """Both ways of asking; they agree."""
    T = c.mod('openid.server.trustroot')
    a, ex = c.attempt(T.TrustRoot.checkSanity, realm)
    c.check(ex is None, 'asking never raises')
    tr, ex = c.attempt(T.TrustRoot.parse, realm)
    c.check(ex is None, 'parsing never raises')
    if tr is None:
        c.check(a is False or c.Not(a), 'what is no realm is never fine')
        return None
    b, ex = c.attempt(tr.isSane)
    c.check(ex is None, 'asking never raises')
    again, ex = c.attempt(tr.isSane)
    c.check(ex is None and c.Iff(b, again), 'asking again gives the same answer')
    c.check(c.Iff(a, b), 'both ways of asking agree')
    c.check(c.And(c.eq(tr.unparsed, realm)), 'the realm keeps its text')
    return a


def h_labels(c):
    """[*.]label. ... .tld[.] with labels of any letters."""
    p = c.params
    wild = c.maybe('wild')
    n = p['n']
    labels = [c.text('l%d' % i, p['len'], p.get('lo', 1), 'a-z0-9-') for i in range(n)]
    kind = p['tld']
    if kind == 'two':
        tld = c.str('tld', 2, 'a-z')
        known = False
        for t in sorted(TLDS):
            if len(t) == 2:
                known = c.Or(known, c.eq(tld, t))
        c.assume(known)
        known = True
    elif kind == 'long':
        tld, known = c.choice('tld', LONG), True
    elif kind == 'digits':
        tld, known = c.text('tld', 3, 1, '0-9'), False
    elif kind == 'one':
        tld, known = c.str('tld', 1, 'a-z'), False
    else:
        tld, known = c.choice('tld', NEVER), False
    dot = c.choice('dot', ['', '.'])
    host = '.'.join(labels + [tld])
    scheme, end = ('http://', '/') if not p.get('ends') else (c.choice('scheme', ['http://', 'https://']), c.choice('end', ENDS))
    r = ask(c, scheme + ('*.' if wild else '') + host + dot + end)
    if r is None:
        c.check(any_empty(c, labels) or kind in ('digits',), 'a well-formed realm is a realm')
        return
    c.check(c.Iff(r, sane(c, wild, labels, tld, known)), 'a realm is fine exactly if its domain is below a known top-level domain and, with a wildcard, below a registered name')


def h_case(c):
    """Letter case, user names, and numbers in addresses."""
    kind = c.params['kind']
    wild = c.maybe('wild')
    pre = 'http://' + ('*.' if wild else '')
    if kind == 'case':
        l = c.text('l', 3, 1, 'aZ-')
        tld = c.choice('tld', ['COM', 'Com', 'cOm', 'UK', 'Uk', 'Museum', 'XN--ZCKZAH'])
        r = ask(c, pre + l + '.' + tld + '/')
        c.check(r is not None and c.Iff(r, not (wild and len(tld) == 2 and len(l) <= 3)), 'letter case makes no difference')
    elif kind == 'localhost':
        h = c.choice('h', ['localhost', 'LocalHost', 'localhost:80', 'localhost:8081'])
        r = ask(c, pre + h + c.choice('end', ['', '/', '/x?action=openid']))
        c.check(r is not None and c.Iff(r, not wild), 'localhost is fine, all below it is not')
    elif kind == 'near':
        h = c.choice('h', ['localhost.', 'x.localhost', 'localhost.localdomain', 'localhosts', 'xlocalhost', 'ocalhost', 'loca1host'])
        r = ask(c, pre + h + '/')
        c.check(r is None or c.Not(r), 'only the name localhost itself is')
    elif kind == 'ip':
        q = [c.int('b%d' % i, 0, 255) for i in range(2)]
        r = ask(c, pre + '%d.%d.0.1' % tuple(q) + c.choice('port', ['', ':80', ':8080']) + '/')
        c.check(r is None or c.Not(r), 'an address of numbers is reported')
    elif kind == 'all':
        r = ask(c, c.choice('scheme', ['http://', 'https://']) + c.choice('h', ['*', '*.', '*..', '*.:80', '*:8080']) + c.choice('end', ['', '/', '/com', '/x.com', '?x.com']))
        c.check(r is None or c.Not(r), 'all of the web is reported')
    elif kind == 'path':
        host = c.choice('h', ['*.com', 'com', '*.co.uk', 'x.foo', '*'])
        r = ask(c, 'http://' + host + '/' + c.text('p', 3, 0, 'c.?'))
        c.check(r is None or c.Not(r), 'a path does not narrow a domain')
    elif kind == 'widen':
        r = ask(c, 'http://' + c.choice('g', ['a.com', '*.a.com', '*.abcd.uk', 'co.uk', 'localhost']) + '/' + c.text('q', 3, 0, 'c.?'))
        c.check(r is not None and r, 'a path does not widen a domain')
    elif kind == 'dots':
        t = c.text('t', 4, 1, 'a.')
        r = ask(c, pre + t + 'com' + c.choice('dot', ['', '.', '..']))
        if r is not None and r:
            c.check(not t.startswith('.') and '..' not in t and t.endswith('.'), 'adjacent dots are reported')


def h_bad(c):
    """What is no realm is never fine."""
    t = c.params['t']
    x = c.text('x', 2, 1, 'ab')
    r = ask(c, t.replace('X', x))
    c.check(r is None, 'no realm')


BAD = ['', 'X', 'X.com', '*.X.com', 'http://', 'http:///', 'http://www.*', 'http://X.*.com', 'http://*X.com/', 'http://*.X.*/', 'ftp://X.com', 'ftp://*.X.com/',
       'http://X.com/#x', 'http://X.com:80X/', '//X.com/', 'mailto:X@b.com', 'http://**.X.com/', 'http://X*.com/', ' ', 'file:///X.com']
T = [dict(n=n, len=l, tld=t) for t, n, l in [('two', 0, 1), ('two', 1, 4), ('two', 2, 2), ('two', 3, 1), ('long', 0, 1), ('long', 1, 3), ('long', 2, 1), ('digits', 1, 1), ('digits', 2, 1),
                                              ('never', 0, 1), ('never', 1, 3), ('never', 2, 1), ('one', 1, 1), ('one', 2, 1)]]
T += [dict(n=2, len=1, lo=0, tld='two'), dict(n=3, len=1, lo=0, tld='never'), dict(n=2, len=1, lo=0, tld='long'), dict(n=1, len=1, lo=0, tld='two', ends=1), dict(n=1, len=1, tld='never', ends=1)]
HARNESSES = {
    'labels': dict(fn=h_labels, quick=T, thorough=T + [dict(n=3, len=2, tld='two'), dict(n=2, len=4, tld='two'), dict(n=4, len=1, tld='long'), dict(n=3, len=1, lo=0, tld='two')],
                   bounds='up to 3 labels before the last, labels up to 4 symbolic letters, digits and hyphens, all known top-level domains (thorough: 4 labels)'),
    'case': dict(fn=h_case, quick=[dict(kind=k) for k in ('case', 'localhost', 'near', 'ip', 'all', 'path', 'widen', 'dots')],
                 bounds='labels and paths up to 4 symbolic characters, two symbolic numbers 0 to 255 in addresses'),
    'bad': dict(fn=h_bad, quick=[dict(t=t) for t in BAD], bounds='20 shapes of text that is no realm, names up to 2 symbolic characters'),
}
