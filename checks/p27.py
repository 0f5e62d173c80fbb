"""P27: content negotiation follows the Accept header."""


def mtype(c, name, wild=True):
    """A media range of symbolic letters: (main, sub)"""
    p = c.params
    a, b = p.get('main', 'ab'), p.get('sub', 'xy')
    if wild:
        k = c.choice(name + '.kind', ('exact', 'main', 'any'))
        if k == 'any':
            return '*', '*'
        m = c.str(name + '.m', 1, a)
        return m, '*' if k == 'main' else c.str(name + '.s', 1, b)
    return c.str(name + '.m', 1, a), c.str(name + '.s', 1, b)


def same(c, a, b):
    return c.And(c.eq(a[0], b[0]), c.eq(a[1], b[1]), a[2] == b[2])


def permutation(c, out, want, what):
    """out has exactly the entries of want, in any order."""
    c.check(len(out) == len(want), what)
    left = list(want)
    for x in out:
        for y in left:
            if same(c, x, y):
                left.remove(y)
                break
        else:
            c.fail(what)


def descending(c, out):
    for a, b in zip(out, out[1:]):
        c.check(a[2] >= b[2], 'ordered by descending quality')


def h_generate(c):
    """Parsing a generated header gives the types and qualities it was generated from."""
    p = c.params
    A = c.mod('openid.yadis.accept')
    elements, want, bad = [], [], []
    for k in range(p['k']):
        m, s = mtype(c, 't%d' % k)
        if c.maybe('plain%d' % k):
            elements.append(m + '/' + s)
            want.append((m, s, 1.0))
        else:
            q = c.dec('q%d' % k, p.get('lo', -3), p.get('hi', 14), 1)
            elements.append((m + '/' + s, q))
            want.append((m, s, q))
            bad.append(c.Or(q <= 0, q > 1))
    h, ex = c.attempt(A.generateAcceptHeader, *elements)
    c.check(c.Iff(c.Or(*bad) if bad else False, isinstance(ex, ValueError)), 'qualities outside 0..1 are refused')
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'qualities outside 0..1 are refused')
        return
    out, ex = c.attempt(A.parseAcceptHeader, h)
    c.check(ex is None, 'a generated header can be parsed')
    permutation(c, out, want, 'the same types and qualities are read back')
    descending(c, out)


def quality(c, params):
    for x in params:
        i = x.find('=')
        if i >= 0 and c.eq(x[:i], 'q'):
            try:
                return float(x[i + 1:])
            except ValueError:
                pass
    return 1.0


def entries(c, h):
    """The entries of a header: reference reading."""
    out = []
    for chunk in h.split(','):
        parts = [x.strip() for x in chunk.strip().split(';')]
        i = parts[0].find('/')
        if i < 0:
            continue
        out.append((parts[0][:i], parts[0][i + 1:], quality(c, parts[1:])))
    return out


def h_parse(c):
    """Any header text: malformed entries are skipped, nothing raises."""
    p = c.params
    A = c.mod('openid.yadis.accept')
    h = p.get('pre', '') + c.text('h', p['n'], 0, p['chars']) + p.get('post', '')
    out, ex = c.attempt(A.parseAcceptHeader, h)
    c.check(ex is None, 'no header makes parsing fail')
    descending(c, out)
    permutation(c, out, entries(c, h), 'exactly the well-formed entries are listed')
    if p.get('have'):
        got, ex = c.attempt(A.getAcceptable, h, list(p['have']))
        c.check(ex is None, 'no header makes negotiation fail')
        c.check(all(x in p['have'] for x in got), 'only available types are acceptable')
        for t in p['have']:
            c.check(c.Iff(t in got, best(c, out, tuple(t.split('/'))) > 0), 'exactly the types of positive quality are acceptable')


def best(c, acc, have):
    """Quality of a type: exact entry, else its main type's wildcard, else the bare wildcard."""
    if not acc:
        return 1
    levels = {0: [], 1: [], 2: []}
    for m, s, q in acc:
        if c.eq(m, '*'):
            levels[2].append(q)
        elif c.eq(m, have[0]):
            if c.eq(s, '*'):
                levels[1].append(q)
            elif c.eq(s, have[1]):
                levels[0].append(q)
    for k in (0, 1):
        if levels[k]:
            return max(levels[k])
    return max(levels[2] + [0])


def h_match(c):
    """Which types are acceptable, and in which order."""
    p = c.params
    A = c.mod('openid.yadis.accept')
    acc, text = [], []
    for k in range(p['k']):
        m, s = mtype(c, 't%d' % k)
        if c.maybe('q%d' % k):
            q = c.str('d%d' % k, 1, '01') + '.' + c.str('e%d' % k, p.get('dec', 1), p.get('digits', '05'))
            v = float(q)
            c.assume(v <= 1)
            acc.append((m, s, v))
            text.append(m + '/' + s + c.choice('sep%d' % k, p.get('seps', (';q=',))) + q)
        else:
            acc.append((m, s, 1.0))
            text.append(m + '/' + s)
    have = [mtype(c, 'h%d' % k, False) for k in range(p['h'])]
    for i, a in enumerate(have):
        for b in have[:i]:
            c.assume(c.Not(c.And(c.eq(a[0], b[0]), c.eq(a[1], b[1]))))
    got, ex = c.attempt(A.getAcceptable, ', '.join(text), [a + '/' + b for a, b in have])
    c.check(ex is None, 'negotiation does not fail')
    want = []
    for a, b in have:
        q = best(c, acc, (a, b))
        if q > 0:
            want.append((q, a + '/' + b))
    c.check(len(got) == len(want), 'exactly the types of positive quality are acceptable')
    # stable selection sort by descending quality
    order = []
    while want:
        k = 0
        for i in range(1, len(want)):
            if want[i][0] > want[k][0]:
                k = i
        order.append(want.pop(k))
    for (q, t), g in zip(order, got):
        c.check(c.eq(t, g), 'ordered by quality, then by preference')
    full = A.matchTypes(A.parseAcceptHeader(', '.join(text)), [a + '/' + b for a, b in have])
    c.check(len(full) == len(order), 'exactly the types of positive quality are acceptable')
    for (q, t), (g, r) in zip(order, full):
        c.check(c.And(c.eq(t, g), q == r), 'reported with their qualities')


def h_nearest(c):
    """Qualities between tenths are written as the nearest tenth."""
    p = c.params
    A = c.mod('openid.yadis.accept')
    elements = []
    for k in range(p['k']):
        q = c.dec('q%d' % k, 1, 10 ** p['d'], p['d'])
        m = 10 ** p['d'] // 10
        for t in range(10):
            c.assume(c.Not(c.eq(q * 10 ** p['d'], t * m + m // 2)))
        elements.append(('a/%d' % k, q))
    h, ex = c.attempt(A.generateAcceptHeader, *elements)
    c.check(ex is None, 'qualities in 0..1 are accepted')
    out = A.parseAcceptHeader(h)
    c.check(sorted((a, b) for a, b, q in out) == [('a', '%d' % k) for k in range(p['k'])], 'the same types are read back')
    for a, b, v in out:
        q = elements[int(b)][1]
        c.check(c.And(v * 10 ** p['d'] - q * 10 ** p['d'] <= m // 2, q * 10 ** p['d'] - v * 10 ** p['d'] <= m // 2), 'the nearest tenth is read back')
    descending(c, out)


HARNESSES = {
    'nearest': dict(fn=h_nearest, quick=[dict(k=1, d=2), dict(k=2, d=2)], thorough=[dict(k=1, d=3)], bounds='qualities of two (three) decimals not half way between tenths'),
    'generate': dict(fn=h_generate, quick=[dict(k=2), dict(k=1), dict(k=3, main='a', sub='x', lo=1, hi=10)], thorough=[dict(k=3)], bounds='up to 3 types with qualities -0.3 ... 1.4 in tenths'),
    'parse': dict(fn=h_parse, quick=[dict(n=4, chars='a/;,=q1. '), dict(pre='a/x;q=', n=3, chars='01.-+ x', post=', b/y'), dict(pre='a/x;', n=3, chars='q=0;Q ,', post='=0.5'), dict(pre='a/x;q=', n=2, chars='print', post=''), dict(pre='a/x', n=3, chars=',;*/ q', post='b/y;q=0.5', have=['a/x', 'b/y'])],
                  thorough=[dict(n=6, chars='a/;,=q1 '), dict(n=3, chars=None), dict(pre='*/*;q=0.1,a/x', n=4, chars=',;*/ q=0', post='b/y', have=['a/x', 'b/y'])], bounds='headers of templates with up to 4 (6) free characters'),
    'match': dict(fn=h_match, quick=[dict(k=2, h=2), dict(k=3, h=1, main='a', sub='xy'), dict(k=0, h=2), dict(k=1, h=3, digits='0123456789'), dict(k=1, h=1, seps=('; q=', ';q=', ' ;  q=', ';level=1;q=', ';q;q='))],
                  thorough=[dict(k=3, h=1), dict(k=3, h=2, main='a'), dict(k=2, h=3, dec=2), dict(k=4, h=1)], bounds='up to 3 (4) entries, up to 3 available types'),
}
