"""P06: messages round-trip; no field changes namespace or value."""
NS2 = 'http://specs.openid.net/auth/2.0'
NS10, NS11 = 'http://openid.net/signon/1.0', 'http://openid.net/signon/1.1'
SREG = 'http://openid.net/extensions/sreg/1.1'


def version(c, post):
    v = c.params['ver']
    if v == 'implicit':
        return
    post['openid.ns'] = {'1.0': NS10, '1.1': NS11, '2': NS2}[v]


def same(c, a, b, what):
    c.check(len(a) == len(b), what + ' (same number of arguments)')
    for k in b:
        c.check(k in a, what + ' (same names)')
        c.check(c.eq(a[k], b[k]), what + ' (same values)')


def roundtrip(c, post):
    M = c.mod('openid.message')
    m, ex = c.attempt(M.Message.fromPostArgs, dict(post))
    if ex is not None:
        # a query may be refused (bad alias definitions), but not half-read
        c.check(isinstance(ex, (ValueError, KeyError, AssertionError)), 'a query is refused only with a namespace error')
        c.check(c.Or([k.startswith('openid.ns') for k in post]) or 'sreg' in c.params.get('t', ''),
                'only a query that defines namespaces can be refused')
        c.check('ns' in c.params['t'] or 'sreg' in c.params['t'] or 'key' in c.params['t'], 'this query is not refused')
        return
    out = m.toPostArgs()
    same(c, out, post, 'listing a parsed message returns the parsed arguments')
    m2 = M.Message.fromPostArgs(dict(out))
    c.check(c.eq(m2 == m, True), 'parsing the listing gives an equal message')
    same(c, m2.toPostArgs(), post, 'listing again returns the parsed arguments')
    for k in post:
        if k.startswith('openid.'):
            c.check(c.eq(m.getAliasedArg(k[7:]), post[k]), 'each argument is found under its wire name') if k != 'openid.ns' else None
        else:
            c.check(c.eq(m.getArg(M.BARE_NS, k), post[k]), 'each bare argument is found')


def h_query(c):
    p = c.params
    post = {'openid.mode': 'id_res'}
    version(c, post)
    v = c.text('v', p.get('v', 1))
    t = p['t']
    if 'key' in t:
        post['openid.' + c.text('key', p.get('n', 3), 0, p.get('chars'))] = v
    if 'ns' in t:
        al = c.text('alias', p.get('a', 2), 0, p.get('chars'))
        uri = c.text('uri', 1, 1, 'a-z:')
        post['openid.ns.' + al] = 'u:' + uri
        if 'use' in t:
            post['openid.' + al + '.' + c.text('field', 1)] = v
    if '2nd' in t:
        post['openid.ns.' + c.text('alias2', 1, 1, 'a-z')] = 'u:' + c.text('uri2', 1, 1, 'a-z:')
    if 'bare' in t:
        k = c.text('bare', p.get('n', 3), 0, p.get('chars'))
        c.assume(c.Not(k.startswith('openid.')))
        post[k] = v
    if 'near' in t:
        pre, post_ = c.choice('near', [('', 'penid.x'), ('o', 'enid.x'), ('openi', '.x'), ('openid', 'x'), ('', 'openid.x'), ('openid', '.mode'), ('openid', '')])
        k = pre + c.text('near1', 1 + p.get('more', 0), 0, 'print') + post_
        c.assume(c.Not(k.startswith('openid.')))
        post[k] = v
    if 'sreg' in t:
        post['openid.sreg.' + c.text('sf', 1)] = v
        if c.maybe('sreg-ns'):
            post['openid.ns.' + c.text('sa', 1, 1, 'a-z')] = SREG
    roundtrip(c, post)


def h_kv(c):
    """The same through key-value form and through a copy."""
    M = c.mod('openid.message')
    p = c.params
    m = M.Message({'1.0': NS10, '2': NS2}[p['ver']])
    v = c.text('v', 2)
    c.assume(c.Not(c.has_char(v, '\n')))
    c.assume(c.eq(v.strip(), v))
    k = c.text('k', 2, 1, 'a-z0-9_.')
    ns = c.choice('where', ['openid', 'x'])
    m.setArg(M.OPENID_NS, 'mode', 'x')
    if ns == 'openid':
        c.assume(c.Not(c.eq(k, 'ns')))
        c.assume(c.Not(k.startswith('ns.')))
        m.setArg(M.OPENID_NS, k, v)
    else:
        m.setArg('u:x', k, v)
    if c.maybe('bare'):
        m.setArg(M.BARE_NS, c.text('bk', 1, 0, 'ab.'), c.text('bv', 1, 0, 'ab'))
        for f in (m.toArgs, m.toKVForm):
            r, ex = c.attempt(f)
            c.check(isinstance(ex, ValueError), 'a message with bare arguments has no key-value form')
        return
    m2 = M.Message.fromKVForm(m.toKVForm())
    c.check(c.eq(m2 == m, True), 'reading the key-value form gives an equal message')
    same(c, m2.toPostArgs(), m.toPostArgs(), 'key-value form keeps every argument')
    before = dict(m.toPostArgs())
    d = m.copy()
    same(c, d.toPostArgs(), before, 'a copy has the same arguments')
    d.setArg(M.OPENID_NS, 'mode', 'changed')
    d.setArg('u:z', 'k', 'changed')
    same(c, m.toPostArgs(), before, 'changing a copy does not change the original')


def h_store(c):
    """set / get / delete: a value is found under its own namespace and key only."""
    M = c.mod('openid.message')
    p = c.params
    m = M.Message({'1.0': NS10, '2': NS2}[p['ver']])
    own = {'1.0': NS10, '2': NS2}[p['ver']]
    model = []
    spaces = [M.BARE_NS, M.OPENID_NS, own, 'u:a']

    def space(name):
        i = c.pick(name, len(spaces) + 1)
        return spaces[i] if i < len(spaces) else 'u:' + c.str(name + 's', 1, 'a-c')

    def canon(ns):
        return own if ns is M.OPENID_NS else ns

    def lookup(ns, k):
        r = None
        for n2, k2, v2 in model:
            if (n2 is M.BARE_NS) == (ns is M.BARE_NS) and (ns is M.BARE_NS or c.eq(canon(ns), canon(n2))) and c.eq(k, k2):
                r = v2
        return r
    for i in range(p['n']):
        ns, k, v = space('ns%d' % i), c.text('k%d' % i, 1, 0, 'a-c.'), c.text('v%d' % i, 1)
        if i == 1 and c.maybe('update'):
            m.updateArgs(ns, {k: v})
        else:
            m.setArg(ns, k, v)
        model.append((ns, k, v))
    if p.get('delete'):
        ns, k, v = model[0]
        m.delArg(ns, k)
        kept = [(a, b, d) for (a, b, d) in model if not ((a is M.BARE_NS) == (ns is M.BARE_NS) and (ns is M.BARE_NS or c.eq(canon(ns), canon(a))) and c.eq(k, b))]
        del model[:]
        model.extend(kept)
    ns, k = space('qns'), c.text('qk', 1, 0, 'a-c.')
    want = lookup(ns, k)
    got = m.getArg(ns, k)
    if want is None:
        c.check(got is None, 'an argument is not found under another namespace or key')
        c.check(c.Not(m.hasKey(ns, k)), 'hasKey is false for absent arguments')
        r, ex = c.attempt(m.getArg, ns, k, M.no_default)
        c.check(isinstance(ex, KeyError), 'a required absent argument is reported missing')
        c.check(m.getArg(ns, k, 'other') == 'other', 'the default is returned for an absent argument')
    else:
        c.check(got is not None and c.eq(got, want), 'an argument is returned with the last value stored')
        c.check(m.hasKey(ns, k), 'hasKey is true for present arguments')
        c.check(c.And(c.eq(m.getArg(ns, k, 'other'), want), c.eq(m.getArg(ns, k, M.no_default), want)), 'the default is not returned for a present argument')
    args = m.getArgs(ns)
    for k2 in args:
        w = lookup(ns, k2)
        c.check(w is not None and c.eq(w, args[k2]), 'listing a namespace returns its own arguments only')
    for n2, k2, v2 in model:
        if (n2 is M.BARE_NS) == (ns is M.BARE_NS) and (ns is M.BARE_NS or c.eq(canon(ns), canon(n2))):
            c.check(k2 in args, 'listing a namespace returns all of its arguments')


def h_refuse(c):
    """Lists of values and non-text values are refused."""
    M = c.mod('openid.message')
    k = c.text('key', 3)
    bad = c.choice('bad', [['a'], ['a', 'b'], [], None, 7])
    pre = c.choice('prefix', ['openid.', ''])
    post = {'openid.mode': 'x', pre + k: bad}
    m, ex = c.attempt(M.Message.fromPostArgs, post)
    if isinstance(bad, list) or pre == 'openid.':
        c.check(ex is not None, 'duplicated or non-text argument values are refused')


VERS = ['implicit', '1.0', '1.1', '2']
Q = [dict(ver=v, t='key', n=3, v=1) for v in VERS] + [dict(ver='2', t='key', n=4, v=0, chars='nso.a')] + \
    [dict(ver=v, t='bare', n=3, v=1) for v in ('implicit', '2')] + \
    [dict(ver='2', t='bare', n=7, v=0, chars='openid.')] * 0 + \
    [dict(ver=v, t='nsuse', a=2, v=1) for v in ('implicit', '2')] + [dict(ver='2', t='ns2nd', a=1), dict(ver='1.1', t='ns2nduse', a=1)] + \
    [dict(ver=v, t='sreg', v=1) for v in VERS] + [dict(ver='2', t='keynsuse', n=2, a=1, v=0), dict(ver='implicit', t='sregns', a=4, chars='sreg', v=0)]
Q += [dict(ver=v, t='near') for v in ('implicit', '2')]
HARNESSES = {
    'query': dict(fn=h_query, quick=Q, thorough=Q + [dict(ver=v, t='keynsuse2ndbare', n=2, a=2, v=1) for v in ('2', 'implicit')] +
                  [dict(ver=v, t='key', n=5, v=2) for v in VERS],
                  bounds='queries with one symbolic protocol key (up to 3/5 characters of all Unicode), up to two alias definitions, an aliased field, '
                         'a simple-registration field, a bare argument; values up to 2 characters; the deprecated namespace value "sreg" is excluded'),
    'kv': dict(fn=h_kv, quick=[dict(ver='1.0'), dict(ver='2')], bounds='keys up to 2 characters, values up to 2 characters representable in key-value form'),
    'store': dict(fn=h_store, quick=[dict(ver='1.0', n=2), dict(ver='2', n=2), dict(ver='2', n=2, delete=1)],
                  thorough=[dict(ver=v, n=n, delete=d) for v in ('1.0', '2') for n in (2, 3) for d in (0, 1)],
                  bounds='2/3 stores and a query, each in the bare, generic, own or an extension namespace with keys up to 1 character'),
    'refuse': dict(fn=h_refuse, bounds='keys up to 3 characters'),
}
