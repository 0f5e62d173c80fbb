"""P19: signed-data accessors never reveal unsigned fields."""
from checks import fakes, rp

URIS = {'sreg': 'http://openid.net/extensions/sreg/1.1', 'sreg10': 'http://openid.net/sreg/1.0', 'ax': 'http://openid.net/srv/ax/1.0',
        'pape': 'http://specs.openid.net/extensions/pape/1.0', 'x': 'http://x/'}


def success(c, ver, ext, signed, flow=True, bare=()):
    """The successful response to a message with these further fields.

    ext: {name after 'openid.': value}; signed: further entries of the list.
    """
    C, M = c.mod('openid.consumer.consumer'), c.mod('openid.message')
    f = rp.fields(ver)
    listed = [k for k in f if k not in ('ns', 'mode')] + list(signed)
    q = rp.query(ver, f)
    for k, v in ext.items():
        q['openid.' + k] = v
    for k, v in bare:
        q[k] = v
    q['openid.signed'], q['openid.sig'] = ','.join(listed), 'x'
    if flow:
        c.set_now(rp.NOW)
        e = rp.endpoint(c, ver)
        con = rp.consumer(c, None, e)
        fakes.install(c, lambda u, b, h: fakes.Response(u, 200, {}, b'is_valid:true\n'))
        r, ex = c.attempt(con.complete, q, rp.RT)
        c.check(ex is None, 'a response is always answered with a result')
        if r.status != 'success':
            return None, listed
        return r, listed
    m = M.Message.fromPostArgs(q)
    return C.SuccessResponse(rp.endpoint(c, ver), m, ['openid.' + s for s in q['openid.signed'].split(',')]), listed


def isin(c, name, listed):
    return c.Or([c.eq(name, s) for s in listed])


def entries(c, p):
    """Further entries of the signed list."""
    return [p.get('spre', '') + c.text('s%d' % i, p['sn'], 0, p.get('sc', 'ab.')) for i in range(p['signed'])]


def h_ns(c):
    """A namespace under any alias, any fields, any signed list."""
    p = c.params
    ver = p['ver']
    M = c.mod('openid.message')
    alias = c.text('alias', p.get('an', 1), 1, p.get('ac', 'ab'))
    keys = [c.text('k%d' % i, p['kn'], 0, p.get('kc', 'ab.')) for i in range(p['keys'])]
    for i in range(len(keys)):
        for j in range(i):
            c.assume(c.Not(c.eq(keys[i], keys[j])))
    vals = [c.text('v%d' % i, 1, 0, 'xy') for i in range(p['keys'])]
    ext = {'ns.' + alias: URIS['x']}
    for k, v in zip(keys, vals):
        ext[alias + '.' + k] = v
    signed = entries(c, p)
    r, listed = success(c, ver, ext, signed, p.get('flow', 0))
    if r is None:
        return
    names = [alias + '.' + k for k in keys]
    ok = [isin(c, n, listed) for n in names]
    ask = c.text('ask', p['kn'], 0, p.get('kc', 'ab.'))
    got = r.getSigned(URIS['x'], ask, None)
    for k, v, s in zip(keys, vals, ok):
        c.check(c.Implies(c.And(c.eq(ask, k), s), got is not None and c.eq(got, v)), 'a signed field is returned with its value')
        c.check(c.Implies(c.And(c.eq(ask, k), c.Not(s)), got is None), 'an unsigned field is absent')
    c.check(c.Implies(c.Not(c.Or([c.eq(ask, k) for k in keys])), got is None), 'a field the message lacks is absent')
    dflt = r.getSigned(URIS['x'], ask, 'dflt')
    c.check(c.eq(dflt, 'dflt' if got is None else got), 'exactly an absent field has the default')
    d = r.getSignedNS(URIS['x'])
    d2 = r.extensionResponse(URIS['x'], True)
    whole = c.And(ok)
    c.check(c.Iff(d is not None, whole), 'a namespace is returned exactly if all of its fields are signed')
    c.check(c.Iff(d2 is not None, whole), 'a namespace is returned exactly if all of its fields are signed')
    if d is not None:
        c.check(c.eq(d, dict(zip(keys, vals))), 'the namespace has the values of the message')
    c.check(c.eq(r.extensionResponse(URIS['x'], False), dict(zip(keys, vals))), 'the unsigned view has the values of the message')
    c.check(r.getSignedNS('http://y/') == {}, 'a namespace the message lacks is empty')


def h_unsigned(c):
    """A field of any name that nothing signs."""
    p = c.params
    ver = p['ver']
    alias = p.get('alias', 'a')
    key = p.get('pre', '') + c.text('key', p['n'], 0, 'print')
    val = c.text('val', 1, 0, 'print')
    r, listed = success(c, ver, {'ns.' + alias: p.get('uri', URIS['x']), alias + '.' + key: val}, p.get('also', []), 0)
    if r is None:
        return
    uri = p.get('uri', URIS['x'])
    c.check(r.getSigned(uri, key) is None, 'an unsigned field is absent')
    c.check(r.getSignedNS(uri) is None and r.extensionResponse(uri, True) is None, 'a namespace with an unsigned field is not given out')
    c.check(c.eq(r.extensionResponse(uri, False), {key: val}), 'the unsigned view has the values of the message')
    c.check(not r.isSigned(uri, key), 'the field is not signed')


def h_core(c):
    """Protocol fields and bare arguments."""
    p = c.params
    ver = p['ver']
    M = c.mod('openid.message')
    k = c.text('k', p['n'], 1, 'ab')
    v = c.text('v', 1, 0, 'xy')
    signed = entries(c, p)
    bare_k = c.choice('bare', ['a', 'openid.a', 'b'])
    r, listed = success(c, ver, {k: v}, signed, 0, [('a', 'z')])
    ask = c.text('ask', p['n'], 1, 'ab')
    got = r.getSigned(M.OPENID_NS, ask)
    c.check(c.Iff(got is not None, c.And(c.eq(ask, k), isin(c, k, listed))), 'a protocol field is returned exactly if present and signed')
    if got is not None:
        c.check(c.eq(got, v), 'a signed field is returned with its value')
    c.check(c.eq(r.getSigned(M.OPENID_NS, ask, 'dflt'), 'dflt' if got is None else got), 'exactly an absent field has the default')
    c.check(r.getSigned(M.BARE_NS, bare_k, 'dflt') == 'dflt' and r.getSigned(M.OPENID_NS, 'mode', 'dflt') == 'dflt' and r.getSigned(M.OPENID_NS, 'sig', '') == '', 'exactly an absent field has the default')
    c.check(r.getSigned(M.BARE_NS, bare_k) is None, 'a bare argument is never signed')
    c.check(c.eq(r.getReturnTo(), rp.fields(ver)['return_to']), 'the return address is signed')
    c.check(r.getSigned(M.OPENID_NS, 'mode') is None and r.getSigned(M.OPENID_NS, 'sig') is None, 'unsigned protocol fields are absent')


def h_ext(c):
    """The extensions' responses; one field signed or not."""
    p = c.params
    ver, kind = p['ver'], p['kind']
    mod = c.mod({'sreg': 'openid.extensions.sreg', 'sreg10': 'openid.extensions.sreg', 'ax': 'openid.extensions.ax', 'axs': 'openid.extensions.ax', 'pape': 'openid.extensions.pape'}[kind])
    alias = p.get('alias') or c.choice('alias', ['sreg', 'a', 'ax', 'pape'])
    v = [c.str('v%d' % i, 1, 'xy') for i in range(2)]
    f = {'sreg': {'nickname': v[0], 'email': v[1]}, 'sreg10': {'nickname': v[0], 'email': v[1]},
         'ax': {'mode': 'fetch_response', 'type.e': 'http://t/', 'count.e': '1', 'value.e.1': v[0], 'update_url': v[1]},
         'axs': {'mode': 'store_response_failure', 'error': v[0]},
         'pape': {'auth_policies': 'http://p/' + v[0], 'auth_time': '2008-01-10T21:20:00Z', 'auth_level.ns.n': 'http://l/', 'auth_level.n': v[1]}}[kind]
    f = {k: x for k, x in f.items() if k == 'mode' or c.maybe('has_' + k)}
    ext = {} if p.get('implicit') else {'ns.' + alias: URIS['ax' if kind == 'axs' else kind]}
    for k, x in f.items():
        ext[alias + '.' + k] = x
    names = [alias + '.' + k for k in f]
    unsigned = c.pick('unsigned', len(names) + 1)
    spoil = None
    signed = [n for i, n in enumerate(names) if i != unsigned]
    if unsigned < len(names):
        # the list names something similar instead
        s = c.text('near', p.get('n', 1), 0, 'abe.')
        n = names[unsigned]
        signed = signed + [[n + s, n[:-1] + s, s + n, s][c.pick('how', 4)]]
    only = not (p.get('lax') and c.maybe('lax'))
    r, listed = success(c, ver, ext, signed, 0)
    whole = c.And([isin(c, n, listed) for n in names])
    cls = {'sreg': 'SRegResponse', 'sreg10': 'SRegResponse', 'ax': 'FetchResponse', 'axs': 'StoreResponse', 'pape': 'Response'}[kind]
    cls = getattr(mod, cls)
    x, ex = c.attempt(cls.fromSuccessResponse, r) if kind == 'pape' else c.attempt(cls.fromSuccessResponse, r, only)
    shown = c.Or(whole, not only)
    if kind == 'ax' and ex is not None:
        # an incomplete fetch response
        c.check(isinstance(ex, (KeyError, ValueError)), 'only documented errors')
        c.check(c.And(shown, 'type.e' in f), 'unsigned data is not even parsed')
        return
    c.check(ex is None, 'unsigned data is reported as absent')
    c.check(c.Implies(c.Not(shown), x is None), 'nothing is taken from unsigned data')
    if kind in ('sreg', 'sreg10'):
        c.check(c.Implies(shown, c.Iff(x is not None, len(f) > 0)), 'signed data is available')
        if x is not None:
            c.check(c.eq(dict(x.data), f), 'exactly the values of the message')
    elif kind == 'ax':
        c.check(c.Implies(shown, x is not None), 'signed data is available')
        if x is not None and 'type.e' in f:
            want = [v[0]] if 'value.e.1' in f and 'count.e' in f else None
            c.check(c.eq(x.data, {'http://t/': want}), 'exactly the values of the message')
            c.check(c.eq(x.update_url, v[1]) if 'update_url' in f else x.update_url is None, 'exactly the update address of the message')
    elif kind == 'axs':
        c.check(c.Implies(shown, x is not None), 'signed data is available')
        if x is not None:
            c.check(not x.succeeded() and (c.eq(x.error_message, v[0]) if 'error' in f else x.error_message is None), 'exactly the outcome of the message')
    else:
        c.check(c.Implies(shown, x is not None), 'signed data is available')
        if x is not None:
            c.check(c.eq(x.auth_policies, ['http://p/' + v[0]] if 'auth_policies' in f else []), 'exactly the policies of the message')
            c.check(x.auth_time == f.get('auth_time'), 'exactly the time of the message')
            lv = 'auth_level.ns.n' in f and 'auth_level.n' in f
            c.check(c.eq(dict(x.auth_levels), {'http://l/': v[1]} if lv else {}), 'exactly the levels of the message')


HARNESSES = {
    'ns': dict(fn=h_ns, quick=[dict(ver=2, keys=1, kn=2, signed=1, sn=4), dict(ver=1, keys=1, kn=1, signed=1, sn=3), dict(ver=2, keys=2, kn=1, signed=2, sn=2, spre='a', ac='a', kc='ab'), dict(ver=2, keys=2, kn=1, signed=1, sn=3, flow=1, kc='ab', ac='a')],
               thorough=[dict(ver=2, keys=2, kn=2, signed=2, sn=4, ac='a'), dict(ver=2, keys=1, kn=2, an=2, signed=1, sn=5), dict(ver=2, keys=1, kn=3, signed=1, sn=5, kc='print', sc='print')],
               bounds='up to 2 extension fields and 2 further entries in the signed list, symbolic alias, names, entries'),
    'unsigned': dict(fn=h_unsigned, quick=[dict(ver=v, n=5) for v in (1, 2)] + [dict(ver=2, n=2, pre='type.ext', uri='http://openid.net/srv/ax/1.0', alias='ax'), dict(ver=2, n=2, pre='value.ext', also=['ns.ax', 'ax'], uri='http://openid.net/srv/ax/1.0', alias='ax'), dict(ver=2, n=1, pre='nickname', also=['sreg', 'ns.sreg'], uri='http://openid.net/extensions/sreg/1.1', alias='sreg'), dict(ver=2, n=1, pre='mode', alias='ext1')], bounds='one field whose name is up to 5 printable characters, alone or after the prefixes the extensions use'),
    'core': dict(fn=h_core, quick=[dict(ver=v, n=2, signed=2, sn=2, sc='ab') for v in (1, 2)], thorough=[dict(ver=2, n=3, signed=2, sn=3, sc='ab.,')], bounds='a protocol field of any name up to 2 (3) characters'),
    'ext': dict(fn=h_ext, quick=[dict(ver=2, kind=k) for k in ('sreg', 'sreg10', 'ax', 'axs', 'pape')] + [dict(ver=1, kind='sreg10', alias='sreg', implicit=1), dict(ver=1, kind='pape'), dict(ver=1, kind='sreg')] + [dict(ver=2, kind=k, lax=1, alias='a') for k in ('sreg', 'ax', 'axs')],
                thorough=[dict(ver=v, kind=k, n=2) for v in (1, 2) for k in ('sreg', 'sreg10', 'ax', 'pape')], bounds='all presence patterns, one unsigned field, near misses in the signed list'),
}
