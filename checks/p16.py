"""P16: the relying party reports success only for authenticated assertions."""
from checks import fakes, rp, stores

AGE = ['live', 'none', 'expired', 'other-server', 'other-handle']


def deviations(c, ver):
    """Up to two fields missing and/or unsigned."""
    f = rp.fields(ver)
    names = [k for k in f if k not in ('ns',)] + ['sig', 'signed']
    ones = [(('m', k),) for k in names] + [(('u', k),) for k in (rp.SIG2 if ver == 2 else rp.SIG1 + ['assoc_handle', 'mode'])]
    return [()] + ones + [a + b for i, a in enumerate(ones) for b in ones[i + 1:]]


def run(c, ver, f, signed, sig, age, is_valid='false', status=200, store='mem', http=True, typ=0, handle='h'):
    """Delivers the message; returns everything an oracle needs."""
    A = c.mod('openid.association')
    at, alg, size = rp.TYPES[typ]
    secret = c.bytes('secret', size)
    c.set_now(rp.NOW)
    s = stores.make(c, store)
    issued, life = rp.NOW - 100, 1000
    if age == 'expired':
        issued, life = rp.NOW - 1000, c.int('life', 1, 1000)
    if age == 'edge':
        issued = c.int('issued', rp.NOW - 2000, rp.NOW)
    srv, h = rp.OP, handle
    if age == 'other-server':
        srv = 'http://op2/'
    if age == 'other-handle':
        h = 'h2'
    a = None
    if age != 'none':
        a = A.Association(h, secret, issued, life, at)
        s.storeAssociation(srv, a)
    con = rp.consumer(c, s, rp.endpoint(c, ver))
    net = fakes.install(c, lambda url, b, hd: fakes.Response(url, status, {}, rp.kv({'ns': rp.NS2, 'is_valid': is_valid} if ver == 2 else {'is_valid': is_valid})))
    q = rp.query(ver, f)
    if signed is not None:
        q['openid.signed'] = signed
    if sig is not None:
        q['openid.sig'] = sig
    r, ex = c.attempt(con.complete, q, rp.RT)
    c.check(ex is None, 'a response is always answered with a result')
    return dict(result=r, secret=secret, type=at, assoc=a, query=q, net=net, store=s, live=(c.And(issued + life > rp.NOW) if age in ('live', 'edge') else False), expired=age in ('expired', 'edge'))


def complete_fields(c, ver, f, signed, sig):
    """Are all mandatory fields present and listed?"""
    have = dict(f)
    if signed is not None:
        have['signed'] = signed
    if sig is not None:
        have['sig'] = sig
    for k in (rp.REQ2 if ver == 2 else rp.REQ1):
        if k not in have:
            return False
    listed = signed.split(',')
    for k in (rp.SIG2 if ver == 2 else rp.SIG1):
        if k in have and k not in listed:
            return False
    return True


def direct(c, x, ver):
    """Did exactly this message get confirmed by the endpoint itself?"""
    calls = x['net'].calls
    if len(calls) != 1:
        return False
    url, body = calls[0]
    sent = dict(rp.posted(calls[0]))
    want = dict(x['query'])
    want['openid.mode'] = 'check_authentication'
    return c.And(c.eq(url, rp.OP), c.eq(sent, want))


def h_fields(c):
    """Missing and unsigned fields, genuine signature or confirming provider."""
    p = c.params
    ver = p['ver']
    dev = deviations(c, ver)
    dev = c.choice('dev', dev)
    f = rp.fields(ver)
    if p.get('ns'):
        f['ns'] = p['ns']
    for k in p.get('without', ()):
        f.pop(k)
    order = [k for k in f if k not in ('ns', 'mode')] + ['mode', 'signed']
    signed_names = [k for k in order if ('u', k) not in dev and ('m', k) not in dev]
    for what, k in dev:
        if what == 'm':
            f.pop(k, None)
    signed = None if ('m', 'signed') in dev else ','.join(signed_names)
    typ = p.get('t', 0)
    age = p['age']
    sig = None
    if ('m', 'sig') not in dev:
        if p['sig'] == 'genuine':
            s0 = c.bytes('secret', rp.TYPES[typ][2])
            sig = rp.signature(c, rp.TYPES[typ][0], s0, dict(f, signed=signed) if signed is not None else f, signed if signed is not None else '')
            c.e.inputs.pop('secret') if c.symbolic else None
        else:
            sig = 'x+=' if age not in ('live', 'expired') else c.str('sig', 28 if typ == 0 else 44, 'a-zA-Z0-9+/=')
    x = run(c, ver, f, signed, sig, age, p.get('valid', 'false'), typ=typ)
    r = x['result']
    ok = r.status == 'success'
    c.check(r.status in ('success', 'failure') or ('m', 'mode') in dev, 'the outcome is success or failure')
    full = complete_fields(c, ver, f, signed, sig) and 'mode' in f
    if not full:
        c.check(not ok, 'no success unless every mandatory field is present and listed as signed')
    if ok:
        c.check('response_nonce' in f or ver == 1, 'no success without nonce')
        fs = dict(f, signed=signed)
        genuine = x['assoc'] is not None and age == 'live' and c.eq(sig, rp.signature(c, x['type'], x['secret'], fs, signed))
        if age == 'live':
            c.check(genuine, 'success only with the signature of the stored association')
            c.check(not x['net'].calls, 'the provider is not asked when the association is known')
        else:
            c.check(age != 'expired', 'an expired association never authenticates')
            c.check(p.get('valid') == 'true', 'success only if the provider confirmed the message')
            c.check(direct(c, x, ver), 'the provider was asked about exactly the received message')
    elif full and not dev and not p.get('without'):
        if age == 'live' and p['sig'] == 'genuine':
            c.fail('a genuine assertion is accepted')
        if age == 'none' and p.get('valid') == 'true':
            c.fail('an assertion confirmed by the provider is accepted')


def h_signed_text(c):
    """The signed list names something that only resembles a field."""
    p = c.params
    ver = p['ver']
    f = rp.fields(ver)
    names = [k for k in f if k not in ('ns', 'mode')]
    k = c.choice('field', (rp.SIG2 if ver == 2 else rp.SIG1))
    pre = c.text('pre', 1, 0, 'print')
    post = c.text('post', 1, 0, 'print') if p['age'] == 'live' else ''
    c.assume(c.Not(c.Or(c.has_char(pre, ',:'), c.has_char(post, ',:'))))
    other = pre + k + post if not c.maybe('cut') else k[1:] + pre
    signed = ','.join([n for n in names if n != k] + [other])
    fs = dict(f, signed=signed)
    secret = c.bytes('secret', 20)
    if c.symbolic:
        c.e.inputs.pop('secret')
    sig = rp.signature(c, 'HMAC-SHA1', secret, fs, signed) if p['age'] == 'live' else 'x'
    x = run(c, ver, f, signed, sig, p['age'], 'true')
    listed = c.eq(other, k)
    c.check(c.Iff(x['result'].status == 'success', listed), 'a field counts as signed exactly when the list names it')


def h_signature(c):
    """Any signature text, any secret, association ages around the expiry."""
    p = c.params
    ver = p['ver']
    f = rp.fields(ver)
    v = c.text('ext', 1, 0, 'print')
    if ver == 2:
        f['ns.x'] = 'http://ext/'
    else:
        f['x'] = ''
    f['x.a' if ver == 2 else 'x'] = v
    names = [k for k in f if k not in ('ns', 'mode')] + ['signed']
    signed = ','.join(names)
    n = 28 if p.get('t', 0) == 0 else 44
    if p['age'] not in ('live', 'edge'):
        sig = c.text('sig', 2, 1, 'graph')
    elif p.get('store', 'mem') != 'mem':
        sig = c.str('sig', n - 1, 'a-zA-Z0-9') + '='
    else:
        sig = c.str('sig', n + p.get('d', 0), 'graph')
    valid = c.choice('valid', ['true', 'false'])
    x = run(c, ver, f, signed, sig, p['age'], valid, typ=p.get('t', 0), store=p.get('store', 'mem'))
    ok = x['result'].status == 'success'
    genuine = c.eq(sig, rp.signature(c, x['type'], x['secret'], dict(f, signed=signed), signed))
    asked = len(x['net'].calls)
    if p['age'] in ('live', 'edge'):
        if p.get('store', 'mem') == 'mem':
            c.check(c.Iff(ok, c.And(x['live'], genuine)), 'success exactly for the genuine signature of an unexpired association')
            c.check(not asked, 'the provider is not asked when the association is known')
        elif asked:
            c.check(c.Not(x['live']), 'the provider is not asked when the association is live')
            c.check(ok == (valid == 'true'), 'otherwise the provider decides')
            c.check(direct(c, x, ver), 'the provider was asked about exactly the received message')
        else:
            c.check(c.Iff(ok, c.And(x['live'], genuine)), 'success exactly for the genuine signature of an unexpired association')
    else:
        c.check(asked == 1 and direct(c, x, ver), 'the provider was asked about exactly the received message')
        c.check(ok == (valid == 'true'), 'the provider decides when the association is unknown')


def h_direct(c):
    """Every answer to direct verification."""
    p = c.params
    ver = p['ver']
    f = rp.fields(ver)
    signed = ','.join([k for k in f if k not in ('ns', 'mode')] + ['signed'])
    status = c.int('status', 100, 599)
    word = c.text('word', p['n'], p.get('lo', 0), p.get('chars'))
    key = p['key'] if p.get('key') else c.str('key', 8, 'is_valdx')
    kind = p['kind']
    if kind == 'kv':
        body = key + ':' + word + '\n'
    elif kind == 'raw':
        body = word
    else:
        body = 'is_valid:false\n' + key + ':' + word + '\n'
    body = body.encode('utf-8') if kind != 'bytes' else c.bin('body', 3)
    c.set_now(rp.NOW)
    s = stores.make(c, 'mem')
    con = rp.consumer(c, s, rp.endpoint(c, ver))
    net = fakes.install(c, lambda url, b, hd: fakes.Response(url, status, {}, body))
    q = rp.query(ver, f)
    q['openid.signed'], q['openid.sig'] = signed, 'x'
    r, ex = c.attempt(con.complete, q, rp.RT)
    c.check(ex is None, 'a response is always answered with a result')
    ok = r.status == 'success'
    good = c.Or(c.eq(status, 200), c.eq(status, 206))
    if kind == 'kv':
        line = word.strip()
        c.check(c.Implies(ok, c.And(good, c.eq(key, 'is_valid'))), 'success only for a confirming answer with success status')
        if '\n' not in word:
            c.check(c.Iff(ok, c.And(good, c.eq(key, 'is_valid'), c.eq(line, 'true'))), 'success exactly when the answer says true')
    else:
        c.check(not ok, 'no success unless the answer says true')


def h_fetch_fails(c):
    p = c.params
    ver = p['ver']
    F = c.mod('openid.fetchers')
    f = rp.fields(ver)
    signed = ','.join([k for k in f if k not in ('ns', 'mode')] + ['signed'])
    c.set_now(rp.NOW)
    s = stores.make(c, 'mem')
    con = rp.consumer(c, s, rp.endpoint(c, ver))

    def fail(url, b, h):
        raise c.choice('exc', [F.HTTPFetchingError('x'), ValueError('x'), OSError('x'), RuntimeError('x')])
    fakes.install(c, fail)
    q = rp.query(ver, f)
    q['openid.signed'], q['openid.sig'] = signed, c.text('sig', 2, 0)
    r, ex = c.attempt(con.complete, q, rp.RT)
    c.check(ex is None, 'a failing fetch does not raise')
    c.check(r.status == 'failure', 'no success without confirmation')


def h_nostore(c):
    """Without store the provider always decides."""
    p = c.params
    ver = p['ver']
    f = rp.fields(ver)
    signed = ','.join([k for k in f if k not in ('ns', 'mode')] + ['signed'])
    c.set_now(rp.NOW)
    valid = c.text('valid', 4, 0, 'trueTRUE')
    con = rp.consumer(c, None, rp.endpoint(c, ver))
    net = fakes.install(c, lambda url, b, h: fakes.Response(url, 200, {}, ('is_valid:' + valid + '\ninvalidate_handle:h\n').encode('utf-8')))
    q = rp.query(ver, f)
    q['openid.signed'], q['openid.sig'] = signed, c.text('sig', 2, 1)
    r, ex = c.attempt(con.complete, q, rp.RT)
    c.check(ex is None, 'a response is always answered with a result')
    c.check(c.Iff(r.status == 'success', c.eq(valid, 'true')), 'the provider decides')
    c.check(direct(c, dict(net=net, query=q), ver), 'the provider was asked about exactly the received message')


def h_extra(c):
    """Further fields the message may carry; handles of any text."""
    p = c.params
    ver = p['ver']
    f = rp.fields(ver)
    handle = c.choice('handle', ['', 'h', 'H', 'h2', ' h', 'h ', '0', 'None', 'sym'])
    if handle == 'sym':
        handle = c.str('handle_s', 1, 'h2{')
    f['assoc_handle'] = handle
    names = [k for k in f if k not in ('ns', 'mode')] + ['signed']
    for k, vs in (('op_endpoint', ['http://evil/', '']), ('invalidate_handle', ['h', 'h2', '']), ('user_setup_url', ['http://evil/']), ('error', ['x']), ('assoc_type', ['HMAC-SHA256'])):
        if k not in f and c.maybe('has_' + k):
            f[k] = c.choice(k, vs)
            if c.maybe('sign_' + k):
                names.append(k)
            break
    signed = ','.join(names)
    if p.get('ns'):
        f['ns'] = p['ns']
    secret = c.bytes('secret', 20)
    if c.symbolic:
        c.e.inputs.pop('secret')
    own = False
    if p['age'] == 'live' and c.eq(handle, 'h'):
        own = c.maybe('genuine')
    sig = rp.signature(c, 'HMAC-SHA1', secret, dict(f, signed=signed), signed) if own else 'x'
    valid = c.choice('valid', ['true', 'false'])
    x = run(c, ver, f, signed, sig, p['age'], valid)
    ok = x['result'].status == 'success'
    if ver == 1 and 'user_setup_url' in f:
        c.check(x['result'].status == 'setup_needed', 'an OpenID 1 response with a set-up address is no success')
        return
    if c.And(p['age'] == 'live', c.eq(handle, 'h')):
        c.check(not x['net'].calls, 'the provider is not asked when the association is known')
        c.check(ok == own, 'success exactly for the genuine signature of the association named')
    else:
        c.check(len(x['net'].calls) == 1, 'the provider is asked once when the named association is unknown')
        c.check(direct(c, x, ver), 'the endpoint in use was asked about exactly the received message')
        c.check(ok == (valid == 'true'), 'the provider decides when the association is unknown')


FQ = [dict(ver=1, age=a, sig=s, valid='true', ns=n) for n in (rp.NS1, rp.NS11) for a, s in (('live', 'genuine'), ('none', 'any'))] + \
     [dict(ver=v, age='live', sig='genuine') for v in (1, 2)] + [dict(ver=v, age='none', sig='any', valid='true') for v in (1, 2)] + \
     [dict(ver=v, age='expired', sig='genuine', valid='true') for v in (1, 2)] + [dict(ver=2, age='other-server', sig='any', valid='false')] + \
     [dict(ver=2, age=a, sig=g, valid='true', without=['identity', 'claimed_id']) for a, g in (('live', 'genuine'), ('none', 'any'))]
SQ = [dict(ver=v, age=a) for v in (1, 2) for a in ('edge', 'none', 'other-server', 'other-handle')] + [dict(ver=2, age='edge', t=1), dict(ver=2, age='edge', d=1), dict(ver=2, age='edge', d=-1), dict(ver=2, age='edge', store='file'), dict(ver=2, age='edge', store='sqlite')]
HARNESSES = {
    'fields': dict(fn=h_fields, quick=FQ, thorough=FQ + [dict(ver=v, age=a, sig='any', valid=w) for v in (1, 2) for a in AGE[3:] for w in ('true', 'false')] + [dict(ver=2, age='live', sig='any', t=1)],
                   bounds='every choice of up to two missing and/or unsigned fields of an assertion; association live, expired, absent, of another server or handle'),
    'signed_text': dict(fn=h_signed_text, quick=[dict(ver=v, age=a) for v in (1, 2) for a in ('live', 'none')], bounds='a field name in the signed list with one symbolic character before and after, or cut'),
    'signature': dict(fn=h_signature, quick=SQ, bounds='all signature texts of the right length (and one longer/shorter), all secrets, all issue times around the expiry'),
    'extra': dict(fn=h_extra, quick=[dict(ver=v, age=a) for v in (1, 2) for a in ('live', 'none')] + [dict(ver=1, age='live', ns=rp.NS11), dict(ver=1, age='none', ns=rp.NS1)], bounds='one further field naming other providers or handles; handles resembling that of the association the store has, or empty'),
    'direct': dict(fn=h_direct, quick=[dict(ver=v, kind='kv', key='is_valid', n=5, lo=4, chars='trueTRUE ') for v in (1, 2)] + [dict(ver=v, kind='kv', key='is_valid', n=4, chars='truefals \n') for v in (1, 2)] + [dict(ver=2, kind='kv', n=4, chars='true'), dict(ver=2, kind='raw', n=3, chars='ascii'), dict(ver=2, kind='bytes', n=0), dict(ver=2, kind='kv', key='is_valid', n=1)],
                   thorough=[dict(ver=v, kind='kv', key='is_valid', n=6, chars='truefals \n') for v in (1, 2)] + [dict(ver=2, kind='raw', n=5, chars='ascii')],
                   bounds='all HTTP status codes, all answers of the form key:value with a value of up to 4 characters, all texts of 3 characters and 3 bytes'),
    'fetch_fails': dict(fn=h_fetch_fails, quick=[dict(ver=1), dict(ver=2)], bounds='fetchers raising several kinds of exceptions'),
    'nostore': dict(fn=h_nostore, quick=[dict(ver=1), dict(ver=2)], bounds='all answers of up to 4 characters'),
}
