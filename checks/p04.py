"""P04: signing covers every protocol field."""
NS2 = 'http://specs.openid.net/auth/2.0'
NS1 = 'http://openid.net/signon/1.0'
EXT = 'http://ext.example/1'
TYPES = [('HMAC-SHA1', 'sha1', 20), ('HMAC-SHA256', 'sha256', 32)]
NAME = 'a-z_0-9.A-Z+/-'


def kvtext(pairs):
    out = ''
    for k, v in pairs:
        out = out + k + ':' + v + '\n'
    return out


def build(c, M):
    p = c.params
    m = M.Message(NS2 if p['v'] == 2 else NS1)
    m.setArg(M.OPENID_NS, 'mode', 'id_res')
    value = c.text('value', p['vl'])
    c.assume(c.Not(c.has_char(value, '\n')))
    if 'field' in p:
        name = c.text('name', p['field'], 1, NAME)
        for r in ('ns', 'mode', 'sig', 'signed', 'assoc_handle'):
            c.assume(c.Not(c.eq(name, r)))
        m.setArg(M.OPENID_NS, name, value)
    if 'ext' in p:
        m.namespaces.addAlias(EXT, 'x')
        m.setArg(EXT, c.text('ename', p['ext'], 1, NAME), value)
        m.setArg(EXT, 'zz.y', 'w')
    if 'auto' in p:
        m.setArg('http://auto.example/' + c.str('nsc', 1, 'a-z'), c.text('aname', p['auto'], 1, NAME), value)
    if 'bare' in p:
        m.setArg(M.BARE_NS, c.text('bname', p['bare'], 1, NAME), value)
        m.setArg(M.BARE_NS, 'plain', 'unsigned')
    return m


def h_sign(c):
    M, A = c.mod('openid.message'), c.mod('openid.association')
    p = c.params
    typ, alg, size = TYPES[p.get('t', 0)]
    m = build(c, M)
    secret = c.bytes('secret', size)
    handle = c.text('handle', 1, 1, 'graph')
    a = A.Association(handle, secret, 10 ** 9, 3600, typ)
    before = dict(m.toPostArgs())
    s, ex = c.attempt(a.signMessage, m)
    if ex is not None:
        c.fail('a message cannot be signed')
    c.check(c.eq(dict(m.toPostArgs()), before), 'the original message is untouched')
    post = dict(s.toPostArgs())
    c.check('openid.sig' in post and 'openid.signed' in post, 'the copy carries a signature and a signed list')
    c.check(c.eq(post.get('openid.assoc_handle'), handle), 'the copy names the signing association')
    listed = post['openid.signed'].split(',')
    pairs = []
    for f in listed:
        pairs.append((f, post.get('openid.' + f, '')))
    for k in post:
        if k.startswith('openid.') and not c.eq(k, 'openid.sig'):
            c.check(c.Or([c.eq(k[7:], f) for f in listed]), 'every protocol field is listed as signed')
    for k in before:
        c.check(k in post and c.eq(post[k], before[k]), 'the copy keeps every field')
    want = c.b64(c.hmac(alg, secret, kvtext(pairs).encode('utf-8')))
    c.check(c.eq(post['openid.sig'], want), 'the signature is the keyed hash of the listed fields in order')
    ok, ex = c.attempt(a.checkMessageSignature, s)
    c.check(ex is None and ok is not None and c.eq(ok, True), 'the signing association verifies its own message')
    s.setArg('http://later.example/', 'q', '1')
    s.setArg(M.OPENID_NS, 'mode', 'changed')
    s.setArg(M.OPENID_NS, 'added', '1')
    c.check(c.eq(dict(m.toPostArgs()), before) and not m.namespaces.isDefined('http://later.example/'), 'the copy is independent of the original message')


def h_refuse(c):
    """Already signed messages and foreign handles are refused."""
    M, A = c.mod('openid.message'), c.mod('openid.association')
    m = M.Message(NS2 if c.params['v'] == 2 else NS1)
    m.setArg(M.OPENID_NS, 'mode', 'id_res')
    kind = c.pick('kind', 4)
    v = c.text('v', 3)
    a = A.Association('ab', c.bytes('secret', 20), 10 ** 9, 3600, 'HMAC-SHA1')
    if kind == 0:
        m.setArg(M.OPENID_NS, 'sig', v)
    elif kind == 1:
        m.setArg(M.OPENID_NS, 'signed', v)
    elif kind == 2:
        m.setArg(M.OPENID_NS, 'signed', v)
        m.setArg(M.OPENID_NS, 'sig', v)
    else:
        c.assume(c.Not(c.eq(v, 'ab')))
        c.assume(len(v) > 0)
        m.setArg(M.OPENID_NS, 'assoc_handle', v)
    before = dict(m.toPostArgs())
    r, ex = c.attempt(a.signMessage, m)
    c.check(isinstance(ex, ValueError), 'an already signed message or a foreign handle is refused')
    c.check(c.eq(dict(m.toPostArgs()), before), 'the refused message is untouched')


def h_newline(c):
    """A value that the signature base string cannot represent is never signed."""
    M, A = c.mod('openid.message'), c.mod('openid.association')
    m = M.Message(NS2)
    m.setArg(M.OPENID_NS, 'mode', 'id_res')
    v = c.text('v', 3, 1)
    c.assume(c.has_char(v, '\n'))
    m.setArg(M.OPENID_NS, 'identity', v)
    a = A.Association('h', b'k' * 20, 10 ** 9, 3600, 'HMAC-SHA1')
    r, ex = c.attempt(a.signMessage, m)
    c.check(isinstance(ex, ValueError), 'a value with a newline is not signed')


def h_names(c):
    """Field names the signed list or the signature base string cannot represent."""
    M, A = c.mod('openid.message'), c.mod('openid.association')
    p = c.params
    m = M.Message(NS2 if p['v'] == 2 else NS1)
    m.setArg(M.OPENID_NS, 'mode', 'id_res')
    m.setArg(M.OPENID_NS, 'a', '1')
    name = c.text('name', 3, 1, '\n -~')
    if p['where'] == 'core':
        for r in ('ns', 'mode', 'sig', 'signed', 'assoc_handle', 'a'):
            c.assume(c.Not(c.eq(name, r)))
        m.setArg(M.OPENID_NS, name, 'v')
    elif p['where'] == 'ext':
        m.namespaces.addAlias(EXT, 'x')
        m.setArg(EXT, name, 'v')
    elif p['where'] == 'alias':
        c.assume(c.Not(c.has_char(name, '.')))
        for r in M.OPENID_PROTOCOL_FIELDS:
            c.assume(c.Not(c.eq(name, r)))
        x, ex = c.attempt(m.namespaces.addAlias, EXT, name)
        c.check(ex is None, 'the alias is acceptable')
        m.setArg(EXT, 'f', 'v')
    else:
        m.setArg(M.BARE_NS, name, 'v')
    a = A.Association('h', c.bytes('secret', 20), 10 ** 9, 3600, 'HMAC-SHA1')
    before = dict(m.toPostArgs())
    s, ex = c.attempt(a.signMessage, m)
    c.check(c.eq(dict(m.toPostArgs()), before), 'the message itself is untouched')
    if p['where'] != 'bare' and c.has_char(name, ',:\n'):
        c.check(isinstance(ex, c.mod('openid.kvform').KVFormError), 'a field name that cannot be signed is refused')
        return
    if p['where'] != 'bare' and c.has_char(name, ' '):
        c.check(ex is None or isinstance(ex, ValueError), 'a name with spaces is signed or refused')
    else:
        c.check(ex is None, 'every other name is signed')
    if ex is None:
        post = dict(s.toPostArgs())
        listed = post['openid.signed'].split(',')
        for k in post:
            c.check(not k.startswith('openid.') or k == 'openid.sig' or c.Or([c.eq(k[7:], f) for f in listed]), 'every protocol field is listed as signed')
        ok, ex = c.attempt(a.checkMessageSignature, s)
        c.check(ex is None and ok is not None and c.eq(ok, True), 'the signing association verifies its own message')


Q = [dict(v=2, vl=1, field=4), dict(v=1, vl=1, field=3), dict(v=2, vl=2, field=1, t=1), dict(v=2, vl=1, ext=2),
     dict(v=1, vl=1, ext=2, t=1), dict(v=2, vl=1, auto=2), dict(v=2, vl=1, bare=2), dict(v=2, vl=1, field=2, ext=1, bare=1),
     dict(v=2, vl=0, field=1, auto=1, ext=1)]
HARNESSES = {
    'sign': dict(fn=h_sign, quick=Q,
                 thorough=Q + [dict(v=2, vl=2, field=6), dict(v=1, vl=2, field=6, t=1), dict(v=2, vl=2, field=3, ext=3, bare=2, t=1)],
                 bounds='OpenID 1/2 messages with a protocol field (name up to 4/6 characters), extension fields (named and generated alias) and '
                        'bare fields with symbolic names, value up to 2 characters of all Unicode, symbolic secret and handle; field names without comma, colon, newline'),
    'names': dict(fn=h_names, quick=[dict(v=2, where=w) for w in ('core', 'ext', 'alias', 'bare')] + [dict(v=1, where='core')], bounds='names and aliases of up to 3 printable characters or line ends'),
    'refuse': dict(fn=h_refuse, quick=[dict(v=1), dict(v=2)], bounds='values up to 3 characters'),
    'newline': dict(fn=h_newline, bounds='values up to 3 characters'),
}
