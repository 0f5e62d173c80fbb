"""P05: signature verification accepts exactly the genuine signature."""
NS2 = 'http://specs.openid.net/auth/2.0'
TYPES = [('HMAC-SHA1', 'sha1', 20), ('HMAC-SHA256', 'sha256', 32)]


def kvtext(pairs):
    out = ''
    for k, v in pairs:
        out = out + k + ':' + v + '\n'
    return out


def expected(c, alg, secret, post):
    """(signature or None when it cannot be computed)"""
    listed = post['openid.signed'].split(',')
    pairs = [(f, post.get('openid.' + f, '')) for f in listed]
    for f, v in pairs:
        if c.Or(c.has_char(f, '\n:'), c.has_char(v, '\n')):
            return None
    return c.b64(c.hmac(alg, secret, kvtext(pairs).encode('utf-8')))


def h_accept(c):
    """Arbitrary signed list, values and signature."""
    M, A = c.mod('openid.message'), c.mod('openid.association')
    p = c.params
    typ, alg, size = TYPES[p.get('t', 0)]
    secret = c.bytes('secret', size)
    post = {'openid.mode': 'id_res', 'openid.a': c.text('va', p['v'], 0, p.get('chars')), 'openid.b': 'B', 'c': 'unsigned'}
    if p['ver'] == 2:
        post['openid.ns'] = NS2
        post['openid.ns.x'] = 'http://ext.example/'
        post['openid.x.q'] = 'V'
    if c.maybe('with-handle'):
        post['openid.assoc_handle'] = 'h'
    signed = c.text('signed', p['s'], 1, p.get('sc', 'abcxq.,'))
    post['openid.signed'] = signed
    siglen = ((size + 2) // 3) * 4
    kind = p['sig']
    if kind == 'full':
        sig = c.str('sig', siglen, 'graph')
    elif kind == 'short':
        sig = c.text('sig', 3, 1)
    else:
        sig = c.str('sig', siglen + (1 if kind == 'long' else -1), 'graph')
    post['openid.sig'] = sig
    m = M.Message.fromPostArgs(post)
    a = A.Association('h', secret, 10 ** 9, 3600, typ)
    want = expected(c, alg, secret, post)
    ok, ex = c.attempt(a.checkMessageSignature, m)
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'verification raises only value errors')
        c.check(want is None, 'verification is possible for every representable message')
        return
    c.check(want is not None, 'nothing is accepted that has no signature base string')
    c.check(c.Iff(ok, c.eq(sig, want)), 'accepted exactly when the signature equals the keyed hash of the listed fields')


def h_tamper(c):
    """Any single change to a genuinely signed message is detected."""
    M, A = c.mod('openid.message'), c.mod('openid.association')
    p = c.params
    typ, alg, size = TYPES[p.get('t', 0)]
    secret = c.bytes('secret', size)
    v = c.text('v', p.get('v', 1), 0, p.get('chars', 'print'))
    c.assume(c.Not(c.has_char(v, '\n')))
    m = M.Message(NS2)
    m.setArg(M.OPENID_NS, 'mode', 'id_res')
    m.setArg(M.OPENID_NS, 'identity', 'http://a/')
    m.setArg('http://ext.example/', 'f', v)
    a = A.Association('h', secret, 10 ** 9, 3600, typ)
    s = a.signMessage(m)
    post = dict(s.toPostArgs())
    kind = p['kind']
    if kind == 'value':
        k = [q for q in post if q.startswith('openid.ext') or q == 'openid.identity'][c.pick('which', 2)]
        w = c.text('w', p.get('w', 2), 0) if not k == 'openid.identity' else 'http://' + c.str('w', 1) + '/'
        c.assume(c.Not(c.eq(w, post[k])))
        c.assume(c.Not(c.has_char(w, '\n')))
        post[k] = w
    elif kind == 'sig':
        n = len(post['openid.sig'])
        i = c.pick('pos', n)
        ch = c.str('ch', 1)
        sig = post['openid.sig']
        c.assume(c.Not(c.eq(ch, sig[i])))
        post['openid.sig'] = sig[:i] + ch + sig[i + 1:]
    elif kind == 'siglen':
        sig = post['openid.sig']
        d = c.pick('d', 4)
        extra = c.text('extra', 2, 1)
        post['openid.sig'] = [sig + extra, extra + sig, sig[:-1], sig[1:]][d]
    elif kind == 'secret':
        j = c.pick('pos', size)
        b = c.bytes('nb', 1)
        c.assume(c.Not(b[0] == secret[j]))
        a = A.Association('h', secret[:j] + b + secret[j + 1:], 10 ** 9, 3600, typ)
    elif kind == 'signed':
        old = post['openid.signed']
        i = c.pick('pos', len(old))
        ch = c.str('ch', 1, 'graph')
        c.assume(c.Not(c.eq(ch, old[i])))
        c.assume(c.Not(c.eq(ch, ':')))
        post['openid.signed'] = old[:i] + ch + old[i + 1:]
    elif kind == 'drop':
        names = post['openid.signed'].split(',')
        i = c.pick('i', len(names))
        post['openid.signed'] = ','.join(names[:i] + names[i + 1:])
    elif kind == 'remove':
        names = [n for n in post['openid.signed'].split(',') if not n.startswith('ns') and n != 'signed']
        n = names[c.pick('i', len(names))]
        c.assume(c.Not(c.eq(post['openid.' + n], '')))
        del post['openid.' + n]
    elif kind == 'type':
        a = A.Association('h', secret, 10 ** 9, 3600, TYPES[1 - p.get('t', 0)][0])
    m2 = M.Message.fromPostArgs(post)
    ok, ex = c.attempt(a.checkMessageSignature, m2)
    c.check(ex is not None or c.Not(ok), 'a changed message is not accepted')


def h_missing(c):
    M, A = c.mod('openid.message'), c.mod('openid.association')
    post = {'openid.mode': 'id_res', 'openid.ns': NS2}
    a = A.Association('h', c.bytes('secret', 20), 10 ** 9, 3600, 'HMAC-SHA1')
    k = c.pick('kind', 4)
    v = c.text('v', 2)
    if k == 0:
        post['openid.sig'] = v
    elif k == 1:
        post['openid.signed'] = v
    elif k == 2:
        post['openid.signed'] = ''
        post['openid.sig'] = v
    else:
        post['openid.signed'] = v
        post['openid.sig'] = ''
    ok, ex = c.attempt(a.checkMessageSignature, M.Message.fromPostArgs(post))
    c.check(isinstance(ex, ValueError), 'a message without signature or signed list raises a value error')


QA = [dict(ver=2, v=1, s=2, sig='full'), dict(ver=2, v=0, s=3, sc='abxq.,', sig='full'), dict(ver=1, v=1, s=3, sc='ac,', sig='full'),
      dict(ver=2, v=2, s=1, sig='full', t=1), dict(ver=2, v=1, s=1, sig='short'), dict(ver=2, v=1, s=1, sig='long'),
      dict(ver=2, v=1, s=1, sig='cut'), dict(ver=1, v=0, s=1, sc=None, sig='full')]
QT = [dict(kind=k) for k in ('value', 'sig', 'siglen', 'secret', 'signed', 'drop', 'remove', 'type')] + [
    dict(kind='value', t=1), dict(kind='sig', t=1), dict(kind='secret', t=1)]
HARNESSES = {
    'accept': dict(fn=h_accept, quick=QA, thorough=QA + [dict(ver=2, v=1, s=3, sig='full'), dict(ver=2, v=2, s=4, sc='abxq.,', sig='full'),
                                                         dict(ver=1, v=2, s=4, sc='abc,', sig='full', t=1)],
                   bounds='signed lists up to 3/4 characters over present and absent field names, values up to 2 characters of all Unicode, '
                          'all signatures of full length +-1 and up to 3 characters, all secrets'),
    'tamper': dict(fn=h_tamper, quick=QT, thorough=QT + [dict(k, v=2, w=3, chars=None) for k in QT],
                   bounds='every one-character change of signature, secret, signed list; value replaced by any text up to 2/3 characters; dropped fields'),
    'missing': dict(fn=h_missing, bounds='values up to 2 characters'),
}
