"""P01: key-value form."""


def mk_pairs(c):
    n = c.params['pairs']
    return [(c.text('k%d' % i, c.params['k']), c.text('v%d' % i, c.params['v'])) for i in range(n)]


def h_encode(c):
    """seqToKV refuses exactly the unencodable; otherwise the text decodes to the same pairs."""
    kv = c.mod('openid.kvform')
    pairs = mk_pairs(c)
    text, ex = c.attempt(kv.seqToKV, pairs)
    bad = c.Or([c.Or(c.has_char(k, '\n:'), c.has_char(v, '\n')) for k, v in pairs])
    if ex is not None:
        c.check(isinstance(ex, kv.KVFormError), 'encoding fails only with the key-value form error')
        c.check(bad, 'encoding refuses only newlines and colons')
        return
    c.check(c.Not(bad), 'encoding refuses every newline in keys/values and colon in keys')
    back, ex = c.attempt(kv.kvToSeq, text)
    if ex is not None:
        c.fail('lenient decoding raises')
    want = [(k.strip(), v.strip()) for k, v in pairs]
    c.check(c.eq(back, want), 'decoding returns the encoded pairs')
    expect = ''
    for k, v in pairs:
        expect = expect + k + ':' + v + '\n'
    c.check(c.eq(text, expect), 'text is exactly the newline-terminated pairs')


def h_strict(c):
    kv = c.mod('openid.kvform')
    pairs = mk_pairs(c)
    text, ex = c.attempt(kv.seqToKV, pairs, strict=True)
    bad = c.Or([c.Or(c.has_char(k, '\n:'), c.has_char(v, '\n'), c.Not(c.eq(k, k.strip())), c.Not(c.eq(v, v.strip())))
                for k, v in pairs])
    if ex is not None:
        c.check(isinstance(ex, kv.KVFormError), 'strict encoding fails only with the key-value form error')
        c.check(bad, 'strict encoding refuses only irregular pairs')
        return
    c.check(c.Not(bad), 'strict encoding refuses every irregular pair')
    if len(pairs) and c.eq(len(pairs[0][0]), 0):
        return
    back, ex = c.attempt(kv.kvToSeq, text, strict=True)
    if ex is None:
        c.check(c.eq(back, pairs), 'strict decoding returns the encoded pairs')
    else:
        c.check(c.And(isinstance(ex, kv.KVFormError), c.Or([len(k) == 0 for k, v in pairs])),
                'strict decoding accepts regular pairs')


def ref_decode(c, data):
    """Reference decoder: (pairs, irregular?)"""
    pairs, odd = [], False
    lines, cur = [], ''
    for ch in data:
        if ch == '\n':
            lines.append(cur)
            cur = ''
        else:
            cur = cur + ch
    if len(cur):
        lines.append(cur)
        odd = True
    for line in lines:
        if len(line.strip()) == 0:
            continue
        pos = line.find(':')
        if pos < 0:
            odd = True
            continue
        k, v = line[:pos], line[pos + 1:]
        ks, vs = k.strip(), v.strip()
        if len(ks) != len(k) or len(vs) != len(v) or len(ks) == 0:
            odd = True
        pairs.append((ks, vs))
    return pairs, odd


def h_decode(c):
    kv = c.mod('openid.kvform')
    data = c.text('data', c.params['n'])
    want, odd = ref_decode(c, data)
    got, ex = c.attempt(kv.kvToSeq, data)
    if ex is not None:
        c.fail('lenient decoding raises')
    c.check(c.eq(got, want), 'lenient decoding returns the trimmed pairs of each line')
    # decoding is a fixpoint: encode and decode again
    text, ex = c.attempt(kv.seqToKV, got)
    if ex is not None:
        c.fail('decoded pairs cannot be encoded')
    again, ex = c.attempt(kv.kvToSeq, text)
    if ex is not None:
        c.fail('re-decoding raises')
    c.check(c.eq(again, got), 'decode-encode-decode is stable')
    got, ex = c.attempt(kv.kvToSeq, data, strict=True)
    if ex is not None:
        c.check(c.And(isinstance(ex, kv.KVFormError), odd), 'strict decoding raises only on irregular text')
    else:
        c.check(c.And(not odd, c.eq(got, want)), 'strict decoding raises on every irregularity')


def h_dict(c):
    """Dictionary form: every entry survives."""
    kv = c.mod('openid.kvform')
    k0, v0 = c.str('k0', 1, 'graph'), c.text('v0', c.params['v'])
    k1, v1 = c.text('k1', 2, 1, 'graph'), c.text('v1', 1)
    c.assume(c.Not(c.eq(k0, k1)))
    c.assume(c.Not(c.has_char(k0 + k1, ':')))
    c.assume(c.Not(c.has_char(v0 + v1, '\n')))
    text, ex = c.attempt(kv.dictToKV, {k0: v0, k1: v1})
    if ex is not None:
        c.fail('dictionary cannot be encoded')
    d, ex = c.attempt(kv.kvToDict, text)
    if ex is not None:
        c.fail('dictionary cannot be decoded')
    c.check(c.And(len(d) == 2, c.eq(d.get(k0), v0.strip()), c.eq(d.get(k1), v1.strip())), 'dictionary round trip')
    d, ex = c.attempt(kv.kvToDict, text + text.replace('x', 'y') + kv.seqToKV([(k0, 'last')]))
    c.check(ex is None and d.get(k0) == 'last', 'of a repeated key the last value counts')


HARNESSES = {
    'encode': dict(fn=h_encode, quick=[dict(pairs=0, k=0, v=0), dict(pairs=1, k=3, v=3), dict(pairs=2, k=1, v=2), dict(pairs=2, k=2, v=1)],
                   thorough=[dict(pairs=0, k=0, v=0), dict(pairs=1, k=4, v=5), dict(pairs=2, k=2, v=2), dict(pairs=3, k=1, v=1)],
                   bounds='0-3 pairs, keys/values up to 3 (quick) / 5 (thorough) characters, all Unicode'),
    'strict': dict(fn=h_strict, quick=[dict(pairs=1, k=3, v=3), dict(pairs=2, k=1, v=1)],
                   thorough=[dict(pairs=1, k=4, v=4), dict(pairs=2, k=2, v=2)],
                   bounds='1-2 pairs, keys/values up to 3/4 characters, all Unicode'),
    'decode': dict(fn=h_decode, quick=[dict(n=5)], thorough=[dict(n=7)], bounds='every text up to 5 (quick) / 7 (thorough) characters'),
    'dict': dict(fn=h_dict, quick=[dict(v=2)], thorough=[dict(v=3)], bounds='two entries, keys up to 2, values up to 3 characters'),
}
