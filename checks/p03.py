"""P03: association records and expiry."""
TYPES = ['HMAC-SHA1', 'HMAC-SHA256']


def mk(c, A, handle, secret, issued, lifetime, t):
    return A.Association(handle, secret, issued, lifetime, t)


def same(c, a, b):
    return c.And(c.eq(a.handle, b.handle), c.eq(a.secret, b.secret), c.eq(a.issued, b.issued),
                 c.eq(a.lifetime, b.lifetime), c.eq(a.assoc_type, b.assoc_type))


def h_roundtrip(c):
    A = c.mod('openid.association')
    p = c.params
    handle = c.text('handle', p['h'], 0, None if p['uni'] else 'print')
    secret = c.bytes('secret', p['s']) if p['s'] else b''
    issued = c.int('issued', 0, p['t'])
    lifetime = c.int('lifetime', 0, p['l'])
    t = TYPES[p['type']]
    a = mk(c, A, handle, secret, issued, lifetime, t)
    s, ex = c.attempt(a.serialize)
    if ex is not None:
        c.check(c.Or(c.has_char(handle, '\n'), c.Not(c.eq(handle, handle.strip()))),
                'only handles that cannot be stored unchanged are refused')
        return
    c.check(isinstance(s, str), 'stored form is text')
    b, ex = c.attempt(A.Association.deserialize, s)
    if ex is not None:
        c.fail('a stored association cannot be read back')
    c.check(same(c, a, b), 'the association read back equals the stored one')
    c.check(a == b, 'the associations compare equal')
    c.check(c.Not(a != b), 'the associations do not compare unequal')


KEYS = ['version', 'handle', 'secret', 'issued', 'lifetime', 'assoc_type']
VALS = ['2', 'hdl', 'MTIzNA==', '1000000000', '3600', 'HMAC-SHA1']


def h_mangled(c):
    """Fields dropped, repeated, swapped or renamed."""
    A = c.mod('openid.association')
    kind = c.params['kind']
    pairs = list(zip(KEYS, VALS))
    ok = False
    if kind == 'drop':
        i = c.pick('i', 6)
        pairs.pop(i)
    elif kind == 'repeat':
        i, j = c.pick('i', 6), c.pick('j', 7)
        pairs.insert(j, pairs[i])
    elif kind == 'swap':
        i, j = c.pick('i', 6), c.pick('j', 6)
        c.assume(i != j)
        pairs[i], pairs[j] = pairs[j], pairs[i]
    elif kind == 'extra':
        j = c.pick('j', 7)
        k = c.text('k', 2, 1, 'a-z_')
        pairs.insert(j, (k, c.text('v', 1, 0, 'print')))
    elif kind == 'rename':
        i = c.pick('i', 6)
        n = len(KEYS[i])
        pos = c.pick('pos', n)
        ch = c.str('ch', 1, 'graph')
        c.assume(c.Not(c.eq(ch, KEYS[i][pos])))
        pairs[i] = (KEYS[i][:pos] + ch + KEYS[i][pos + 1:], VALS[i])
    text = ''.join([k + ':' + v + '\n' for k, v in pairs])
    r, ex = c.attempt(A.Association.deserialize, text)
    c.check(isinstance(ex, ValueError), 'a malformed record is refused with a value error')


def h_fields(c):
    """Arbitrary field values: refused, or read exactly."""
    A = c.mod('openid.association')
    which = c.params['which']
    vals = list(VALS)
    v = c.text('v', c.params['n'], 0, 'print')
    vals[which] = v
    text = ''.join([k + ':' + x + '\n' for k, x in zip(KEYS, vals)])
    a, ex = c.attempt(A.Association.deserialize, text)
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'a malformed record is refused with a value error')
    stripped = v.strip()
    irregular = len(stripped) != len(v)
    if irregular:
        c.check(ex is not None, 'a value with surrounding white space is refused')
        return
    if which == 0:
        c.check(c.Iff(ex is None, c.eq(v, '2')), 'exactly version 2 records are read')
    elif which == 1:
        c.check(ex is None and c.eq(a.handle, v), 'the handle is read unchanged')
    elif which in (3, 4):
        if len(v) and c.all_chars(v, '0-9'):
            want = int(v)
            c.check(ex is None and c.eq(a.issued if which == 3 else a.lifetime, want), 'decimal times are read as their value')
        elif c.Not(c.has_char(v, '+-_0123456789')):
            c.check(ex is not None, 'a time without digits is refused')
    elif which == 5:
        c.check(c.Iff(ex is None, c.Or(c.eq(v, TYPES[0]), c.eq(v, TYPES[1]))), 'only known association types are read')


def h_expiry(c):
    A = c.mod('openid.association')
    issued = c.int('issued', 0, 2 ** 40)
    lifetime = c.int('lifetime', -2 ** 31, 2 ** 31)
    now = c.int('clock', 0, 2 ** 40)
    a = mk(c, A, 'h', b's' * 20, issued, lifetime, TYPES[0])
    if c.maybe('explicit'):
        r = a.getExpiresIn(now)
    else:
        c.set_now(now)
        r = a.getExpiresIn() if c.maybe('method') else a.expiresIn
    left = issued + lifetime - now
    c.check(c.eq(r, c.ite(left > 0, left, 0)), 'remaining lifetime is issue time plus lifetime minus now, at least zero')


def h_fresh(c):
    """A freshly made association is issued now and lives for the given time."""
    A = c.mod('openid.association')
    now = c.int('clock', 0, 2 ** 40)
    c.set_now(now)
    life = c.int('life', 0, 2 ** 31)
    secret = c.bytes('secret', 20)
    handle = c.text('handle', 2, 1)
    a = A.Association.fromExpiresIn(life, handle, secret, TYPES[c.pick('t', 2)])
    c.check(c.And(c.eq(a.issued, now), c.eq(a.lifetime, life), c.eq(a.secret, secret), c.eq(a.handle, handle)), 'new association records its arguments')
    c.check(c.eq(a.expiresIn, life), 'new association expires after its lifetime')


HARNESSES = {
    'roundtrip': dict(fn=h_roundtrip,
                      quick=[dict(h=2, s=20, t=10 ** 10, l=10 ** 6, type=0, uni=1), dict(h=1, s=32, t=9999, l=99, type=1, uni=1),
                             dict(h=4, s=3, t=9, l=9, type=1, uni=0), dict(h=1, s=0, t=9, l=9, type=0, uni=0)],
                      thorough=[dict(h=3, s=20, t=10 ** 12, l=10 ** 9, type=0, uni=1), dict(h=3, s=32, t=10 ** 12, l=10 ** 9, type=1, uni=1)] +
                      [dict(h=2, s=k, t=99, l=99, type=0, uni=0) for k in range(0, 20)],
                      bounds='handles up to 4 characters (Unicode up to 2/3), secrets of 0-32 bytes, times up to 10^10/10^12'),
    'mangled': dict(fn=h_mangled, quick=[dict(kind=k) for k in ('drop', 'repeat', 'swap', 'extra', 'rename')],
                    bounds='every single dropped, repeated, swapped, added (name up to 2 letters) or one-character-renamed field'),
    'fields': dict(fn=h_fields, quick=[dict(which=0, n=2), dict(which=1, n=3), dict(which=2, n=4), dict(which=3, n=3), dict(which=4, n=3), dict(which=5, n=11)],
                   bounds='one field value arbitrary printable text up to 3-11 characters'),
    'expiry': dict(fn=h_expiry, bounds='all issue times and clocks up to 2^40, all lifetimes of 32 bits'),
    'fresh': dict(fn=h_fresh, bounds='all clocks up to 2^40, lifetimes up to 2^31, handles up to 2 characters'),
}
