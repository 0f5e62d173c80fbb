"""P02: integer, base64 and XOR wire encodings."""


def h_int(c):
    cu = c.mod('openid.cryptutil')
    n = c.bvint('n', c.params['bits'])
    b, ex = c.attempt(cu.int_to_bytes, n)
    if ex is not None:
        c.fail('a non-negative integer cannot be encoded')
    c.check(isinstance(b, bytes), 'the encoding is a byte string')
    c.check(len(b) >= 1, 'the encoding is not empty')
    c.check(b[0] < 128, 'the top bit of the encoding is clear')
    if len(b) > 1:
        c.check(c.Or(b[0] != 0, b[1] > 127), 'the encoding is minimal')
    # the value of the encoding, computed independently
    acc = 0
    for x in b:
        acc = (acc << 8) | x
    c.check(acc == n, 'the encoding is the big-endian value')
    back, ex = c.attempt(cu.bytes_to_int, b)
    if ex is not None:
        c.fail('an encoding cannot be decoded')
    c.check(back == n, 'decoding returns the integer')


def h_int64(c):
    cu = c.mod('openid.cryptutil')
    n = c.bvint('n', c.params['bits'])
    s, ex = c.attempt(cu.longToBase64, n)
    if ex is not None:
        c.fail('a non-negative integer cannot be encoded in base64')
    c.check(isinstance(s, str), 'base64 form is text')
    back, ex = c.attempt(cu.base64ToLong, s)
    if ex is not None:
        c.fail('a base64 encoded integer cannot be decoded')
    c.check(back == n, 'base64 decoding returns the integer')


def h_bytes(c):
    cu = c.mod('openid.cryptutil')
    b = c.bytes('b', c.params['n'])
    v, ex = c.attempt(cu.bytes_to_int, b)
    if ex is not None:
        c.fail('a byte string cannot be decoded as integer')
    acc = 0
    for x in b:
        acc = (acc << 8) | x
    c.check(v == acc, 'bytes decode to their big-endian value')
    f, ex = c.attempt(cu.fix_btwoc, b)
    if ex is not None:
        c.fail('sign-bit normalisation raises')
    # the shortest byte string of the same value with the top bit clear
    want = b
    while len(want) > 1 and want[0] == 0:
        want = want[1:]
    if want[0] > 127:
        want = b'\x00' + want
    c.check(c.eq(f, want), 'normalised bytes are the shortest ones with the top bit clear')


ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def h_b64(c):
    ou = c.mod('openid.oidutil')
    b = c.bytes('b', c.params['n']) if c.params['n'] else b''
    s, ex = c.attempt(ou.toBase64, b)
    if ex is not None:
        c.fail('a byte string cannot be encoded in base64')
    n = len(b)
    c.check(c.And(isinstance(s, str), len(s) == (n + 2) // 3 * 4), 'base64 text has the padded length')
    pad = (3 - n % 3) % 3
    body = s[:len(s) - pad]
    c.check(c.And(c.eq(s[len(s) - pad:], '=' * pad), c.all_chars(body, 'A-Za-z0-9+/')), 'base64 alphabet and padding')
    back, ex = c.attempt(ou.fromBase64, s)
    if ex is not None:
        c.fail('base64 text cannot be decoded')
    c.check(c.eq(back, b), 'base64 decoding returns the bytes')


def h_b64bad(c):
    """Any text: decoding returns bytes or raises ValueError."""
    ou = c.mod('openid.oidutil')
    s = c.text('s', c.params['n'])
    r, ex = c.attempt(ou.fromBase64, s)
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'malformed base64 raises only value errors')
    else:
        c.check(isinstance(r, bytes), 'decoding gives bytes')
    # well-formed, unpadded text of a multiple of four characters is always accepted
    if len(s) % 4 == 0:
        if c.all_chars(s, 'A-Za-z0-9+/'):
            c.check(c.And(ex is None, c.eq(ou.toBase64(r) if ex is None else '', s)), 'canonical base64 is accepted and canonical')
    elif c.all_chars(s, 'A-Za-z0-9+/'):
        c.check(ex is not None, 'base64 of impossible length is refused')


def h_xor(c):
    dh = c.mod('openid.dh')
    a = c.bin('a', c.params['n'])
    b = c.bin('b', c.params['n'])
    r, ex = c.attempt(dh.strxor, a, b)
    if len(a) != len(b):
        c.check(isinstance(ex, ValueError), 'strings of different length are refused')
        return
    if ex is not None:
        c.fail('XOR of equally long strings raises')
    c.check(len(r) == len(a), 'XOR keeps the length')
    c.check(c.And([r[i] == (a[i] ^ b[i]) for i in range(len(a))]), 'XOR is bitwise')
    back, ex = c.attempt(dh.strxor, r, b)
    c.check(ex is None and c.eq(back, a), 'XOR undoes itself')


HARNESSES = {
    'int': dict(fn=h_int, quick=[dict(bits=b) for b in (1, 8, 16, 24, 64)], thorough=[dict(bits=b) for b in (8, 16, 33, 64, 128, 160, 256)],
                bounds='all integers below 2^64 (quick) / 2^256 (thorough)'),
    'int64': dict(fn=h_int64, quick=[dict(bits=b) for b in (8, 24, 48)], thorough=[dict(bits=b) for b in (24, 64, 128)],
                  bounds='all integers below 2^48 (quick) / 2^128 (thorough)'),
    'bytes': dict(fn=h_bytes, quick=[dict(n=n) for n in range(1, 9)], thorough=[dict(n=n) for n in range(1, 25)],
                  bounds='all byte strings of 1-8 / 1-24 bytes'),
    'b64': dict(fn=h_b64, quick=[dict(n=n) for n in (0, 1, 2, 3, 4, 5, 20, 32)], thorough=[dict(n=n) for n in range(0, 34)],
                bounds='all byte strings of 0-5, 20 and 32 bytes (quick), 0-33 (thorough)'),
    'b64bad': dict(fn=h_b64bad, quick=[dict(n=4)], thorough=[dict(n=6)], bounds='all texts up to 4 / 6 characters'),
    'xor': dict(fn=h_xor, quick=[dict(n=4)], thorough=[dict(n=8)], bounds='all pairs of byte strings up to 4 / 8 bytes'),
}
