"""Models of code outside the repository (C extensions, clock, randomness,
keyed hashes) for symbolic arguments."""
import base64
import binascii
import calendar
import codecs
import copy
import hashlib
import hmac as _hmac
import io
import os
import random
import re
import time
import types
import warnings
import logging
import urllib.parse as _up

import z3

from . import core, rt, regex
from .core import (Engine, SymStr, SymBytes, SymInt, SymBool, SymByteArray, mkstr, mkbytes, mkch, mkint, Ch, ch_eq, ch_in_ranges,
                   And, Or, Not, Incomplete, byte_cells, text_cells, concretize, mask_of)
from .containers import SymDict, eq
from .rt import MODELS, SYM_MODELS, model, lift

regex.install(rt)

# ---------------------------------------------------------------- quiet
MODELS[warnings.warn] = lambda *a, **k: None


# ---------------------------------------------------------------- base64
_B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
_B64MASK = mask_of(_B64)


def _sext_cell(six):
    """base64 character (8-bit) of a 6-bit term."""
    z = z3.ZeroExt(2, six)
    return mkch(z3.If(z3.ULT(z, 26), z + 65, z3.If(z3.ULT(z, 52), z + 71, z3.If(z3.ULT(z, 62), z - 4,
                z3.If(z == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8))))), s=_B64MASK, o=six)


def _bv(c):
    return z3.BitVecVal(c, 8) if type(c) is int else c.e


_b64_inv = {}


def _unsext(c):
    """6-bit value of a base64 character cell (8-bit)."""
    if type(c) is int:
        return z3.BitVecVal(_B64.index(chr(c)), 6)
    if c.o is not None:
        return c.o
    e = c.e
    v = z3.If(z3.UGE(e, 97), e - 71, z3.If(z3.UGE(e, 65), e - 65, z3.If(z3.UGE(e, 48), e + 4,
              z3.If(e == 43, z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))
    return z3.simplify(z3.Extract(5, 0, v))


def b64_cells(cs):
    out = []
    for i in range(0, len(cs), 3):
        ch = cs[i:i + 3]
        n = len(ch)
        bits = z3.Concat([_bv(c) for c in ch] + [z3.BitVecVal(0, 8)] * (3 - n))
        for k in range(n + 1):
            six = z3.simplify(z3.Extract(23 - 6 * k, 18 - 6 * k, bits))
            if z3.is_bv_value(six):
                out.append(ord(_B64[six.as_long()]))
            else:
                c = _sext_cell(six)
                out.append(c)
        out.extend([61] * (3 - n))
    g = core.whole_group(cs)
    if g is not None:
        k = len(out)
        while out[k - 1] == 61:
            k -= 1
        core.set_group(out[:k], 'b64:' + g[0], g[1])
    return out


@model(binascii.b2a_base64)
def _b2a_base64(data, newline=True):
    return mkbytes(b64_cells(byte_cells(data)) + ([10] if newline else []))


_NARROW = {}


def _narrow(c):
    """8-bit cell of an ASCII text cell, keeping the base64 provenance."""
    if type(c) is int:
        return c
    e = c.e
    if e.size() == 8:
        return c
    x = z3.simplify(z3.Extract(7, 0, e))
    return core.recast(c, x)


@model(binascii.a2b_base64)
def _a2b_base64(s, strict_mode=False):
    if isinstance(s, str):
        cs = text_cells(s)
        for c in cs:
            if not ch_in_ranges(c, ((0, 127),)):
                raise ValueError('string argument should contain only ASCII characters')
        cs = [_narrow(c) for c in cs]
    else:
        cs = byte_cells(s)
    alpha = ((43, 43), (47, 57), (65, 90), (97, 122))
    out, quad, left, pads = [], 0, None, 0
    for i, c in enumerate(cs):
        if bool(ch_eq(c, 61)):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    quad = 0
                    break
            if strict_mode:
                raise Incomplete('strict base64')
            continue
        if not ch_in_ranges(c, alpha):
            if strict_mode:
                raise binascii.Error('Only base64 data is allowed')
            continue
        pads = 0
        v = _unsext(c)
        if quad == 0:
            left, quad = v, 1
        elif quad == 1:
            out.append(mkch(z3.Concat(left, z3.Extract(5, 4, v))))
            left, quad = v, 2
        elif quad == 2:
            out.append(mkch(z3.Concat(z3.Extract(3, 0, left), z3.Extract(5, 2, v))))
            left, quad = v, 3
        else:
            out.append(mkch(z3.Concat(z3.Extract(1, 0, left), v)))
            left, quad = None, 0
    else:
        if quad != 0:
            if quad == 1:
                raise binascii.Error('Invalid base64-encoded string: number of data characters cannot be 1 more than a multiple of 4')
            raise binascii.Error('Incorrect padding')
    return mkbytes(out)


@model(base64.b64encode)
def _b64encode(s, altchars=None):
    if altchars is not None:
        raise Incomplete('altchars')
    return mkbytes(b64_cells(byte_cells(s)))


MODELS_b64std = SYM_MODELS[base64.standard_b64encode] = _b64encode


@model(base64.b64decode)
def _b64decode(s, altchars=None, validate=False):
    if altchars is not None:
        raise Incomplete('altchars')
    if isinstance(s, str):
        for c in text_cells(s):
            if not ch_in_ranges(c, ((0, 127),)):
                raise ValueError('string argument should contain only ASCII characters')
    if validate:
        return _a2b_base64(s, strict_mode=True)
    return _a2b_base64(s)


SYM_MODELS[base64.standard_b64decode] = _b64decode


@model(binascii.hexlify)
def _hexlify(b, *a):
    if a:
        raise Incomplete('hexlify separator')
    return lift(b).hex().encode('ascii')


SYM_MODELS[binascii.b2a_hex] = _hexlify


@model(binascii.unhexlify)
def _unhexlify(s):
    return mkbytes(rt._fromhex(s if isinstance(s, str) else s.decode('latin-1')))


SYM_MODELS[binascii.a2b_hex] = _unhexlify


@model(codecs.encode)
def _codecs_encode(obj, encoding='utf-8', errors='strict'):
    if encoding in ('hex', 'hex_codec'):
        return _hexlify(obj)
    if encoding in ('base64', 'base64_codec'):
        raise Incomplete('base64 codec')
    return obj.encode(encoding, errors)


@model(codecs.decode)
def _codecs_decode(obj, encoding='utf-8', errors='strict'):
    if encoding in ('hex', 'hex_codec'):
        return _unhexlify(obj)
    return obj.decode(encoding, errors)


# ---------------------------------------------------------------- hashes
def uf(kind, args, outlen, real=None):
    """Ideal (collision-free) function of byte strings: equal results exactly
    for equal arguments."""
    en = Engine.cur
    tab = en.state.setdefault('uf', [])
    cells = [list(byte_cells(a)) for a in args]
    for k2, c2, out2 in tab:
        if k2 == kind and len(c2) == len(cells) and all(
                len(a) == len(b) and all((x is y) or (type(x) is int and type(y) is int and x == y) or
                                         (type(x) is Ch and type(y) is Ch and x.e.get_id() == y.e.get_id())
                                         for x, y in zip(a, b)) for a, b in zip(cells, c2)):
            return mkbytes(list(out2))
    if real is not None and all(type(c) is int for a in cells for c in a):
        out = list(real())
    else:
        nm = en.name('uf_' + kind)
        out = [core.new_char('%s.%d' % (nm, i), ((0, 255),), 8) for i in range(outlen)]
    for k2, c2, out2 in tab:
        if k2 != kind or len(c2) != len(cells):
            continue
        same = And([core.cells_eq(a, b) for a, b in zip(cells, c2)])
        so = core.cells_eq(out, out2)
        if same is False:
            c = Not(so)
        else:
            c = core.Iff(same, so)
        sb = core.as_symbool(c)
        if sb.e is not core._ZT:
            en.add(sb.e)
            for v in core.expr_vars(sb.e):
                en.linked.add(v)
    tab.append((kind, cells, out))
    core.set_group(out, kind, tuple(cells))
    return mkbytes(list(out))


_SIZES = {'sha1': 20, 'sha256': 32, 'md5': 16, 'sha512': 64, 'sha224': 28, 'sha384': 48}


def _dname(d):
    if isinstance(d, str):
        return d.lower().replace('-', '')
    n = getattr(d, 'name', None)
    if isinstance(n, str):
        return n.lower().replace('-', '')
    n = getattr(d, '__name__', None)
    if n:
        return n.replace('openssl_', '').lower()
    raise Incomplete('digest')


class HMACModel(object):
    """cryptography's HMAC and the standard library's."""

    def __init__(self, key, algorithm=None, backend=None, data=b''):
        if not isinstance(key, (bytes, bytearray)):
            raise TypeError('key must be bytes-like')
        self.key, self.alg = key, algorithm
        self.n = _dname(algorithm)
        self.data = data

    def update(self, d):
        if not isinstance(d, (bytes, bytearray)):
            raise TypeError('data must be bytes.')
        self.data = self.data + d

    def copy(self):
        return HMACModel(self.key, self.alg, None, self.data)

    def finalize(self):
        key, data = self.key, self.data
        return uf('hmac-' + self.n, [key, data], _SIZES[self.n],
                  lambda: _hmac.new(bytes(key), bytes(data), self.n).digest())

    digest = finalize

    def hexdigest(self):
        return lift(self.finalize()).hex()

    def verify(self, sig):
        from cryptography.exceptions import InvalidSignature
        if not (lift(self.finalize()) == sig):
            raise InvalidSignature('Signature did not match digest.')


class HashModel(object):
    def __init__(self, algorithm, backend=None, data=b''):
        self.alg = algorithm
        self.n = _dname(algorithm)
        self.name = self.n
        self.digest_size = _SIZES[self.n]
        self.data = data

    def update(self, d):
        if not isinstance(d, (bytes, bytearray)):
            raise TypeError('Strings must be encoded before hashing')
        self.data = self.data + d

    def copy(self):
        return HashModel(self.alg, None, self.data)

    def finalize(self):
        data = self.data
        return uf('hash-' + self.n, [data], self.digest_size, lambda: hashlib.new(self.n, bytes(data)).digest())

    digest = finalize

    def hexdigest(self):
        return lift(self.finalize()).hex()


def _hm_new(key, msg=None, digestmod=''):
    return HMACModel(key, digestmod, None, msg if msg is not None else b'')


MODELS[_hmac.new] = _hm_new
MODELS[_hmac.HMAC] = _hm_new
MODELS[_hmac.digest] = lambda key, msg, digest: HMACModel(key, digest, None, msg).finalize()


def _cmpd(a, b):
    if isinstance(a, str) and isinstance(b, str):
        for c in list(text_cells(a)) + list(text_cells(b)):
            if not ch_in_ranges(c, ((0, 127),)):
                raise TypeError('comparing strings with non-ASCII characters is not supported')
    elif not (isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray))):
        raise TypeError('unsupported operand types')
    return lift(a) == b


MODELS[_hmac.compare_digest] = _cmpd


def _hashlib_model(n):
    def f(data=b'', usedforsecurity=True, string=None):
        if isinstance(data, str):
            raise TypeError('Strings must be encoded before hashing')
        return HashModel(n, None, data)
    return f


for _n in ('sha1', 'sha256', 'md5', 'sha512'):
    MODELS[getattr(hashlib, _n)] = _hashlib_model(_n)
MODELS[hashlib.new] = lambda n, data=b'', **k: _hashlib_model(n.lower())(data)


def install_cryptography():
    from cryptography.hazmat.primitives.hmac import HMAC
    from cryptography.hazmat.primitives import hashes, constant_time
    MODELS[HMAC] = lambda key, algorithm, backend=None, ctx=None: HMACModel(key, algorithm)
    MODELS[hashes.Hash] = lambda algorithm, backend=None, ctx=None: HashModel(algorithm)

    def bytes_eq(a, b):
        if not isinstance(a, bytes) or not isinstance(b, bytes):
            raise TypeError('a and b must be bytes.')
        return lift(a) == b
    MODELS[constant_time.bytes_eq] = bytes_eq


install_cryptography()


# ---------------------------------------------------------------- environment
class Env(object):
    """Clock and randomness; the harness context installs itself here."""
    ctx = None


def _now():
    return Env.ctx.now()


MODELS[time.time] = lambda: _now()
MODELS[os.urandom] = lambda n: Env.ctx.urandom(core._idx(n))


class FakeRandom(object):
    def __init__(self, seed=None):
        pass

    def choice(self, seq):
        return Env.ctx.rand_choice(seq)

    def choices(self, seq, weights=None, k=1):
        return [Env.ctx.rand_choice(seq) for _ in range(k)]

    def sample(self, seq, k):
        return [Env.ctx.rand_choice(seq) for _ in range(k)]

    def shuffle(self, xs):
        Env.ctx.rand_shuffle(xs)

    def randrange(self, a, b=None):
        lo, hi = (0, a) if b is None else (a, b)
        return Env.ctx.rand_int(lo, hi - 1)

    def randint(self, a, b):
        return Env.ctx.rand_int(a, b)

    def random(self):
        raise Incomplete('random()')


_fr = FakeRandom()
MODELS[random.SystemRandom] = FakeRandom
MODELS[random.Random] = FakeRandom
for _n in ('choice', 'choices', 'sample', 'shuffle', 'randrange', 'randint', 'random'):
    MODELS[getattr(random, _n)] = getattr(_fr, _n)
try:
    import secrets
    MODELS[secrets.choice] = _fr.choice
    MODELS[secrets.token_bytes] = lambda n=32: Env.ctx.urandom(n)
except ImportError:
    pass


class SymTime(object):
    """struct_time of a symbolic moment: fields are symbolic integers."""

    def __init__(self, fields, epoch=None):
        self.f, self.epoch = fields, epoch
        (self.tm_year, self.tm_mon, self.tm_mday, self.tm_hour, self.tm_min, self.tm_sec) = fields

    def __getitem__(self, k):
        full = tuple(self.f) + (0, 1, 0)
        return full[k]

    def __len__(self):
        return 9

    def __iter__(self):
        return iter(tuple(self.f) + (0, 1, 0))


def _zi(x):
    return x.i if type(x) is SymInt else z3.IntVal(x)


_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def epoch_expr(y, mo, d, h, mi, s):
    """Seconds since 1970 of civil UTC fields (z3 Int terms)."""
    cum = z3.IntVal(_CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(mo == k + 1, _CUM[k], cum)
    days = 365 * (y - 1970) + (y - 1969) / 4 - (y - 1901) / 100 + (y - 1601) / 400 + cum \
        + z3.If(z3.And(leap(y), mo > 2), 1, 0) + d - 1
    return ((days * 24 + h) * 60 + mi) * 60 + s


def dim_expr(y, mo):
    r = z3.IntVal(31)
    for k in range(10, -1, -1):
        v = z3.IntVal(_DIM[k])
        if k == 1:
            v = z3.If(leap(y), 29, 28)
        r = z3.If(mo == k + 1, v, r)
    return r


def _gmtime(t=None):
    if t is None:
        t = _now()
    if type(t) is not SymInt:
        return time.gmtime(t)
    en = Engine.cur
    memo = en.state.setdefault('gmtime', {})
    if t.i.get_id() in memo:
        return memo[t.i.get_id()]
    nm = en.name('tm')
    y, mo, d, h, mi, s = [z3.Int('%s.%s' % (nm, k)) for k in ('y', 'mo', 'd', 'h', 'mi', 's')]
    en.add(z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= dim_expr(y, mo), h >= 0, h <= 23,
                  mi >= 0, mi <= 59, s >= 0, s <= 59, t.i == epoch_expr(y, mo, d, h, mi, s)))
    r = SymTime(tuple(SymInt(x) for x in (y, mo, d, h, mi, s)), t)
    memo[t.i.get_id()] = r
    en.state.setdefault('tm_epoch', {})[tuple(x.i.get_id() for x in r.f)] = t
    en.keep.append(t.i)
    en.keep.append(r.f)
    return r


MODELS[time.gmtime] = _gmtime


def _strftime(fmt, t=None):
    if t is None:
        raise Incomplete('strftime of local time')
    if type(t) is not SymTime:
        if rt.has_sym(t):
            t = SymTime(tuple(t)[:6])
        else:
            return time.strftime(fmt, t)
    en = Engine.cur
    out, i = [], 0
    while i < len(fmt):
        c = fmt[i]
        if c == '%':
            k = fmt[i + 1]
            i += 2
            fld, n = {'Y': (0, 4), 'm': (1, 2), 'd': (2, 2), 'H': (3, 2), 'M': (4, 2), 'S': (5, 2)}.get(k, (None, 0))
            if fld is None:
                if k == '%':
                    out.append(37)
                    continue
                raise Incomplete('strftime %' + k)
            v = t.f[fld]
            if type(v) is int:
                out.extend(ord(x) for x in ('%0*d' % (n if k != 'Y' else 1, v)))
                continue
            if k == 'Y' and not (v >= 1000):
                raise Incomplete('strftime of years before 1000')
            key = ('strf', v.i.get_id(), n)
            memo = en.state.setdefault('digits', {})
            if key not in memo:
                nm = en.name('dig')
                cs = [core.new_char('%s.%d' % (nm, j), ((48, 57),)) for j in range(n)]
                en.add(v.i == rt.digits_value(cs))
                for q in cs:
                    en.linked.add(q.v)
                en.keep.append(v.i)
                memo[key] = cs
                en.keep.append([q.e for q in cs])
                en.state.setdefault('digits_of', {})[tuple(q.e.get_id() for q in cs)] = v
            out.extend(memo[key])
        else:
            out.append(ord(c))
            i += 1
    return mkstr(out)


MODELS[time.strftime] = _strftime


def _strptime(s, fmt='%a %b %d %H:%M:%S %Y'):
    if type(s) is not SymStr:
        if not isinstance(s, str):
            raise TypeError('strptime() argument 0 must be str, not %s' % type(s))
        return time.strptime(s, fmt)
    import _strptime as sp
    r = sp._TimeRE_cache.compile(fmt)
    m = regex.M(r, s).match(0)
    if m is None:
        raise ValueError('time data does not match format')
    if m.end() != len(s):
        raise ValueError('unconverted data remains')
    f = {'Y': 1900, 'm': 1, 'd': 1, 'H': 0, 'M': 0, 'S': 0}
    for k, v in m.groupdict().items():
        if k not in f:
            raise Incomplete('strptime %' + k)
        f[k] = rt.parse_int(v)
    y, mo, d = _zi(f['Y']), _zi(f['m']), _zi(f['d'])
    ok = core.mkbool(z3.And(y >= 1, d <= dim_expr(y, mo)))
    if not ok:
        raise ValueError('day is out of range for month')
    fs = (f['Y'], f['m'], f['d'], f['H'], f['M'], f['S'])
    if all(type(x) is SymInt for x in fs):
        ep = Engine.cur.state.get('tm_epoch', {}).get(tuple(x.i.get_id() for x in fs))
        if ep is not None:
            return SymTime(fs, ep)
    return SymTime(fs)


MODELS[time.strptime] = _strptime


def _timegm(t):
    if type(t) is SymTime:
        if t.epoch is not None:
            return t.epoch
        return mkint(epoch_expr(*[_zi(x) for x in t.f]))
    if rt.has_sym(t):
        return mkint(epoch_expr(*[_zi(x) for x in tuple(t)[:6]]))
    return calendar.timegm(t)


MODELS[calendar.timegm] = _timegm

# ---------------------------------------------------------------- files in memory
class BytesFile(object):
    """io.BytesIO with symbolic content."""

    def __init__(self, initial=b''):
        self.cs = list(core.byte_cells(initial))
        self.pos = 0
        self.closed = False

    def write(self, b):
        cs = core.byte_cells(b)
        if self.pos > len(self.cs):
            self.cs.extend([0] * (self.pos - len(self.cs)))
        self.cs[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        return len(cs)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = max(0, pos + (0, self.pos, len(self.cs))[whence])
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.cs[n:]
        return n

    def getvalue(self):
        return core.mkbytes(list(self.cs))

    def read(self, n=-1):
        end = len(self.cs) if n is None or n < 0 else self.pos + n
        r = self.cs[self.pos:end]
        self.pos += len(r)
        return core.mkbytes(r)

    def readline(self, n=-1):
        i = self.pos
        while i < len(self.cs) and (n is None or n < 0 or i < self.pos + n):
            x = self.cs[i]
            i += 1
            if bool(core.mkbytes([x]) == b'\n'):
                break
        r = self.cs[self.pos:i]
        self.pos = i
        return core.mkbytes(r)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not len(r):
            raise StopIteration
        return r

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


MODELS[io.BytesIO] = BytesFile


# ---------------------------------------------------------------- urllib
UP = rt.instrumented_copy('urllib.parse', 'symx_urllib_parse')


def _quote_bytes(bs, safe):
    safe_set = set(_up._ALWAYS_SAFE) | set(safe)
    rs = tuple((x, x) for x in sorted(safe_set))
    out = []
    for c in byte_cells(bs):
        if bool(ch_in_ranges(c, rs)):
            out.append(c if type(c) is int else core.recast(c, z3.ZeroExt(core.CW - 8, c.e)))
        else:
            out.append(37)
            out.extend(rt.core.hex_cells(c, True))
    return mkstr(out)


def quote(string, safe='/', encoding=None, errors=None):
    if isinstance(string, str):
        if not string:
            return string
        string = lift(string).encode(encoding or 'utf-8', errors or 'strict')
    elif encoding is not None or errors is not None:
        raise TypeError('quote() does not support encoding for bytes')
    return quote_from_bytes(string, safe)


def quote_from_bytes(bs, safe='/'):
    if not isinstance(bs, (bytes, bytearray)):
        raise TypeError('quote_from_bytes() expected bytes')
    if isinstance(safe, str):
        safe = concretize(safe, 'safe').encode('ascii', 'ignore') if type(safe) is SymStr else safe.encode('ascii', 'ignore')
    else:
        safe = bytes(c for c in safe if c < 128)
    return _quote_bytes(bs, safe)


def quote_plus(string, safe='', encoding=None, errors=None):
    space = ' ' if isinstance(safe, str) else b' '
    if isinstance(string, bytes):
        if type(string) is not SymBytes and b' ' not in string:
            return quote(string, safe)
    r = quote(string, safe + space, encoding, errors)
    return lift(r).replace(' ', '+') if r else r


def unquote_to_bytes(s):
    if not s:
        return b''
    if isinstance(s, str):
        s = lift(s).encode('utf-8')
    cs = byte_cells(s)
    out, i = [], 0
    while i < len(cs):
        c = cs[i]
        if bool(ch_eq(c, 37)) and i + 2 < len(cs):
            ok1, v1 = core.hexval(cs[i + 1])
            ok2, v2 = core.hexval(cs[i + 2])
            if v1 is not None and v2 is not None and And(ok1, ok2):
                b1 = z3.BitVecVal(v1, 4) if type(v1) is int else v1
                b2 = z3.BitVecVal(v2, 4) if type(v2) is int else v2
                out.append(mkch(z3.Concat(b1, b2)))
                i += 3
                continue
        out.append(c)
        i += 1
    return mkbytes(out)


def unquote(string, encoding='utf-8', errors='replace'):
    if isinstance(string, bytes):
        return lift(unquote_to_bytes(string)).decode(encoding or 'utf-8', errors or 'replace')
    if '%' not in string if type(string) is str else not any(bool(ch_eq(c, 37)) for c in string.cs):
        return string
    encoding, errors = encoding or 'utf-8', errors or 'replace'
    out, run = [], []

    def flush():
        if run:
            b = unquote_to_bytes(mkstr(list(run)))
            out.extend(text_cells(lift(b).decode(encoding, errors)))
            del run[:]
    for c in text_cells(string):
        if bool(ch_in_ranges(c, ((0, 127),))):
            run.append(c)
        else:
            flush()
            out.append(c)
    flush()
    return mkstr(out)


def unquote_plus(string, encoding='utf-8', errors='replace'):
    return unquote(lift(string).replace('+', ' '), encoding, errors)


for _n, _f in (('quote', quote), ('quote_plus', quote_plus), ('quote_from_bytes', quote_from_bytes), ('unquote', unquote),
               ('unquote_plus', unquote_plus), ('unquote_to_bytes', unquote_to_bytes)):
    SYM_MODELS[getattr(_up, _n)] = _f
    SYM_MODELS[getattr(UP, _n)] = _f
    setattr(UP, _n, _f)

for _n, _f in list(vars(_up).items()):
    if type(_f) is types.FunctionType and _f not in SYM_MODELS and type(getattr(UP, _n, None)) is types.FunctionType:
        SYM_MODELS[_f] = getattr(UP, _n)
SYM_MODELS[_up.urlsplit] = UP.urlsplit           # lru_cache wrappers are not plain functions
MODELS[_up.urlsplit] = lambda *a, **k: (UP.urlsplit if rt._any_sym(a, k) else _up.urlsplit)(*a, **k)
for _n in ('_splitparams', '_coerce_args'):
    pass


@model(copy.deepcopy, True)
def _deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


# os.path on symbolic text
def _opj(a, *ps):
    path = a
    for p in ps:
        if lift(p).startswith('/') if len(p) else False:
            path = p
        elif not path or (lift(path).endswith('/')):
            path = path + p
        else:
            path = path + '/' + p
    return path


SYM_MODELS[os.path.join] = _opj
SYM_MODELS[os.path.basename] = lambda p: lift(p).rpartition('/')[2]
SYM_MODELS[memoryview] = lambda b: b


# html
import xml.sax.saxutils as _sx


def _sx_escape(data, entities={}):
    for a, b in (('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;')):
        data = lift(data).replace(a, b)
    for a, b in (entities.items() if entities else ()):
        data = lift(data).replace(a, b)
    return data


SYM_MODELS[_sx.escape] = _sx_escape
import html as _html


def _html_escape(s, quote=True):
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')):
        s = lift(s).replace(a, b)
    if quote:
        s = lift(lift(s).replace('"', '&quot;')).replace("'", '&#x27;')
    return s


SYM_MODELS[_html.escape] = _html_escape
import unicodedata


def _normalize(form, s):
    for c in text_cells(s):
        if not ch_in_ranges(c, ((0, 127),)):
            return unicodedata.normalize(form, concretize(s, 'unicodedata.normalize'))
    return s


SYM_MODELS[unicodedata.normalize] = _normalize
