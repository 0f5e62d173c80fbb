"""Symbolic decimal numbers: stand for the floats of short decimal texts.

A value is n / 10**k with n an integer (term) and k concrete.  Comparisons and
sums are exact; binary rounding of floats with up to three decimals does not
change how they compare, and nothing else is computed from them here."""
import z3
from . import core
from .core import SymInt, SymBool, Incomplete, ch_eq, ch_in_ranges, text_cells


def of(x):
    """(n, k) of a number, None if it has none."""
    t = type(x)
    if t is SymDec:
        return x.n, x.k
    if t in (int, SymInt):
        return x, 0
    if t is bool:
        return int(x), 0
    if t is float:
        r = repr(x)
        if 'e' in r or 'n' in r:
            return None
        a, b = r.split('.')
        return int(a + b), len(b)
    return None


class SymDec(object):
    __slots__ = ('n', 'k')

    def __init__(self, n, k):
        self.n, self.k = n, k

    @property
    def __class__(self):
        return float

    def _two(self, o):
        if type(o) is float and o in (float('inf'), float('-inf')):
            return 0, (1 if o > 0 else -1)
        p = of(o)
        if p is None:
            return None
        m, j = p
        k = max(self.k, j)
        return self.n * 10 ** (k - self.k), m * 10 ** (k - j), k

    def _cmp(self, o, f):
        p = self._two(o)
        if p is None:
            return NotImplemented
        return f(p[0], p[1])

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self.n != 0)

    def __hash__(self):
        raise Incomplete('hash of a decimal')

    def __neg__(self):
        return SymDec(-self.n, self.k)

    def __abs__(self):
        return -self if bool(self.n < 0) else self

    def __add__(self, o):
        p = self._two(o)
        if p is None or len(p) == 2:
            raise Incomplete('decimal arithmetic')
        return SymDec(p[0] + p[1], p[2])

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        p = of(o)
        if p is None:
            raise Incomplete('decimal arithmetic')
        return SymDec(self.n * p[0], self.k + p[1])

    __rmul__ = __mul__

    def __float__(self):
        raise Incomplete('float of a decimal')

    __int__ = __index__ = __truediv__ = __rtruediv__ = __float__

    def __repr__(self):
        return 'SymDec(%r, %d)' % (self.n, self.k)


def rounded(x, prec):
    """Nearest value with that many decimals; what happens half way depends on the binary value."""
    m = 10 ** (x.k - prec)
    neg = bool(x.n < 0)
    a = -x.n if neg else x.n
    q, r = a // m, a % m
    if bool(r * 2 == m):
        raise Incomplete('rounding half way between two decimals')
    if bool(r * 2 > m):
        q = q + 1
    return SymDec(-q if neg else q, prec)


def truncated(x):
    """int(x)"""
    m = 10 ** x.k
    return -((-x.n) // m) if bool(x.n < 0) else x.n // m


def fixed(x, prec, int_to_str):
    """'%.<prec>f' % x for values with at most that many decimals."""
    if x.k > prec:
        x = rounded(x, prec)
    n = x.n * 10 ** (prec - x.k)
    s = ''
    if n < 0:
        s, n = '-', -n
    a = int_to_str(n // 10 ** prec) if type(n) is SymInt else str(n // 10 ** prec)
    if not prec:
        return s + a
    f = n % 10 ** prec
    out = ''
    for i in reversed(range(prec)):
        d = (f // 10 ** i) % 10
        out = out + '.'[:0] + (int_to_str(d) if type(d) is SymInt else str(d))
    return s + a + '.' + out


SPECIAL = ''.join(set('infinityeEINFTYnaAN_'))


def parse(s, fallback, digits_value):
    """float(text)"""
    s = s.strip()
    err = ValueError('could not convert string to float')
    if type(s) is str:
        return float(s)
    cs = list(text_cells(s))
    sign = 1
    for c in cs:
        if not ch_in_ranges(c, ((0, 127),)):
            return fallback(s)
        for x in sorted(set(SPECIAL)) if len(cs) > 2 else ():
            if bool(ch_eq(c, ord(x))):
                return fallback(s)
    if cs and bool(ch_eq(cs[0], 45)):
        sign, cs = -1, cs[1:]
    elif cs and bool(ch_eq(cs[0], 43)):
        cs = cs[1:]
    ds, k, dot = [], 0, False
    for c in cs:
        if not dot and bool(ch_eq(c, 46)):
            dot = True
            continue
        if not ch_in_ranges(c, ((48, 57),)):
            raise err
        ds.append(c)
        k += dot
    if not ds:
        raise err
    n = core.mkint(digits_value(ds))
    if type(n) is SymInt and sign < 0:
        n = -n
    elif sign < 0:
        n = -n
    return SymDec(n, k)
