"""Runtime that the instrumented code calls, plus the AST instrumentation."""
import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import operator
import os
import re
import sys
import types
import collections

import z3

from . import core
from .core import (Engine, SymStr, SymBytes, SymInt, SymBool, SymByteArray, SymSeq, mkstr, mkbytes, mkint,
                   concretize, text_cells, byte_cells, byte_cell, And, Or, Not, Incomplete, ch_in_ranges, ch_eq,
                   PathAbort)
from .containers import SymDict, SymSet, SymView, eq, key_sym

from . import dec
from .dec import SymDec

SYM = (SymStr, SymBytes, SymInt, SymBool, SymByteArray, SymDec)
_SYMSET = frozenset(SYM)


def has_sym(x, depth=4):
    t = type(x)
    if t in _SYMSET:
        return True
    if depth == 0:
        return False
    if t in (str, int, bytes, bool, type(None), float):
        return False
    if t in (list, tuple, set, frozenset) or (isinstance(x, tuple)):
        for y in x:
            if has_sym(y, depth - 1):
                return True
        return False
    if t is dict:
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
        return False
    if t is SymDict:
        return has_sym(x.ks, depth - 1) or has_sym(x.vs, depth - 1)
    if t is SymSet:
        return has_sym(x.d.ks, depth - 1)
    if t is SymView:
        return has_sym(list(x), depth - 1)
    return False


def deep_conc(x, why):
    """Concrete copy of x for code that is not encoded."""
    t = type(x)
    if t in _SYMSET:
        return concretize(x, why)
    if t is list:
        return [deep_conc(y, why) for y in x]
    if t is tuple:
        return tuple(deep_conc(y, why) for y in x)
    if t is SymDict or t is dict:
        return {deep_conc(k, why): deep_conc(v, why) for k, v in x.items()}
    if t is SymSet:
        r = {deep_conc(k, why) for k in x}
        return frozenset(r) if x.frozen else r
    if t is SymView:
        return [deep_conc(y, why) for y in x]
    return x


def plain(x):
    """Replace engine containers by builtin ones where no symbolic keys occur."""
    t = type(x)
    if t is SymDict:
        return {plain(k): plain(v) for k, v in x.items()}
    if t is SymSet:
        return (frozenset if x.frozen else set)(plain(k) for k in x)
    if t is SymView:
        return [plain(y) for y in x]
    if t is list:
        return [plain(y) for y in x]
    if t is tuple:
        return tuple(plain(y) for y in x)
    return x


# ---------------------------------------------------------------- text conv
def sym_str(x):
    """str(x) for symbolic x."""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return 'True' if x else 'False'
    if t in (SymBytes, SymByteArray, SymDec):
        return sym_repr(x)
    if isinstance(x, BaseException) and not isinstance(x, KeyError):
        if type(x).__str__ in (BaseException.__str__, Exception.__str__):
            if len(x.args) == 0:
                return ''
            if len(x.args) == 1:
                return to_str(x.args[0])
            return sym_repr(x.args)
    f = getattr(t, '__str__', None)
    if f is not None and isinstance(f, types.FunctionType):
        r = f(x)
        if not isinstance(r, str):
            raise TypeError('__str__ returned non-string')
        return r
    f = getattr(t, '__repr__', None)
    if f is not None and isinstance(f, types.FunctionType) and t.__str__ is object.__str__:
        return f(x)
    if has_sym(x):
        return sym_repr(x)
    return str(plain(x))


to_str = sym_str


def _shown(c):
    if type(c) is int:
        return 92 if c < 32 or c == 127 else c
    if c.s is not None and not c.s & (0xffffffff | (1 << 127)):
        return c
    w = c.e.size()
    return core.mkch(z3.If(z3.Or(z3.ULT(c.e, 32), c.e == 127), z3.BitVecVal(92, w), c.e))


def sym_repr(x):
    """repr(x): only used in diagnostics; symbolic text is shown unescaped,
    control characters as a single backslash."""
    t = type(x)
    if t is SymStr:
        return mkstr([39] + [_shown(c) for c in x.cs] + [39])
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return 'True' if x else 'False'
    if t is SymDec:
        return dec.fixed(x, max(x.k, 1), int_to_str)
    if t in (SymBytes, SymByteArray):
        return repr(x)
    if t in (list, tuple, SymView):
        xs = list(x)
        o, c = ('[', ']') if t is list else ('(', ',)' if len(xs) == 1 else ')')
        out = []
        for k, y in enumerate(xs):
            if k:
                out.append(', ')
            out.append(sym_repr(y))
        return join('', [o] + out + [c])
    if t in (SymDict, dict):
        out = []
        for k, y in x.items():
            if out:
                out.append(', ')
            out += [sym_repr(k), ': ', sym_repr(y)]
        return join('', ['{'] + out + ['}'])
    f = getattr(t, '__repr__', None)
    if f is not None and isinstance(f, types.FunctionType):
        return f(x)
    return repr(plain(x))


def int_to_str(x):
    """Decimal text of a symbolic integer: fresh digit characters tied to it."""
    en = Engine.cur
    if x < 0:
        return '-' + int_to_str(-x)
    n = 1
    while not (x < 10 ** n):
        n += 1
        if n > 24:
            raise Incomplete('decimal text of a large integer')
    memo = en.state.setdefault('digits', {})
    key = (x.i.get_id(), n)
    if key in memo:
        return memo[key]
    nm = en.name('dig')
    cs = [core.new_char('%s.%d' % (nm, i), ((48, 57),)) for i in range(n)]
    en.add(x.i == digits_value(cs))
    for c in cs:
        en.linked.add(c.v)
    for v in core.expr_vars(x.i):
        en.linked.add(v)
    en.keep.append(x.i)
    r = mkstr(cs)
    memo[key] = r
    return r


def digits_value(cs):
    n = len(cs)
    ts = []
    k = 0
    for i, c in enumerate(cs):
        p = 10 ** (n - 1 - i)
        if type(c) is int:
            k += (c - 48) * p
        else:
            ts.append((z3.BV2Int(c.e) - 48) * p)
    return z3.Sum(ts + [z3.IntVal(k)]) if ts else z3.IntVal(k)


def parse_int(s, base=10):
    """int(text, base) exactly as Python does for ASCII text."""
    if type(s) in (SymBytes, SymByteArray):
        s = s.decode('latin-1')
    elif type(s) in (bytes, bytearray):
        s = s.decode('latin-1')
    if type(s) is str:
        return int(s, base)
    base = base.__index__()
    s = s.strip()
    err = ValueError('invalid literal for int() with base %d' % base)
    cs = list(text_cells(s))
    if not cs:
        raise err
    if base in (10, 16) and Engine.cur is not None:
        made = Engine.cur.state.get('digits_of' if base == 10 else 'hex_of')
        if made:
            k = tuple(c if type(c) is int else c.e.get_id() for c in cs)
            if k in made:
                return made[k]
    neg = False
    if bool(ch_eq(cs[0], 45)):
        neg = True
        cs = cs[1:]
    elif bool(ch_eq(cs[0], 43)):
        cs = cs[1:]
    if not cs:
        raise err
    ds = []
    prev_us = True
    for c in cs:
        if bool(ch_eq(c, 95)):
            if prev_us:
                raise err
            prev_us = True
            continue
        if not ch_in_ranges(c, ((0, 127),)):
            c = core.concretize_ch(c, 'int() of non-ASCII')
            try:
                c = ord(str(int(chr(c))))
            except ValueError:
                raise err
        if base == 10:
            if not ch_in_ranges(c, ((48, 57),)):
                raise err
        elif base == 16:
            if not ch_in_ranges(c, ((48, 57), (65, 70), (97, 102))):
                raise err
        else:
            raise Incomplete('int() base %d' % base)
        ds.append(c)
        prev_us = False
    if prev_us:
        raise err
    if base == 16:
        parts = []
        for c in ds:
            v = core.hexval(c)[1]
            parts.append(z3.BitVecVal(v, 4) if type(v) is int else v)
        r = core.mkbv(z3.Concat(parts) if len(parts) > 1 else parts[0])
    else:
        r = mkint(digits_value(ds))
    return -r if neg else r


def fmt_int_hex(x, upper=False):
    """Hex digits (no padding) of a symbolic non-negative integer."""
    if type(x) is int:
        return ('%X' if upper else '%x') % x
    if x.bv is None:
        en = Engine.cur
        memo = en.state.setdefault('hexdigits', {})
        key = (x.i.get_id(), upper)
        if key in memo:
            return mkstr(list(memo[key]))
        if not (x >= 0):
            raise Incomplete('hex digits of a negative number')
        n = 1
        while not (x < 16 ** n):
            n += 1
        nm = en.name('hex')
        b = z3.BitVec(nm, 4 * n)
        en.add(x.i == z3.BV2Int(b))
        en.linked.add(nm)
        cells = [core.hex_digit_cell(z3.simplify(z3.Extract(4 * k + 3, 4 * k, b)), upper) for k in range(n - 1, -1, -1)]
        core.set_group(cells, 'hex%d' % upper, x)
        memo[key] = cells
        en.keep.append([x.i, b] + [c.e for c in cells])
        en.state.setdefault('hex_of', {})[tuple(c.e.get_id() for c in cells)] = x
        return mkstr(list(cells))
    w = x.bv.size()
    n = 1
    while 4 * n < w and not (x < 16 ** n):
        n += 1
    b = core.zext(x.bv, max(w, 4 * n))
    if n == 2 and x.v is not None and w == 8:
        return mkstr(core.hex_cells(core.Ch(x.bv, x.v, x.t), upper))
    return mkstr([core.hex_digit_cell(z3.simplify(z3.Extract(4 * k + 3, 4 * k, b)), upper) for k in range(n - 1, -1, -1)])


_FSPEC = re.compile(r'^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?(,)?(\.\d+)?([a-zA-Z%])?$')


def fmt_value(x, spec, conv=None):
    if conv in ('r', 'a'):
        x = sym_repr(x)
    elif conv == 's':
        x = to_str(x)
    if type(spec) is not str:
        spec = concretize(spec, 'format spec')
    if not has_sym(x):
        if type(x) in (SymDict, SymSet):
            x = plain(x)
        if spec == '' and not isinstance(x, (str, int, float, bytes)):
            return to_str(x)
        return format(x, spec)
    if type(x) is SymBool:
        return format(bool(x), spec)
    m = _FSPEC.match(spec)
    if not m:
        return format(deep_conc(x, 'format spec'), spec)
    fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
    if sign or alt or comma:
        return format(deep_conc(x, 'format spec'), spec)
    if type(x) is SymDec:
        if ty != 'f' or width:
            raise Incomplete('format of a decimal')
        return dec.fixed(x, int(prec[1:]) if prec else 6, int_to_str)
    if isinstance(x, int):
        if ty in (None, 'd'):
            r = int_to_str(x)
        elif ty in ('x', 'X'):
            r = fmt_int_hex(x, ty == 'X')
        else:
            return format(deep_conc(x, 'format spec'), spec)
        if width:
            w = int(width)
            if zero or (fill == '0' and align in ('=', '>')):
                return r.zfill(w)
            return r.ljust(w, fill or ' ') if align == '<' else r.rjust(w, fill or ' ')
        return r
    r = to_str(x)
    if prec:
        r = r[:int(prec[1:])]
    if width:
        w = int(width)
        return r.rjust(w, fill or ' ') if align == '>' else r.ljust(w, fill or ' ')
    return r


def join(sep, xs):
    return lift(sep).join(xs)


def lift(s):
    """A SymStr/SymBytes view of a concrete string (bypassing normalisation)."""
    t = type(s)
    if t in _SYMSET:
        return s
    if isinstance(s, str):
        return SymStr([ord(c) for c in s])
    if isinstance(s, bytes):
        return SymBytes(list(s))
    if isinstance(s, bytearray):
        return SymByteArray(list(s))
    return s


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.append(fmt_value(v, spec, conv))
        else:
            out.append(p)
    return join('', out)


def str_format(fmt, args, kw):
    if type(fmt) is not str:
        fmt = concretize(fmt, 'format string')
    out, auto = [], 0
    import string
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if '{' in (spec or ''):
            raise Incomplete('nested format spec')
        m = re.match(r'^([^.\[]*)(.*)$', field)
        head, rest = m.groups()
        if head == '':
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kw[head]
        for attr, item in re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
            if attr:
                v = getattr(v, attr)
            else:
                v = getitem(v, int(item) if item.isdigit() else item)
        out.append(fmt_value(v, spec, conv))
    return join('', out)


_PCT = re.compile(r'%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def percent(fmt, arg):
    if type(fmt) in (bytes, SymBytes):
        raise Incomplete('bytes % formatting')
    if type(fmt) is not str:
        fmt = concretize(fmt, 'format string')
    out, pos, ai = [], 0, 0
    args = arg if isinstance(arg, tuple) else (arg,)
    mapping = isinstance(arg, dict)
    used = 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if name is not None:
            v = getitem(arg, name)
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[ai]
            ai += 1
        if not has_sym(v):
            if ty in 'sr' and not isinstance(v, (str, int, float, bytes, type(None))):
                v2 = to_str(v) if ty == 's' else sym_repr(v)
                if has_sym(v2):
                    out.append(v2)
                    continue
                v = v2
                ty = 's'
            out.append(('%' + flags + (width or '') + ('.' + prec if prec else '') + ty) % (v,))
            continue
        if ty == 's':
            r = to_str(v)
        elif ty in 'ra':
            r = sym_repr(v)
        elif ty in 'di':
            if not isinstance(v, int):
                raise TypeError('%d format: a real number is required, not ' + v.__class__.__name__)
            r = int_to_str(v) if type(v) is SymInt else str(int(v))
        elif ty in 'xX':
            r = fmt_int_hex(v, ty == 'X')
        elif ty == 'f' and type(v) is SymDec:
            r = dec.fixed(v, int(prec or 6), int_to_str)
        elif ty == 'c':
            r = call(chr, v) if isinstance(v, int) else v
        else:
            r = ('%' + flags + (width or '') + ('.' + prec if prec else '') + ty) % (deep_conc(v, '% format'),)
        if prec and ty in 'sr':
            r = r[:int(prec)]
        if width:
            w = int(width)
            r = lift(r).ljust(w) if '-' in flags else (lift(r).zfill(w) if '0' in flags and ty in 'dixX' else lift(r).rjust(w))
        out.append(r)
    out.append(fmt[pos:])
    if not mapping and ai < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return join('', out)


def mod(a, b):
    if isinstance(a, (str, bytes)):
        if type(a) in _SYMSET or has_sym(b) or _custom_str(b):
            return percent(a, b)
        if isinstance(a, bytes):
            return a % plain(b)
        return a % (plain(b) if not isinstance(b, dict) else b)
    return a % b


def _custom_str(b):
    for x in (b if isinstance(b, tuple) else (b,)):
        if not isinstance(x, (str, int, float, bytes, type(None))):
            return True
    return False


def iadd(a, b):
    return operator.iadd(a, b)


def contains(c, x):
    """x in c"""
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            return SymStr([ord(k) for k in c]).find(x) >= 0 if len(x) != 1 else \
                (bool(ch_in_ranges(x.cs[0], tuple((k, k) for k in sorted(set(map(ord, c)))))) if c else False)
        return x in c
    if t in (bytes, bytearray):
        if type(x) in (SymBytes, SymInt):
            return lift(bytes(c)).__contains__(x)
        return x in c
    if t in (dict, set, frozenset) or t is collections.OrderedDict or isinstance(c, type({}.keys())):
        if key_sym(x):
            return bool(Or([eq(k, x) for k in c])) if len(c) <= 64 else _contains_many(c, x)
        return x in c
    if t in (list, tuple) and len(c) > 16 and key_sym(x) and all(type(k) is str for k in c):
        return _contains_many(c, x)
    return x in c


def _contains_many(c, x):
    cs = [k for k in c if isinstance(k, (str, bytes)) and isinstance(x, type(k)) and len(k) == len(x)] \
        if isinstance(x, (str, bytes)) else list(c)
    return bool(Or([eq(k, x) for k in cs]))


def getitem(o, k):
    t = type(o)
    if t is str:
        if type(k) is SymInt:
            return o[k.__index__()]
        return o[k]
    if isinstance(o, dict) and t is not SymDict and key_sym(k):
        for q in o:
            if eq(q, k):
                return o[q]
        m = getattr(t, '__missing__', None)
        if m is not None:
            return m(o, k)
        raise KeyError(k)
    return o[k]


# ---------------------------------------------------------------- calls
MODELS = {}          # function -> model (always used)
SYM_MODELS = {}      # function -> model (used when an argument is symbolic)
TRANSPARENT_MODULES = {'six', 'copy', 'contextlib', 'functools', 'operator', '_operator', 'itertools', 'collections',
                       'abc', 'warnings', '_warnings', 'types', 'weakref', 'unittest.mock', 'mock', '_functools',
                       'collections.abc', 'symx', 'dataclasses', 'enum', 'typing'}


def model(f, always=False):
    def deco(g):
        (MODELS if always else SYM_MODELS)[f] = g
        return g
    return deco


def _is_exc(f):
    return isinstance(f, type) and issubclass(f, BaseException)


_TRANSPARENT = {
    list, tuple, iter, next, zip, enumerate, reversed, range, min, max, sum, any, all, getattr, setattr,
    hasattr, delattr, callable, id, print, object, slice, super, property, staticmethod, classmethod, bool,
    divmod, abs, issubclass, vars, dir, operator.eq, operator.ne, operator.add,
    type(None), collections.deque, itertools.chain, itertools.count, itertools.islice, itertools.repeat,
    itertools.chain.from_iterable, itertools.product, itertools.combinations, itertools.permutations,
    itertools.zip_longest, itertools.cycle,
}


def call(f, *args, **kw):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    t = type(f)
    if t is types.FunctionType:
        mod_ = f.__globals__.get('__name__', '')
        if '__symrt__' in f.__globals__ or mod_.startswith('symx'):
            return f(*args, **kw)
        if not _any_sym(args, kw):
            if _needs_plain(args, kw) and mod_ not in TRANSPARENT_MODULES:
                return f(*[plain(a) for a in args], **{k: plain(v) for k, v in kw.items()})
            return f(*args, **kw)
        sm = SYM_MODELS.get(f)
        if sm is not None:
            return sm(*args, **kw)
        if mod_.split('.')[0] in TRANSPARENT_MODULES:
            return f(*args, **kw)
        why = 'call of %s.%s' % (mod_, f.__qualname__)
        return f(*[deep_conc(a, why) for a in args], **{k: deep_conc(v, why) for k, v in kw.items()})
    if t is types.MethodType:
        g = f.__func__
        if type(g) is types.FunctionType:
            if g in SYM_MODELS or g in MODELS:
                return call(g, f.__self__, *args, **kw)
            mod_ = g.__globals__.get('__name__', '')
            if '__symrt__' in g.__globals__ or mod_.startswith('symx'):
                return f(*args, **kw)
            root = mod_.split('.')[0]
            if root in TRANSPARENT_MODULES:
                return f(*args, **kw)
            if root == 'logging':
                return None
            if not _any_sym(args, kw):
                return f(*[plain(a) for a in args], **{k: plain(v) for k, v in kw.items()})
            why = 'call of %s.%s' % (mod_, g.__qualname__)
            return f(*[deep_conc(a, why) for a in args], **{k: deep_conc(v, why) for k, v in kw.items()})
        return f(*args, **kw)
    if isinstance(f, types.BuiltinFunctionType):
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            st = type(s)
            if st in (str, bytes, bytearray):
                n = f.__name__
                if n == 'join':
                    xs = list(args[0])
                    for x in xs:
                        if type(x) in _SYMSET:
                            return lift(s).join(xs)
                    return f(xs)
                if n == 'format' and st is str:
                    return str_format(s, args, kw)
                if n in ('extend', 'append', 'insert') and st is bytearray and _any_sym(args, kw):
                    raise Incomplete('mutating a concrete bytearray')
                if n == 'translate' or not _any_sym(args, kw):
                    return f(*args, **kw)
                return getattr(lift(s), n)(*args, **kw)
            if st is list:
                n = f.__name__
                if n in ('index', 'remove', 'count'):
                    return _list_search(s, n, args)
                if n == 'sort':
                    key = kw.get('key')
                    if key is not None:
                        kw['key'] = lambda x: call(key, x)
                    return f(*args, **kw)
                return f(*args, **kw)
            if st is tuple:
                return f(*args, **kw)
            if st in (dict, collections.OrderedDict, collections.defaultdict):
                return _dict_method(s, f, args, kw)
            if st is set or st is frozenset:
                if has_sym(args) or has_sym(s):
                    r = getattr(SymSet(s), f.__name__)(*args, **kw)
                    return r
                return f(*[plain(a) for a in args], **kw)
            if isinstance(s, type):
                cm = CLASS_METHODS.get((s, f.__name__))
                if cm is not None and _any_sym(args, kw):
                    return cm(*args, **kw)
            if st is re.Pattern and _any_sym(args, kw):
                from . import regex
                return regex.pattern_method(s, f.__name__, args, kw)
            if isinstance(s, (types.GeneratorType, collections.deque)):
                return f(*args, **kw)
        if not _any_sym(args, kw):
            return f(*[plain(a) for a in args], **{k: plain(v) for k, v in kw.items()}) if f not in _TRANSPARENT else f(*args, **kw)
        sm = SYM_MODELS.get(f)
        if sm is not None:
            return sm(*args, **kw)
        if f in _TRANSPARENT:
            return f(*args, **kw)
        why = 'call of builtin %s' % getattr(f, '__qualname__', f)
        return f(*[deep_conc(a, why) for a in args], **{k: deep_conc(v, why) for k, v in kw.items()})
    if isinstance(f, type):
        if f in _TRANSPARENT or _is_exc(f):
            return f(*args, **kw)
        init = f.__dict__.get('__init__') or getattr(f, '__init__', None)
        g = sys.modules.get(f.__module__)
        if g is not None and '__symrt__' in g.__dict__:
            return f(*args, **kw)
        root = f.__module__.split('.')[0]
        if root in TRANSPARENT_MODULES:
            return f(*args, **kw)
        if issubclass(f, tuple):     # namedtuple
            return f(*args, **kw)
        if not _any_sym(args, kw):
            return f(*[plain(a) for a in args], **{k: plain(v) for k, v in kw.items()})
        sm = SYM_MODELS.get(f)
        if sm is not None:
            return sm(*args, **kw)
        why = 'call of class %s' % f.__name__
        return f(*[deep_conc(a, why) for a in args], **{k: deep_conc(v, why) for k, v in kw.items()})
    if t is functools.partial:
        k2 = dict(f.keywords)
        k2.update(kw)
        return call(f.func, *(f.args + args), **k2)
    oc = getattr(f, '__objclass__', None)
    if oc in (str, bytes, bytearray) and args:
        if f.__name__ == 'join':
            return call(getattr(args[0], 'join'), *args[1:], **kw)
        if f.__name__ == 'format' and type(args[0]) in (str, SymStr):
            return str_format(args[0], args[1:], kw)
        if _any_sym(args, kw):
            return getattr(lift(args[0]), f.__name__)(*args[1:], **kw)
        return f(*args, **kw)
    if oc in (dict, set, list) and args and type(args[0]) in (SymDict, SymSet):
        return getattr(args[0], f.__name__)(*args[1:], **kw)
    return f(*args, **kw)


def _any_sym(args, kw):
    for a in args:
        if has_sym(a):
            return True
    for a in kw.values():
        if has_sym(a):
            return True
    return False


def _needs_plain(args, kw):
    for a in args:
        if type(a) in (SymDict, SymSet, SymView):
            return True
    for a in kw.values():
        if type(a) in (SymDict, SymSet, SymView):
            return True
    return False


def _list_search(s, n, args):
    x = args[0]
    if n == 'count':
        return sum(1 for y in s if eq(y, x))
    lo = args[1] if len(args) > 1 else 0
    hi = args[2] if len(args) > 2 else len(s)
    for i in range(*slice(lo, hi).indices(len(s))):
        if eq(s[i], x):
            if n == 'index':
                return i
            del s[i]
            return None
    raise ValueError('%r is not in list' % (x,))


def _dict_method(s, f, args, kw):
    n = f.__name__
    if args and key_sym(args[0]) and n in ('get', 'pop', 'setdefault', '__contains__'):
        for q in s:
            if eq(q, args[0]):
                return getattr(s, n)(q, *args[1:])
        if n == 'get':
            return args[1] if len(args) > 1 else None
        if n == 'pop' and len(args) > 1:
            return args[1]
        if n == '__contains__':
            return False
        if n == 'pop':
            raise KeyError(args[0])
        return s.setdefault(concretize(args[0], 'key of plain dict'), *args[1:])
    if n == 'update' and args and isinstance(args[0], dict) and type(args[0]) is SymDict:
        for k, v in args[0].items():
            s[k] = v
        return None
    return f(*args, **kw)


CLASS_METHODS = {}


def _isinstance(x, T):
    t = type(x)
    if t in _SYMSET or t in (SymDict, SymSet):
        return _sub(x.__class__, T)
    return isinstance(x, T)


def _sub(c, T):
    if isinstance(T, tuple):
        return any(_sub(c, u) for u in T)
    return issubclass(c, T)


MODELS[isinstance] = _isinstance


@model(type, True)
def _type(*a, **kw):
    if len(a) == 1:
        return a[0].__class__ if type(a[0]) in _SYMSET or type(a[0]) in (SymDict, SymSet) else type(a[0])
    ns = a[2]
    return type(a[0], a[1], plain(ns) if type(ns) is SymDict else ns, **kw)


@model(len, True)
def _len(x):
    return len(x)


@model(dict, True)
def _dict(*a, **kw):
    return SymDict(*a, **kw)


@model(set, True)
def _set(xs=()):
    return SymSet(xs)


@model(frozenset, True)
def _frozenset(xs=()):
    return SymSet(xs, True)


@model(str, True)
def _str(*a, **kw):
    if not a and not kw:
        return ''
    if len(a) + len(kw) > 1:
        b = a[0]
        if type(b) in _SYMSET:
            return b.decode(*a[1:], **kw)
        return str(*a, **kw)
    return to_str(a[0])


@model(repr, True)
def _repr(x):
    return sym_repr(x)


@model(int)
def _int(x=0, base=None):
    if type(x) in (SymInt,):
        return x
    if type(x) is SymBool:
        return int(bool(x))
    if type(x) is SymDec:
        return dec.truncated(x)
    if isinstance(x, (str, bytes)):
        return parse_int(x, 10 if base is None else base)
    return int(concretize(x, 'int()'))


@model(float)
def _float(x=0.0):
    if type(x) in (SymInt, SymDec):
        return x
    if type(x) is SymStr:
        return dec.parse(x, FLOAT_HOOK[0], digits_value)
    return FLOAT_HOOK[0](x)


def _float_default(x):
    return float(concretize(x, 'float()'))


FLOAT_HOOK = [_float_default]


@model(ord)
def _ord(x):
    if len(x) != 1:
        raise TypeError('ord() expected a character, but string of length %d found' % len(x))
    c = x.cs[0]
    return SymInt(None, c.e, c.v, c.t) if type(c) is not int else c


@model(chr)
def _chr(x):
    if type(x) is not SymInt:
        return chr(x)
    if x.bv is not None and x.bv.size() <= 20:
        return mkstr([core.mkch(core.zext(x.bv, core.CW), x.v, x.t)])
    if not And(x >= 0, x < 0x110000):
        raise ValueError('chr() arg not in range(0x110000)')
    if x.bv is not None:
        return mkstr([core.mkch(z3.Extract(core.CW - 1, 0, core.zext(x.bv, core.CW)))])
    return mkstr([core.mkch(z3.Int2BV(x.i, core.CW))])


@model(bytes)
def _bytes(x=b'', *a, **kw):
    if type(x) is SymStr:
        return x.encode(*a, **kw)
    if isinstance(x, str):
        return bytes(x, *a, **kw)
    if type(x) is SymInt:
        return bytes(core.concretize_int(x))
    if type(x) in (SymBytes, SymByteArray):
        return mkbytes(list(x.cs))
    return mkbytes([byte_cell(y) for y in x])


@model(bytes, True)
def _bytes_any(x=b'', *a, **kw):
    if type(x) in (str, int, bytes, bytearray):
        return bytes(x, *a, **kw)
    if hasattr(type(x), '__bytes__'):
        return bytes(x)
    if type(x) in _SYMSET:
        return _bytes(x, *a, **kw)
    return _bytes(list(x))


@model(bytearray, True)
def _bytearray(x=b'', *a, **kw):
    if type(x) in (str, int):
        return SymByteArray(list(bytearray(x, *a, **kw)))
    r = _bytes_any(x, *a, **kw)
    return SymByteArray(list(byte_cells(r)))


def _fromhex(s):
    cs = text_cells(s)
    out, i, n = [], 0, len(cs)
    while i < n:
        if bool(ch_in_ranges(cs[i], ((9, 13), (32, 32)))):
            i += 1
            continue
        if i + 1 >= n:
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        ok1, v1 = core.hexval(cs[i])
        ok2, v2 = core.hexval(cs[i + 1])
        if v1 is None or v2 is None or not And(ok1, ok2):
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        b1 = z3.BitVecVal(v1, 4) if type(v1) is int else v1
        b2 = z3.BitVecVal(v2, 4) if type(v2) is int else v2
        out.append(core.mkch(z3.Concat(b1, b2)))
        i += 2
    return out


CLASS_METHODS[(bytearray, 'fromhex')] = lambda s: SymByteArray(_fromhex(s))
CLASS_METHODS[(bytes, 'fromhex')] = lambda s: mkbytes(_fromhex(s))


def _from_bytes(b, byteorder='big', signed=False):
    cs = list(byte_cells(b)) if isinstance(b, (bytes, bytearray)) else [byte_cell(x) for x in b]
    if byteorder == 'little':
        cs.reverse()
    if signed:
        raise Incomplete('from_bytes signed')
    if not cs:
        return 0
    parts = [z3.BitVecVal(c, 8) if type(c) is int else c.e for c in cs]
    return core.mkbv(z3.Concat(parts) if len(parts) > 1 else parts[0])


CLASS_METHODS[(int, 'from_bytes')] = _from_bytes
CLASS_METHODS[(dict, 'fromkeys')] = SymDict.fromkeys


@model(sorted, True)
def _sorted(xs, key=None, reverse=False):
    k = None if key is None else (lambda x: call(key, x))
    return sorted(list(xs), key=k, reverse=reverse)


@model(max, True)
def _max(*a, **kw):
    return _minmax(max, a, kw)


@model(min, True)
def _min(*a, **kw):
    return _minmax(min, a, kw)


def _minmax(f, a, kw):
    kw = dict(kw)
    if kw.get('key') is not None:
        key = kw['key']
        kw['key'] = lambda x: call(key, x)
    xs = a if len(a) > 1 else list(a[0])
    if 'key' not in kw and len(xs) >= 1 and all(type(x) in (int, SymInt) for x in xs) and any(type(x) is SymInt for x in xs):
        r = xs[0]
        for x in xs[1:]:
            c = (x > r) if f is max else (x < r)
            if type(c) is not SymBool:
                r = x if c else r
            else:
                ri = r.i if type(r) is SymInt else z3.IntVal(r)
                xi = x.i if type(x) is SymInt else z3.IntVal(x)
                r = mkint(z3.If(c.e, xi, ri))
        return r
    return f(xs, **kw)


@model(map, True)
def _map(f, *xs):
    return (call(f, *a) for a in zip(*xs))


@model(filter, True)
def _filter(f, xs):
    if f is None:
        return (x for x in xs if x)
    return (x for x in xs if call(f, x))


@model(functools.reduce, True)
def _reduce(f, xs, *init):
    return functools.reduce(lambda a, b: call(f, a, b), list(xs), *init)


@model(round)
def _round(x, n=None):
    if type(x) is SymDec:
        r = dec.rounded(x, n or 0) if x.k > (n or 0) else x
        return dec.truncated(r) if n is None else r
    return x


@model(hash, True)
def _hash(x):
    return hash(x)


@model(hex)
def _hex(x):
    return '0x' + fmt_int_hex(x)


@model(pow)
def _pow(a, b, m=None):
    return pow(concretize(a, 'pow'), concretize(b, 'pow'), concretize(m, 'pow') if m is not None else None)


@model(format, True)
def _format(x, spec=''):
    return fmt_value(x, spec)


@model(getattr, True)
def _getattr(*a):
    if type(a[1]) is SymStr:
        n = _attr_name(a[0], a[1])
        if n is None:
            if len(a) > 2:
                return a[2]
            raise AttributeError('%s has no attribute of a symbolic name' % type(a[0]).__name__)
        a = (a[0], n) + a[2:]
    return getattr(*a)


@model(hasattr, True)
def _hasattr(o, name):
    if type(name) is SymStr:
        name = _attr_name(o, name)
    return name is not None and hasattr(o, name)


def _attr_name(o, name):
    """The attribute of o a symbolic name denotes, or None."""
    for n in dir(o):
        if len(n) == len(name) and name == n:
            return n
    return None


def enter(name):
    if Engine.cur is not None:
        Engine.cur.functions.add(name)


def mkdict(pairs):
    return SymDict(pairs)


def dict_display(*items):
    d = SymDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def mkset(*xs):
    return SymSet(xs)


def notcontains(c, x):
    return not contains(c, x)


# ---------------------------------------------------------------- AST
class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def _rt(self, name, args, kw=()):
        return ast.Call(func=ast.Attribute(value=ast.Name('__symrt__', ast.Load()), attr=name, ctx=ast.Load()),
                        args=args, keywords=list(kw))

    def _fn(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list if not self._drop(d)]
        node.args = self.visit(node.args)
        body = [self.visit(s) for s in node.body]
        body = [y for x in body for y in (x if isinstance(x, list) else [x])]
        pos = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                    and isinstance(node.body[0].value.value, str)) else 0
        ent = ast.Expr(self._rt('enter', [ast.Constant('%s:%s' % (self.modname, '.'.join(self.stack)))]))
        body.insert(pos, ent)
        node.body = body
        self.stack.pop()
        return node

    def _drop(self, d):
        s = ast.dump(d)
        return 'lru_cache' in s or "'cache'" in s

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'):
            return node
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == '__symrt__':
            return node
        return self._rt('call', [node.func] + node.args, node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._rt('mod', [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], self._rt('mod', [ast.Name(node.target.id, ast.Load()), node.value]))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self._rt('contains', [node.comparators[0], node.left])
            if isinstance(node.ops[0], ast.NotIn):
                return self._rt('notcontains', [node.comparators[0], node.left])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return self._rt('dict_display', items)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._rt('mkdict', [ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)])

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._rt('mkset', node.elts)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._rt('mkset', [ast.Starred(ast.ListComp(node.elt, node.generators), ast.Load())])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self._rt('getitem', [node.value, node.slice])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return self._rt('fstr', parts)

    def visit_Try(self, node):
        self.generic_visit(node)
        for h in node.handlers:
            if h.type is None:
                h.type = ast.Name('Exception', ast.Load())
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [None if d is None else self.visit(d) for d in node.kw_defaults]
        for a in node.args + node.kwonlyargs + node.posonlyargs:
            a.annotation = None
        return node

    def visit_Match(self, node):
        return node


def instrument_source(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read().decode('utf-8')
        module.__dict__['__symrt__'] = sys.modules[__name__]
        SOURCES[module.__name__] = self.path
        exec(instrument_source(src, module.__name__, self.path), module.__dict__)


SOURCES = {}


class Finder(importlib.abc.MetaPathFinder):
    """Serves instrumented versions of the packages it is responsible for."""

    def __init__(self, roots):
        self.roots = roots      # package name -> directory containing it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        d = self.roots.get(top)
        if d is None:
            return None
        base = os.path.join(d, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, True),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py', loader=Loader(base + '.py', False))
        return None


def instrumented_copy(modname, newname):
    """Private instrumented copy of a pure Python standard library module."""
    spec = importlib.util.find_spec(modname)
    with open(spec.origin) as f:
        src = f.read()
    m = types.ModuleType(newname)
    m.__dict__['__symrt__'] = sys.modules[__name__]
    m.__file__ = spec.origin
    sys.modules[newname] = m
    exec(instrument_source(src, newname, spec.origin), m.__dict__)
    return m
