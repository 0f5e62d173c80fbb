"""Harness contexts.  A harness is a function of a context `c`; the same
source runs instrumented with symbolic values (SymCtx) and unmodified with
the concrete values of a counterexample against the real code (RealCtx)."""
import hashlib
import hmac
import importlib
import sys

REAL = {'hmac': hmac.new, 'hash': hashlib.new}


class Base(object):
    symbolic = False

    def mod(self, name):
        return importlib.import_module(name)

    def text(self, name, hi, lo=0, chars=None):
        """Text of any length lo..hi."""
        n = lo + self.pick(name + '#len', hi - lo + 1)
        return self.str(name, n, chars) if n else ''

    def bin(self, name, hi, lo=0):
        n = lo + self.pick(name + '#len', hi - lo + 1)
        return self.bytes(name, n) if n else b''

    def dec(self, name, lo, hi, k):
        """A number lo/10**k ... hi/10**k with k decimals."""
        return self._dec(self.int(name, lo, hi), k)

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.pick(name, len(seq))]

    def maybe(self, name):
        return self.pick(name, 2) == 1

    def attempt(self, f, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return self.call(f, *a, **k), None
        except Exception as ex:
            self.last_exc = ex
            return None, ex

    def call(self, f, *a, **k):
        return f(*a, **k)

    def set_now(self, t):
        self._now = t

    def now(self):
        if self._now is None:
            self._now = self.int('now', 10 ** 9, 4 * 10 ** 9)
        return self._now

    def rand_shuffle(self, xs):
        ys = list(xs)
        for i in range(len(xs)):
            k = self.pick('shuffle%d' % self._cnt(), len(ys))
            xs[i] = ys.pop(k)

    def _cnt(self):
        self._n = getattr(self, '_n', 0) + 1
        return self._n


def parse_chars(spec):
    """Character domain: None = all of Unicode, 'ascii', 'print', or a string
    with ranges like 'a-z0-9.'"""
    from .core import UNICODE
    if spec is None:
        return UNICODE
    if isinstance(spec, tuple):
        return spec
    if spec == 'ascii':
        return ((0, 127),)
    if spec == 'print':
        return ((32, 126),)
    if spec == 'graph':
        return ((33, 126),)
    out, i = [], 0
    while i < len(spec):
        if i + 2 < len(spec) and spec[i + 1] == '-':
            out.append((ord(spec[i]), ord(spec[i + 2])))
            i += 3
        else:
            out.append((ord(spec[i]), ord(spec[i])))
            i += 1
    out.sort()
    merged = []
    for a, b in out:
        if merged and a <= merged[-1][1] + 1:
            merged[-1] = (merged[-1][0], max(b, merged[-1][1]))
        else:
            merged.append((a, b))
    return tuple(merged)


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, params):
        from . import core, models
        self.core, self.e, self.params = core, engine, params
        self._now = None
        self._picked = {}
        models.Env.ctx = self
        self.picks = {}
        engine.picks = self.picks

    def _reg(self, name, v):
        if name in self.e.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.e.inputs[name] = v
        return v

    def str(self, name, n, chars=None):
        return self._reg(name, self.core.new_str(name, n, parse_chars(chars)))

    def bytes(self, name, n):
        return self._reg(name, self.core.new_bytes(name, n))

    def int(self, name, lo=None, hi=None):
        return self._reg(name, self.core.new_int(name, lo, hi))

    def _dec(self, n, k):
        from . import dec
        return dec.SymDec(n, k)

    def bvint(self, name, width):
        return self._reg(name, self.core.new_bvint(name, width))

    def bool(self, name):
        return self._reg(name, self.core.new_bool(name))

    def call(self, f, *a, **k):
        from symx import rt
        return rt.call(f, *a, **k)

    def pick(self, name, n):
        if name in self.picks:
            raise RuntimeError('duplicate pick ' + name)
        v = self.e.choose(n)
        self.picks[name] = v
        return v

    def assume(self, cond):
        self.e.assume(cond)

    def check(self, cond, msg):
        self.e.check(cond, msg)

    def fail(self, msg):
        self.e.fail(msg)

    def reach(self, label):
        self.e.reached['reach:' + label] = self.e.reached.get('reach:' + label, 0) + 1

    def And(self, *a):
        return self.core.And(*a)

    def Or(self, *a):
        return self.core.Or(*a)

    def Not(self, a):
        return self.core.Not(a)

    def Implies(self, a, b):
        return self.core.Implies(a, b)

    def Iff(self, a, b):
        return self.core.Iff(a, b)

    def eq(self, a, b):
        from .containers import eq
        return eq(a, b)

    def has_char(self, s, chars):
        """Condition: s contains one of the characters (no forking)."""
        rs = tuple((ord(x), ord(x)) for x in sorted(chars))
        return self.core.Or([self.core.ch_in_ranges(c, rs) for c in self.core.text_cells(s)])

    def all_chars(self, s, spec):
        rs = parse_chars(spec)
        return self.core.And([self.core.ch_in_ranges(c, rs) for c in self.core.text_cells(s)])

    def ite(self, cond, a, b):
        """Integer if-then-else."""
        core = self.core
        sb = core.as_symbool(cond)
        z3 = core.z3
        f = lambda x: x.i if type(x) is core.SymInt else z3.IntVal(x)
        return core.mkint(z3.If(sb.e, f(a), f(b)))

    def urandom(self, n):
        return self.bytes('urandom%d' % self._cnt(), n)

    def rand_choice(self, seq):
        if isinstance(seq, str):
            return self.str('rnd%d' % self._cnt(), 1, tuple((ord(c), ord(c)) for c in sorted(set(seq))))
        return seq[self.pick('rnd%d' % self._cnt(), len(seq))]

    def rand_int(self, lo, hi):
        return self.int('rndint%d' % self._cnt(), lo, hi)

    def hmac(self, alg, key, data):
        from . import models
        return models.HMACModel(key, alg, None, data).finalize()

    def sha(self, alg, data):
        from . import models
        return models.HashModel(alg, None, data).finalize()

    def b64(self, b):
        from . import models
        return self.core.mkstr([x if type(x) is int else self.core.mkch(self.core.zext(x.e, self.core.CW), s=x.s, o=x.o)
                                for x in models.b64_cells(self.core.byte_cells(b))])

    def replace(self, target, fake):
        """Use `fake` wherever the code calls the outside function `target`."""
        from . import rt
        rt.MODELS[target] = fake

    def uf_table(self, m):
        from .core import model_value, mkbytes
        out = []
        for kind, cells, res in self.e.state.get('uf', []):
            out.append((kind, [model_value(m, mkbytes(list(c))) for c in cells], model_value(m, mkbytes(list(res)))))
        return out

    def note(self, **kw):
        pass

    def epoch(self, *f):
        """Seconds since 1970 of UTC fields (the library's calendar)."""
        from . import models
        return self.core.mkint(models.epoch_expr(*[models._zi(x) for x in f]))

    def document(self, root):
        """Bytes of an XML document (opaque to everything but the XML parser)."""
        from . import lxmlmodel
        return lxmlmodel.document(root)

    def html(self, root):
        """Bytes of an HTML document with this tree."""
        return self.document(root)


class ReplayFail(Exception):
    pass


class AssumeFail(Exception):
    pass


class RealCtx(Base):
    symbolic = False

    def __init__(self, params, inputs, picks, uf=()):
        self.params, self.inputs, self.picks = params, inputs, picks
        self.used = {}
        self._now = None
        self.notes = []
        self.uf = uf
        install_real_env(self)

    def _get(self, name, d):
        v = self.inputs.get(name, d)
        self.used[name] = v
        return v

    def str(self, name, n, chars=None):
        return self._get(name, chr(parse_chars_noz3(chars)[0][0]) * n if chars is not None else 'a' * n)

    def bytes(self, name, n):
        return self._get(name, b'\0' * n)

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def _dec(self, n, k):
        return n / 10.0 ** k

    def bvint(self, name, width):
        return self._get(name, 0)

    def bool(self, name):
        return self._get(name, False)

    def pick(self, name, n):
        return self.picks.get(name, 0)

    def assume(self, cond):
        if not cond:
            raise AssumeFail()

    def check(self, cond, msg):
        if not cond:
            raise ReplayFail(msg)

    def fail(self, msg):
        raise ReplayFail(msg)

    def reach(self, label):
        pass

    def And(self, *a):
        if len(a) == 1 and isinstance(a[0], (list, tuple)):
            a = a[0]
        return all(a)

    def Or(self, *a):
        if len(a) == 1 and isinstance(a[0], (list, tuple)):
            a = a[0]
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or b

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return a == b

    def has_char(self, s, chars):
        return any(x in s for x in chars)

    def all_chars(self, s, spec):
        rs = parse_chars_plain(spec)
        return all(any(a <= ord(x) <= b for a, b in rs) for x in s)

    def ite(self, cond, a, b):
        return a if cond else b

    def urandom(self, n):
        return self.bytes('urandom%d' % self._cnt(), n)

    def rand_choice(self, seq):
        if isinstance(seq, str):
            v = self._get('rnd%d' % self._cnt(), seq[0])
            return v if v in seq else seq[0]
        return seq[self.pick('rnd%d' % self._cnt(), len(seq))]

    def rand_int(self, lo, hi):
        return self.int('rndint%d' % self._cnt(), lo, hi)

    def hmac(self, alg, key, data):
        for kind, args, out in self.uf:
            if kind == 'hmac-' + alg and tuple(args) == (key, data):
                return out
        return REAL['hmac'](key, data, alg).digest()

    def sha(self, alg, data):
        for kind, args, out in self.uf:
            if kind == 'hash-' + alg and tuple(args) == (data,):
                return out
        return REAL['hash'](alg, data).digest()

    def b64(self, b):
        import base64
        return base64.b64encode(b).decode('ascii')

    def replace(self, target, fake):
        replace_everywhere(target, fake)
        self.__dict__.setdefault('replaced', []).append((target, fake))

    def restore(self):
        for target, fake in reversed(self.__dict__.get('replaced', [])):
            replace_everywhere(fake, target)

    def note(self, **kw):
        self.notes.append(kw)

    def epoch(self, *f):
        import calendar
        return calendar.timegm(tuple(f) + (0, 0, 0))

    def document(self, root):
        from lxml import etree
        return etree.tostring(root)

    def html(self, root):
        from xml.sax.saxutils import escape

        def ser(e):
            a = ''.join(' %s="%s"' % (k, escape(v, {'"': '&quot;', '\n': '&#10;', '\t': '&#9;', '\r': '&#13;'})) for k, v in e.attrib.items())
            return '<%s%s>%s' % (e.tag, a, escape(e.text or '')) + ''.join(ser(k) for k in e) + ('' if e.tag in ('link', 'meta') else '</%s>' % e.tag)
        return ('<!DOCTYPE html>' + ser(root)).encode('utf-8')


def parse_chars_plain(spec):
    return parse_chars_noz3(spec)


def parse_chars_noz3(spec):
    if spec is None:
        return ((0, 0x10ffff),)
    if spec == 'ascii':
        return ((0, 127),)
    if spec == 'print':
        return ((32, 126),)
    if spec == 'graph':
        return ((33, 126),)
    if isinstance(spec, tuple):
        return spec
    out, i = [], 0
    while i < len(spec):
        if i + 2 < len(spec) and spec[i + 1] == '-':
            out.append((ord(spec[i]), ord(spec[i + 2])))
            i += 3
        else:
            out.append((ord(spec[i]), ord(spec[i])))
            i += 1
    return tuple(out)


def replace_everywhere(target, fake):
    for m in list(sys.modules.values()):
        d = getattr(m, '__dict__', None)
        if not d:
            continue
        for k, v in list(d.items()):
            if v is target and k != '__builtins__':
                try:
                    d[k] = fake
                except TypeError:
                    pass


def import_all():
    for n in ('openid.kvform', 'openid.association', 'openid.message', 'openid.urinorm', 'openid.dh', 'openid.cryptutil',
              'openid.server.server', 'openid.server.trustroot', 'openid.consumer.consumer', 'openid.consumer.discover',
              'openid.store.memstore', 'openid.store.filestore', 'openid.store.sqlstore', 'openid.store.nonce',
              'openid.extensions.sreg', 'openid.extensions.ax', 'openid.extensions.pape', 'openid.yadis.accept',
              'openid.yadis.etxrd', 'openid.yadis.manager', 'openid.yadis.xri', 'openid.yadis.xrires',
              'openid.yadis.services', 'openid.yadis.filters', 'openid.yadis.parsehtml', 'openid.yadis.discover'):
        importlib.import_module(n)


def install_real_env(ctx):
    """Pin clock, randomness and keyed hashes of the real code to the
    counterexample's values."""
    import_all()
    import time, os, random, hashlib, hmac, calendar
    real_gmtime, real_urandom = time.gmtime, os.urandom
    replace_everywhere(time.time, lambda: ctx.now())
    replace_everywhere(time.gmtime, lambda t=None: real_gmtime(ctx.now() if t is None else t))
    os_urandom = lambda n: ctx.urandom(n)
    replace_everywhere(os.urandom, os_urandom)

    class FakeRandom(object):
        def __init__(self, seed=None):
            pass

        def choice(self, seq):
            return ctx.rand_choice(seq)

        def choices(self, seq, weights=None, k=1):
            return [ctx.rand_choice(seq) for _ in range(k)]

        def sample(self, seq, k):
            return [ctx.rand_choice(seq) for _ in range(k)]

        def shuffle(self, xs):
            ctx.rand_shuffle(xs)

        def randrange(self, a, b=None):
            lo, hi = (0, a) if b is None else (a, b)
            return ctx.rand_int(lo, hi - 1)

        def randint(self, a, b):
            return ctx.rand_int(a, b)
    random.SystemRandom = FakeRandom
    random.shuffle = FakeRandom().shuffle
    random.choice = FakeRandom().choice
    random.randrange = FakeRandom().randrange
    random.randint = FakeRandom().randint
    if ctx.uf:
        install_uf(ctx)


def install_uf(ctx):
    """Keyed hashes answer as in the counterexample for the recorded
    arguments and really otherwise."""
    import hashlib
    import hmac as hm
    table = {}
    for kind, args, out in ctx.uf:
        table[(kind, tuple(args))] = out

    def name(d):
        if isinstance(d, str):
            return d.lower().replace('-', '')
        n = getattr(d, 'name', None)
        if isinstance(n, str):
            return n.lower().replace('-', '')
        return d.__name__.replace('openssl_', '').lower()
    real_new, real_hash = hm.new, hashlib.new

    class H(object):
        def __init__(self, key, algorithm=None, backend=None, data=b''):
            self.key, self.n, self.data = bytes(key), name(algorithm), bytes(data)

        def update(self, d):
            self.data += bytes(d)

        def finalize(self):
            v = table.get(('hmac-' + self.n, (self.key, self.data)))
            return v if v is not None else real_new(self.key, self.data, self.n).digest()
        digest = finalize

        def hexdigest(self):
            return self.finalize().hex()

        def verify(self, sig):
            from cryptography.exceptions import InvalidSignature
            if sig != self.finalize():
                raise InvalidSignature('x')

    class D(object):
        def __init__(self, algorithm, backend=None, data=b''):
            self.n, self.data = name(algorithm), bytes(data)

        def update(self, d):
            self.data += bytes(d)

        def finalize(self):
            v = table.get(('hash-' + self.n, (self.data,)))
            return v if v is not None else real_hash(self.n, self.data).digest()
        digest = finalize

        def hexdigest(self):
            return self.finalize().hex()
    from cryptography.hazmat.primitives.hmac import HMAC
    from cryptography.hazmat.primitives import hashes
    replace_everywhere(HMAC, H)
    hash_cls = hashes.Hash
    hashes.Hash = D
    replace_everywhere(hash_cls, D)
    replace_everywhere(hm.new, lambda key, msg=None, digestmod='': H(key, digestmod, None, msg or b''))
    replace_everywhere(hashlib.sha1, lambda data=b'', **k: D('sha1', None, data))
    replace_everywhere(hashlib.sha256, lambda data=b'', **k: D('sha256', None, data))
