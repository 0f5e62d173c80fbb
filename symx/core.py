"""Symbolic values and the path-exploring engine.

A path is identified by its list of decisions.  The engine re-executes the
harness once per path; every branch on a symbolic condition becomes a
decision.  Conditions over a single otherwise unconstrained character are
decided on its remaining value set (exact); everything else, and every
assertion, is decided by z3.
"""
import os as _os
import sys as _sys
import time as _time
import z3


class PathAbort(BaseException):
    """Leave the current path (infeasible assumption, end of exploration)."""


class Violation(BaseException):
    def __init__(self, msg, model):
        self.msg, self.model = msg, model


class Incomplete(BaseException):
    """The path needs something the engine cannot encode."""


PROF = {} if _os.environ.get('SYMX_PROF') else None


def prof_note(exact):
    f = _sys._getframe(2)
    while f is not None and '/symx/' in f.f_code.co_filename:
        f = f.f_back
    if f is not None:
        k = '%s:%d %s' % (f.f_code.co_filename, f.f_lineno, 'exact' if exact else 'query')
        PROF[k] = PROF.get(k, 0) + 1


FULL = (1 << 256) - 1
CW = 21   # bit width of a text character
_ZT, _ZF = z3.BoolVal(True), z3.BoolVal(False)


class Engine(object):
    cur = None

    def __init__(self, timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.sstack = []       # asserted expressions in the solver, in order
        self.sbounds = []      # sizes of sstack at each push
        self.queries = 0
        self.solver_s = 0.0
        self.discharged = 0
        self.paths = 0
        self.forks = 0
        self.unknown = 0
        self.incomplete = {}
        self.functions = set()
        self.reached = {}
        self.start_path([])

    # -- path state -------------------------------------------------------
    def start_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.alts = []
        self.pc = []
        self.dom = {}          # var name -> [mask of 0..255, hi possible]
        self.linked = set()
        self.known = {}        # expr id -> bool
        self.keep = []         # keep expressions alive so ids stay unique
        self.fresh = 0
        self.inputs = {}       # name -> ('str'|'bytes'|'int'|'bool', value)
        self.path_incomplete = False
        self.state = {}

    def add(self, e):
        self.pc.append(e)

    def name(self, base):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)

    # -- solver -----------------------------------------------------------
    def sync(self):
        pc, st = self.pc, self.sstack
        n = 0
        m = min(len(pc), len(st))
        while n < m and pc[n].get_id() == st[n].get_id():
            n += 1
        while len(st) > n:
            b = self.sbounds.pop()
            self.solver.pop()
            del st[b:]
        if len(st) < len(pc):
            self.sbounds.append(len(st))
            self.solver.push()
            for e in pc[len(st):]:
                self.solver.add(e)
                st.append(e)

    def query(self, e):
        """sat / unsat / unknown of pc and e."""
        self.sync()
        t = _time.time()
        r = self.solver.check(e)
        self.solver_s += _time.time() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r

    # -- decisions --------------------------------------------------------
    def note_incomplete(self, why):
        self.path_incomplete = True
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def choose(self, n, what='choice'):
        """Nondeterministic choice 0..n-1 (all explored)."""
        if n <= 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            return v
        for k in range(n - 1, 0, -1):
            self.alts.append(self.decisions + [k])
        self.decisions.append(0)
        self.forks += 1
        return 0

    def _restrict(self, atom, val):
        v, mask, hi = atom
        d = self.dom.get(v)
        if d is None:
            return
        if hi is None and d[1]:
            self.linked.add(v)
        if val:
            d[0] &= mask
            if hi is False:
                d[1] = False
        else:
            d[0] &= ~mask
            if hi is True:
                d[1] = False

    def _atom_val(self, atom):
        """(can be true, can be false, exact)"""
        v, mask, hi = atom
        d = self.dom.get(v)
        if d is None:
            return True, True, False
        ct = bool(d[0] & mask)
        cf = bool(d[0] & ~mask & FULL)
        exact = v not in self.linked
        if d[1]:
            if hi is True:
                ct = True
            elif hi is False:
                cf = True
            else:
                if not ct:
                    ct, exact = True, False
                if not cf:
                    cf, exact = True, False
        return ct, cf, exact

    def _commit(self, sb, val):
        """Record that sb has value val on this path."""
        self.known[sb.e.get_id()] = val
        self.keep.append(sb.e)
        self.add(sb.e if val else z3.Not(sb.e))
        self._note(sb, val)

    def _note(self, sb, val):
        at = sb.atoms
        if at is None:
            for v in expr_vars(sb.e):
                self.linked.add(v)
        elif len(at) == 1:
            self._restrict(at[0], val)
        elif val:
            for a in at:
                self._restrict(a, True)
        else:
            for a in at:
                self.linked.add(a[0])

    def fork(self, sb):
        e = sb.e
        if e is _ZT:
            return True
        if e is _ZF:
            return False
        at = sb.atoms
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        ct = cf = True
        exact = False
        if at is not None:
            exact = True
            ct, cf = True, False
            for a in at:
                t, f, x = self._atom_val(a)
                ct = ct and t
                cf = cf or f
                exact = exact and x
            if not ct:
                self.known[e.get_id()] = False
                self.keep.append(e)
                return False
            if not cf:
                self.known[e.get_id()] = True
                self.keep.append(e)
                return True
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            if v in (2, 3):     # forced: implied by the path condition
                v = v == 2
                self.known[e.get_id()] = v
                self.keep.append(e)
                if at is not None:
                    self._note(sb, v)
                return v
            self._commit(sb, v)
            return v
        self.forks += 1
        if PROF is not None:
            prof_note(exact)
        if not exact:
            r = self.query(z3.Not(e))
            if r == z3.unsat:
                self.decisions.append(2)
                self.known[e.get_id()] = True
                self.keep.append(e)
                if at is not None:
                    self._note(sb, True)
                return True
            r2 = self.query(e)
            if r2 == z3.unsat:
                if r == z3.unsat:
                    raise PathAbort('infeasible')
                self.decisions.append(3)
                self.known[e.get_id()] = False
                self.keep.append(e)
                if at is not None:
                    self._note(sb, False)
                return False
        self.alts.append(self.decisions + [False])
        self.decisions.append(True)
        self._commit(sb, True)
        return True

    def assume(self, cond):
        sb = as_symbool(cond)
        if sb.e is _ZT:
            return
        if sb.e is _ZF:
            raise PathAbort('assume')
        k = self.known.get(sb.e.get_id())
        if k is True:
            return
        if k is False:
            raise PathAbort('assume')
        at = sb.atoms
        i = len(self.decisions)
        if i < len(self.prefix):
            self.decisions.append(self.prefix[i])
            self._commit(sb, True)
            return
        ok = None
        if at is not None:
            ct, exact = True, True
            for a in at:
                t, f, x = self._atom_val(a)
                ct = ct and t
                exact = exact and x
            if not ct:
                raise PathAbort('assume')
            if exact:
                ok = True
        if ok is None and self.query(sb.e) == z3.unsat:
            raise PathAbort('assume')
        self.decisions.append(True)
        self._commit(sb, True)

    def check(self, cond, msg):
        """The property assertion: pc and not cond must be unsatisfiable."""
        sb = as_symbool(cond)
        self.reached[msg] = self.reached.get(msg, 0) + 1
        if sb.e is _ZT:
            self.discharged += 1
            return
        i = len(self.decisions)
        if i < len(self.prefix):     # already checked on a sibling path
            self.decisions.append(self.prefix[i])
            self._commit(sb, True)
            return
        r = self.query(z3.Not(sb.e))
        if r == z3.unsat:
            self.discharged += 1
        elif r == z3.sat:
            m = self._sound_model(z3.Not(sb.e))
            if m is not None:
                raise Violation(msg, m)
            self.discharged += 1
        else:
            self.note_incomplete('solver unknown on assertion: ' + msg)
            raise PathAbort('unknown')
        self.decisions.append(True)
        self._commit(sb, True)

    def _sound_model(self, e):
        """The model of the last query, re-derived from scratch when the
        incremental solver's model does not satisfy the formulas; None when a
        fresh solver refutes them."""
        m = self.solver.model()
        fs = list(self.solver.assertions()) + [e]
        if all(z3.is_true(m.eval(f, model_completion=True)) for f in fs):
            return m
        s = z3.Solver()
        s.set('timeout', 30000)
        s.add(fs)
        r = s.check()
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return s.model()
        return m

    def fail(self, msg):
        self.reached[msg] = self.reached.get(msg, 0) + 1
        r = self.query(_ZT)
        if r == z3.sat:
            raise Violation(msg, self.solver.model())
        if r == z3.unknown:
            self.note_incomplete('solver unknown: ' + msg)
        raise PathAbort('infeasible')

    def model(self):
        r = self.query(_ZT)
        if r != z3.sat:
            raise PathAbort('infeasible')
        return self.solver.model()

    def explore(self, fn, prefixes, max_paths=None, deadline=None, on_violation=None):
        """DFS from the given prefixes; returns unexplored prefixes."""
        Engine.cur = self
        work = list(prefixes)
        n = 0
        while work:
            if max_paths is not None and n >= max_paths:
                break
            if deadline is not None and _time.time() > deadline:
                break
            prefix = work.pop()
            self.start_path(prefix)
            try:
                fn()
            except PathAbort:
                pass
            except Incomplete as ex:
                self.note_incomplete(str(ex))
            except Violation as v:
                if on_violation(self, v):
                    return [], True
            self.paths += 1
            n += 1
            work.extend(self.alts)
        return work, False


def eng():
    return Engine.cur


_vars_cache = {}


def expr_vars(e):
    """Names of the uninterpreted constants in e."""
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    return out


# ---------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ('e', 'atoms')

    def __init__(self, e, atoms=None):
        self.e, self.atoms = e, atoms

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return Engine.cur.fork(self)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            o = as_symbool(o)
            return mkbool(self.e == o.e)
        if o is None:
            return False
        return bool(self) == o

    def __ne__(self, o):
        return Not(self == o)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, as_symbool(o).e))
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def mkbool(e, atoms=None):
    if atoms is None:
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return SymBool(e, atoms)


def as_symbool(x):
    t = type(x)
    if t is SymBool:
        return x
    if t is bool:
        return SymBool(_ZT if x else _ZF)
    if t in (int, SymInt):
        return as_symbool(x != 0)
    return SymBool(_ZT if x else _ZF)


def Not(x):
    if type(x) is not SymBool:
        return not x
    at = x.atoms
    if at is not None and len(at) == 1:
        v, m, h = at[0]
        return SymBool(z3.Not(x.e), ((v, ~m & FULL, None if h is None else (not h)),))
    e = x.e
    if z3.is_not(e):
        return mkbool(e.arg(0))
    return SymBool(z3.Not(e), None)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    ys, at, seen = [], [], set()
    for x in xs:
        if type(x) is not SymBool:
            if not x:
                return False
            continue
        ys.append(x.e)
        if at is not None:
            if x.atoms is None:
                at = None
            else:
                for a in x.atoms:
                    if a[0] in seen:
                        at = None
                        break
                    seen.add(a[0])
                    at.append(a)
    if not ys:
        return True
    if len(ys) == 1:
        return SymBool(ys[0], tuple(at) if at is not None else None)
    return SymBool(z3.And(ys), tuple(at) if at is not None else None)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    ys = []
    at0 = None
    same = True
    for x in xs:
        if type(x) is not SymBool:
            if x:
                return True
            continue
        ys.append(x.e)
        if same:
            if x.atoms is None or len(x.atoms) != 1:
                same = False
            elif at0 is None:
                at0 = x.atoms[0]
            elif x.atoms[0][0] == at0[0]:
                h1, h2 = at0[2], x.atoms[0][2]
                h = True if (h1 is True or h2 is True) else (False if (h1 is False and h2 is False) else None)
                at0 = (at0[0], at0[1] | x.atoms[0][1], h)
            else:
                same = False
    if not ys:
        return False
    if len(ys) == 1:
        return SymBool(ys[0], (at0,) if same and at0 else None)
    return SymBool(z3.Or(ys), (at0,) if same and at0 else None)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = as_symbool(a), as_symbool(b)
    return mkbool(a.e == b.e)


# ---------------------------------------------------------------- integers
MAX_BV = 1024       # width up to which sums and products of bit vectors stay bit vectors


class SymInt(object):
    """Integer: either an Int term (i) or an unsigned bit-vector term (bv)."""
    __slots__ = ('_i', 'bv', 'v', 't')

    def __init__(self, i=None, bv=None, v=None, t=None):
        self._i, self.bv, self.v, self.t = i, bv, v, t

    @property
    def __class__(self):
        return int

    @property
    def i(self):
        if self._i is None:
            self._i = z3.BV2Int(self.bv)
        return self._i

    def __repr__(self):
        return 'SymInt(%s)' % (self.bv if self._i is None else self._i)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(self)

    def __float__(self):
        return float(concretize_int(self))

    def _cmp(self, o, op):
        if type(o) is float:
            if o == int(o):
                o = int(o)
            else:
                import math
                fl = math.floor(o)
                if op in ('<', '<='):
                    o, op = fl, '<='
                elif op in ('>', '>='):
                    o, op = fl, '>'
                else:
                    return op == '!='
        if type(o) in (bool, SymBool):
            o = int(bool(o))
        if type(o) is int:
            if self.bv is not None:
                w = self.bv.size()
                if o < 0:
                    return {'==': False, '!=': True, '<': False, '<=': False, '>': True, '>=': True}[op]
                if o >= (1 << w):
                    return {'==': False, '!=': True, '<': True, '<=': True, '>': False, '>=': False}[op]
                b, c = self.bv, z3.BitVecVal(o, w)
                e = {'==': lambda: b == c, '!=': lambda: b != c, '<': lambda: z3.ULT(b, c),
                     '<=': lambda: z3.ULE(b, c), '>': lambda: z3.UGT(b, c), '>=': lambda: z3.UGE(b, c)}[op]()
                at = None
                if self.v is not None:
                    f = {'==': o.__eq__, '!=': o.__ne__, '<': o.__gt__, '<=': o.__ge__,
                         '>': o.__lt__, '>=': o.__le__}[op]
                    at = (_atom(self.v, self.t, f, w),)
                    return SymBool(e, at)
                return mkbool(e)
            x, y = self.i, z3.IntVal(o)
        elif type(o) is SymInt:
            if self.bv is not None and o.bv is not None:
                w = max(self.bv.size(), o.bv.size())
                b, c = zext(self.bv, w), zext(o.bv, w)
                return mkbool({'==': lambda: b == c, '!=': lambda: b != c, '<': lambda: z3.ULT(b, c),
                               '<=': lambda: z3.ULE(b, c), '>': lambda: z3.UGT(b, c),
                               '>=': lambda: z3.UGE(b, c)}[op]())
            x, y = self.i, o.i
        else:
            return NotImplemented
        return mkbool({'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y,
                       '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]())

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def _arith(self, o, f, swap=False):
        if type(o) is float and o == int(o):
            o = int(o)
        if type(o) in (bool, SymBool):
            o = int(bool(o))
        if type(o) is int:
            y = z3.IntVal(o)
        elif type(o) is SymInt:
            y = o.i
        else:
            return NotImplemented
        x = self.i
        if swap:
            x, y = y, x
        return mkint(f(x, y))

    def _both(self, o, r, which):
        """Add the exact bit-vector term to a sum or product of unsigned bit vectors."""
        if type(r) is not SymInt or self.bv is None:
            return r
        if type(o) is SymInt:
            if o.bv is None:
                return r
            b = o.bv
        elif type(o) is int and o >= 0:
            b = z3.BitVecVal(o, max(o.bit_length(), 1))
        else:
            return r
        a = self.bv
        if which == '+':
            w = max(a.size(), b.size()) + 1
        elif type(o) is int and o and o & (o - 1) == 0:
            w = a.size() + o.bit_length() - 1
            if w <= MAX_BV and o > 1:
                r.bv = z3.simplify(z3.Concat(a, z3.BitVecVal(0, o.bit_length() - 1)))
            return r
        else:
            w = a.size() + b.size()
        if w > MAX_BV:
            return r
        a, b = zext(a, w), zext(b, w)
        r.bv = z3.simplify(a + b if which == '+' else a * b)
        return r

    def __add__(self, o):
        return self._both(o, self._arith(o, lambda x, y: x + y), '+')
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._arith(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._both(o, self._arith(o, lambda x, y: x * y), '*')
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.i)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.i >= 0, self.i, -self.i))

    def _divmod(self, o, which):
        if type(o) is SymInt:
            o = concretize_int(o)
        if type(o) is not int:
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            raise Incomplete('negative divisor')
        if self.bv is not None and o & (o - 1) == 0:
            k = o.bit_length() - 1
            w = self.bv.size()
            if which == 'm':
                return mkbv(z3.Extract(k - 1, 0, self.bv)) if 0 < k < w else (0 if k == 0 else self)
            return mkbv(z3.Extract(w - 1, k, self.bv)) if k < w else 0
        return mkint(self.i % o if which == 'm' else self.i / o)

    def __mod__(self, o):
        return self._divmod(o, 'm')

    def __floordiv__(self, o):
        return self._divmod(o, 'd')

    def __rmod__(self, o):
        return o % concretize_int(self)

    def __rfloordiv__(self, o):
        return o // concretize_int(self)

    def __truediv__(self, o):
        return concretize_int(self) / o

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if type(o) is int and m is None and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(concretize_int(self), o, m)

    def __rpow__(self, o):
        return pow(o, concretize_int(self))

    def _bits(self, o, f, keepw):
        if type(o) is int and o >= 0 and self.bv is not None:
            w = max(self.bv.size(), o.bit_length(), 1)
            return mkbv(f(zext(self.bv, w), z3.BitVecVal(o, w)))
        if type(o) is SymInt and o.bv is not None and self.bv is not None:
            w = max(self.bv.size(), o.bv.size())
            return mkbv(f(zext(self.bv, w), zext(o.bv, w)))
        a, b = concretize_int(self), (concretize_int(o) if type(o) is SymInt else o)
        return z3.simplify(f(z3.BitVecVal(a, 64), z3.BitVecVal(b, 64))).as_long()

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b, True)
    __rxor__ = __xor__

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b, True)
    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b, True)
    __ror__ = __or__

    def __rshift__(self, k):
        if type(k) is SymInt:
            k = concretize_int(k)
        if self.bv is None:
            return self // (1 << k)
        w = self.bv.size()
        return mkbv(z3.Extract(w - 1, k, self.bv)) if k < w else 0

    def __lshift__(self, k):
        if type(k) is SymInt:
            k = concretize_int(k)
        if self.bv is None:
            return self * (1 << k)
        return mkbv(z3.Concat(self.bv, z3.BitVecVal(0, k))) if k else self

    def __rlshift__(self, o):
        return o << concretize_int(self)

    def __rrshift__(self, o):
        return o >> concretize_int(self)

    def bit_length(self):
        if self.bv is not None:
            for k in range(self.bv.size() + 1):
                if self < (1 << k):
                    return k
        for k in range(0, 4096):
            if self < (1 << k):
                return k
        raise Incomplete('bit_length')

    def to_bytes(self, n=1, byteorder='big', signed=False):
        if type(n) is SymInt:
            n = concretize_int(n)
        if self.bv is None:
            return concretize_int(self).to_bytes(n, byteorder, signed=signed)
        if signed:
            if self >= (1 << (8 * n - 1)):
                raise OverflowError('int too big to convert')
        elif self >= (1 << (8 * n)):
            raise OverflowError('int too big to convert')
        b = zext(self.bv, max(8 * n, self.bv.size()))
        out = [mkch(z3.Extract(8 * k + 7, 8 * k, b)) for k in range(n - 1, -1, -1)]
        if byteorder == 'little':
            out.reverse()
        return mkbytes(out)

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return str(concretize_int(self))

    def __format__(self, spec):
        return format(concretize_int(self), spec)

    def is_integer(self):
        return True


def zext(b, w):
    return z3.ZeroExt(w - b.size(), b) if b.size() < w else b


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbv(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymInt(None, e)


def concretize_int(x, limit=64):
    """Enumerate the values of x by forking (all values if few)."""
    if type(x) is not SymInt:
        return x
    en = Engine.cur
    for _ in range(limit):
        i = len(en.decisions)
        if i < len(en.prefix) and isinstance(en.prefix[i], tuple):
            v = en.prefix[i][1]
        else:
            m = en.model()
            v = m.eval(x.bv if x.bv is not None else x.i, model_completion=True).as_long()
        en.decisions.append(('v', v))
        if x == v:
            return v
    en.note_incomplete('integer enumeration')
    raise PathAbort('enumeration limit')


# ---------------------------------------------------------------- characters
class Ch(object):
    """One symbolic character/byte: z3 term e; if it is a function of a single
    variable v, t maps the values 0..255 of v to results (None: identity)."""
    __slots__ = ('e', 'v', 't', 's', 'o', 'p', 'g')

    def __init__(self, e, v=None, t=None, s=None, o=None):
        self.g = None    # (injective encoding, what it encodes, position, length)
        self.p = None    # (name of an injective function, its argument)
        # s: mask over-approximating the possible values (all below 256)
        # o: term of which this is an injective function (base64 digit value)
        self.e, self.v, self.t, self.s, self.o = e, v, t, s, o


def mkch(e, v=None, t=None, s=None, o=None):
    if z3.is_bv_value(e):
        return e.as_long()
    if v is None:
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
    return Ch(e, v, t, s, o)


def recast(c, e):
    """The same character in another width."""
    d = mkch(e, c.v, c.t, c.s, c.o)
    if type(d) is Ch:
        d.p, d.g = c.p, c.g
    return d


def mask_of(values):
    m = 0
    for x in values:
        m |= 1 << (ord(x) if isinstance(x, str) else x)
    return m


HEXMASK_L = mask_of('0123456789abcdef')
HEXMASK_U = mask_of('0123456789ABCDEF')


_mask_cache = {}


def _atom(v, t, f, w):
    m = 0
    if t is None:
        for i in range(256):
            if f(i):
                m |= 1 << i
    else:
        for i in range(256):
            if f(t[i]):
                m |= 1 << i
    return (v, m, None)


def ch_eq(a, b):
    """Equality of two elements (int or Ch of equal width)."""
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return a == b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        w = a.e.size()
        if b >= (1 << w):
            return False
        if a.s is not None and (b > 255 or not (a.s >> b) & 1):
            return False
        if a.v is not None:
            if a.t is None:
                if b < 256:
                    at = (a.v, 1 << b, False)
                else:
                    at = (a.v, 0, None)
            else:
                m = 0
                t = a.t
                for i in range(256):
                    if t[i] == b:
                        m |= 1 << i
                at = (a.v, m, None)
            return SymBool(a.e == b, (at,))
        return mkbool(a.e == b)
    if a is b or a.e.get_id() == b.e.get_id():
        return True
    if a.o is not None and b.o is not None:
        return mkbool(z3.simplify(a.o == b.o))
    if a.p is not None and b.p is not None and a.p[0] == b.p[0]:
        return mkbool(z3.simplify(a.p[1] == b.p[1]))
    return mkbool(a.e == b.e)


def subst_ch(c, old, new):
    """The character with one value exchanged for another (no fork)."""
    if type(c) is int:
        return new if c == old else c
    r = ch_eq(c, old)
    if r is False:
        return c
    if r is True:
        return new
    w = c.e.size()
    v, t = c.v, c.t
    if v is not None:
        if old > 255 or new > 255:
            v, t = None, None
        else:
            t = list(range(256)) if t is None else list(t)
            t = tuple(new if x == old else x for x in t)
    m = None
    if c.s is not None and new < 256:
        m = (c.s & ~(1 << old)) | (1 << new)
    d = mkch(z3.If(c.e == old, z3.BitVecVal(new, w), c.e), v, t, m)
    if type(d) is Ch and c.s is not None and not (c.s >> new) & 1:
        src = ('b64', c.o) if c.o is not None else c.p
        if src is not None:
            d.p = ('%s|%d>%d' % (src[0], old, new), src[1])
        if c.g is not None:
            d.g = ('%s|%d>%d' % (c.g[0], old, new),) + c.g[1:]
    return d


def set_group(cells, kind, src):
    n = len(cells)
    for i, c in enumerate(cells):
        if type(c) is Ch:
            c.g = (kind, src, i, n)
    return cells


def whole_group(cells):
    """(kind, source) if the cells are one whole encoding."""
    if not cells or type(cells[0]) is int or cells[0].g is None:
        return None
    k, src, i, n = cells[0].g
    if n != len(cells):
        return None
    for j, c in enumerate(cells):
        if type(c) is int or c.g is None or c.g[0] != k or c.g[1] is not src or c.g[2] != j:
            return None
    return k, src


def _group_eq(a, b, i):
    """(number of cells, condition) when the same whole encodings stand at position i."""
    ga, gb = a[i].g, b[i].g
    if ga[2] != 0 or gb[2] != 0 or ga[3] != gb[3] or ga[0] != gb[0]:
        return None
    n = ga[3]
    if i + n > len(a):
        return None
    wa, wb = a[i:i + n], b[i:i + n]
    for j in range(n):
        x, y = wa[j], wb[j]
        if type(x) is int or type(y) is int or x.g is None or y.g is None or x.g[0] != y.g[0] or x.g[1] is not ga[1] or y.g[1] is not gb[1] \
                or x.g[2] != j or y.g[2] != j:
            return None
    if ga[1] is gb[1]:
        return n, True
    sa, sb = ga[1], gb[1]
    if type(sa) is tuple:
        if len(sa) != len(sb):
            return None
        return n, And([cells_eq(x, y) for x, y in zip(sa, sb)])
    return n, sa == sb


def ch_in_ranges(a, ranges, key=None):
    """a in any of the inclusive ranges [(lo, hi)...]."""
    if type(a) is int:
        for lo, hi in ranges:
            if lo <= a <= hi:
                return True
        return False
    w = a.e.size()
    if a.s is not None:
        rm = 0
        for lo, hi in ranges:
            if lo < 256:
                rm |= (1 << (min(hi, 255) + 1)) - (1 << lo)
        if not (a.s & rm):
            return False
        if not (a.s & ~rm):
            return True
    top = (1 << w) - 1
    es = []
    for lo, hi in ranges:
        if lo > top:
            continue
        hi = min(hi, top)
        if lo == hi:
            es.append(a.e == lo)
        elif lo == 0:
            es.append(z3.ULE(a.e, hi))
        else:
            es.append(z3.And(z3.UGE(a.e, lo), z3.ULE(a.e, hi)))
    e = z3.Or(es) if len(es) > 1 else (es[0] if es else _ZF)
    if a.v is not None:
        k = (tuple(ranges), a.t)
        m = _mask_cache.get(k)
        if m is None:
            mm = 0
            for i in range(256):
                x = i if a.t is None else a.t[i]
                for lo, hi in ranges:
                    if lo <= x <= hi:
                        mm |= 1 << i
                        break
            hi_t = None
            if a.t is None:
                above = [(max(lo, 256), hi) for lo, hi in ranges if hi >= 256]
                if not above:
                    hi_t = False
                elif len(above) == 1 and above[0][0] == 256 and above[0][1] >= 0x10ffff:
                    hi_t = True
            m = _mask_cache[k] = (mm, hi_t)
        return SymBool(e, ((a.v, m[0], m[1]),))
    return mkbool(e)


_pred_ranges = {}


def pred_ranges(name):
    """Inclusive code point ranges on which str.<name>() holds."""
    r = _pred_ranges.get(name)
    if r is None:
        r, start = [], None
        f = getattr(str, name)
        for i in range(0x110000):
            if f(chr(i)):
                if start is None:
                    start = i
            elif start is not None:
                r.append((start, i - 1))
                start = None
        if start is not None:
            r.append((start, 0x10ffff))
        r = _pred_ranges[name] = tuple(r)
    return r


_LOWER = tuple((i + 32 if 65 <= i <= 90 else i) for i in range(256))
_UPPER = tuple((i - 32 if 97 <= i <= 122 else i) for i in range(256))


# ---------------------------------------------------------------- sequences
def _idx(k):
    if k is None or type(k) is int:
        return k
    return k.__index__()


class SymSeq(object):
    """Common part of symbolic text and bytes: fixed length, symbolic cells."""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __hash__(self):
        return hash(concretize(self, 'hash of symbolic string'))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _cells(self, o):
        if type(o) is type(self):
            return o.cs
        if type(o) is str and self.TEXT:
            return [ord(c) for c in o]
        if type(o) in (bytes, bytearray) and not self.TEXT:
            return list(o)
        return None

    def _need(self, o, what='argument'):
        c = self._cells(o)
        if c is None:
            raise TypeError('%s must be %s, not %s' % (what, 'str' if self.TEXT else 'bytes-like', type(o).__name__))
        return c

    def __eq__(self, o):
        c = self._cells(o)
        if c is None:
            return False
        return cells_eq(self.cs, c)

    def __ne__(self, o):
        return Not(self == o)

    def _lt(self, o, orEq):
        c = self._cells(o)
        if c is None:
            return NotImplemented
        return cells_lt(self.cs, c, orEq)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else Not(r)

    def __add__(self, o):
        c = self._cells(o)
        if c is None:
            return NotImplemented
        return self.mk(self.cs + list(c))

    def __radd__(self, o):
        c = self._cells(o)
        if c is None:
            return NotImplemented
        return self.mk(list(c) + self.cs)

    def __mul__(self, n):
        return self.mk(self.cs * _idx(n))
    __rmul__ = __mul__

    def __getitem__(self, k):
        if type(k) is slice or isinstance(k, slice):
            return self.mk(self.cs[slice(_idx(k.start), _idx(k.stop), _idx(k.step))])
        k = _idx(k)
        if not -len(self.cs) <= k < len(self.cs):
            raise IndexError('string index out of range')
        return self.one(self.cs[k])

    def __iter__(self):
        for c in self.cs:
            yield self.one(c)

    def __contains__(self, o):
        if not self.TEXT and isinstance(o, int):
            o = self.mk([byte_cell(o)])
        return self.find(o) >= 0

    def _at(self, i, sub):
        return cells_eq(self.cs[i:i + len(sub)], sub)

    def _range(self, start, end):
        n = len(self.cs)
        s, e, _ = slice(_idx(start), _idx(end)).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = self._need(sub)
        s, e = self._range(start, end)
        if _idx(start) is not None and _idx(start) > len(self.cs):
            return -1
        for i in range(s, e - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._need(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = self._need(sub)
        s, e = self._range(start, end)
        if not sub:
            return e - s + 1
        n, i = 0, s
        while i + len(sub) <= e:
            if self._at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        if isinstance(p, tuple):
            return Or([self[s:e].startswith(x) if len(self[s:e]) else x == p.__class__ or len(x) == 0 for x in p]) if e > s \
                else any(len(x) == 0 for x in p)
        p = self._need(p)
        if len(p) > e - s:
            return False
        return cells_eq(self.cs[s:s + len(p)], p)

    def endswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        if isinstance(p, tuple):
            return Or([self.endswith(x, start, end) for x in p])
        p = self._need(p)
        if len(p) > e - s:
            return False
        return cells_eq(self.cs[e - len(p):e], p)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = _idx(maxsplit)
        if sep is None:
            return self._split_ws(maxsplit)
        sep = self._need(sep)
        if not sep:
            raise ValueError('empty separator')
        out, i, last = [], 0, 0
        while i + len(sep) <= len(self.cs):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._at(i, sep):
                out.append(self.mk(self.cs[last:i]))
                i += len(sep)
                last = i
            else:
                i += 1
        out.append(self.mk(self.cs[last:]))
        return out

    def _split_ws(self, maxsplit):
        out, cur, i, n = [], [], 0, len(self.cs)
        while i < n:
            c = self.cs[i]
            if bool(self._isspace(c)):
                if cur:
                    out.append(self.mk(cur))
                    cur = []
                i += 1
            else:
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = self.mk(self.cs[i:]).rstrip()
                    out.append(rest)
                    return out
                cur.append(c)
                i += 1
        if cur:
            out.append(self.mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = _idx(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(-1)
            raise Incomplete('rsplit(None, n)')
        sep = self._need(sep)
        if not sep:
            raise ValueError('empty separator')
        out, end, i = [], len(self.cs), len(self.cs) - len(sep)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._at(i, sep):
                out.append(self.mk(self.cs[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(self.mk(self.cs[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        if self.TEXT:
            lb = ((10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029))
        else:
            lb = ((10, 10), (13, 13))
        out, cur, i, n = [], [], 0, len(self.cs)
        while i < n:
            c = self.cs[i]
            if bool(ch_in_ranges(c, lb)):
                end = [c]
                if i + 1 < n and bool(ch_eq(c, 13)) and bool(ch_eq(self.cs[i + 1], 10)):
                    end.append(self.cs[i + 1])
                    i += 1
                out.append(self.mk(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(self.mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        e = self.mk([])
        if i < 0:
            return (self, e, e)
        n = len(sep)
        return (self[:i], self[i:i + n], self[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self.mk([])
        if i < 0:
            return (e, e, self)
        n = len(sep)
        return (self[:i], self[i:i + n], self[i + n:])

    def replace(self, old, new, count=-1):
        old, new = self._need(old), list(self._need(new))
        count = _idx(count)
        if not old:
            raise Incomplete('replace of empty string')
        if count < 0 and len(old) == 1 and len(new) == 1 and type(old[0]) is int and type(new[0]) is int:
            return self.mk([subst_ch(c, old[0], new[0]) for c in self.cs])
        out, i, n = [], 0, 0
        while i < len(self.cs):
            if (count < 0 or n < count) and i + len(old) <= len(self.cs) and bool(self._at(i, old)):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return self.mk(out)

    def _strippred(self, chars):
        if chars is None:
            return self._isspace
        cells = self._need(chars)

        def f(c):
            return Or([ch_eq(c, x) for x in cells])
        if all(type(x) is int for x in cells):
            rs = tuple((x, x) for x in sorted(set(cells)))
            return lambda c: ch_in_ranges(c, rs) if rs else False
        return f

    def strip(self, chars=None):
        return self.mk(self._rs(self._ls(self.cs, chars), chars))

    def lstrip(self, chars=None):
        return self.mk(self._ls(self.cs, chars))

    def rstrip(self, chars=None):
        return self.mk(self._rs(self.cs, chars))

    def _ls(self, cs, chars):
        f = self._strippred(chars)
        i = 0
        while i < len(cs) and f(cs[i]):
            i += 1
        return cs[i:]

    def _rs(self, cs, chars):
        f = self._strippred(chars)
        i = len(cs)
        while i > 0 and f(cs[i - 1]):
            i -= 1
        return cs[:i]

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self[:len(self) - len(p)]
        return self

    def join(self, seq):
        out = []
        for k, x in enumerate(seq):
            if k:
                out.extend(self.cs)
            c = self._cells(x)
            if c is None:
                raise TypeError('sequence item %d: expected %s instance, %s found' % (
                    k, 'str' if self.TEXT else 'bytes-like', x.__class__.__name__))
            out.extend(c)
        return self.mk(out)

    def _case(self, table, lo, hi, delta, name):
        out = []
        for c in self.cs:
            if type(c) is int:
                r = getattr(chr(c) if self.TEXT else bytes([c]), name)()
                out.extend([ord(x) for x in r] if self.TEXT else list(r))
                continue
            if self.TEXT and not bool(ch_in_ranges(c, ((0, 127),))):
                r = getattr(chr(concretize_ch(c, name + ' of non-ASCII')), name)()
                out.extend(ord(x) for x in r)
                continue
            e = z3.If(z3.And(z3.UGE(c.e, lo), z3.ULE(c.e, hi)), c.e + delta, c.e)
            t = None
            if c.v is not None:
                t = table if c.t is None else tuple(table[x] for x in c.t)
            out.append(Ch(e, c.v, t) if c.v is not None else mkch(e))
        return self.mk(out)

    def lower(self):
        return self._case(_LOWER, 65, 90, 32, 'lower')

    def casefold(self):
        return self._case(_LOWER, 65, 90, 32, 'casefold')

    def upper(self):
        return self._case(_UPPER, 97, 122, -32, 'upper')

    def _all(self, rs):
        if not self.cs:
            return False
        for c in self.cs:
            if not ch_in_ranges(c, rs):
                return False
        return True

    def isascii(self):
        return not self.cs or self._all(((0, 127),))

    def _pred(self, name):
        if self.TEXT:
            return self._all(pred_ranges(name))
        return self._all(tuple((a, min(b, 127)) for a, b in pred_ranges(name) if a < 128))

    def isdigit(self):
        return self._pred('isdigit')

    def isalpha(self):
        return self._pred('isalpha')

    def isalnum(self):
        return self._pred('isalnum')

    def isspace(self):
        if not self.cs:
            return False
        for c in self.cs:
            if not self._isspace(c):
                return False
        return True

    def isdecimal(self):
        return self._pred('isdecimal')

    def isnumeric(self):
        return self._pred('isnumeric')

    def isprintable(self):
        return not self.cs or self._pred('isprintable')

    def zfill(self, n):
        d = _idx(n) - len(self.cs)
        if d <= 0:
            return self
        if self.cs and bool(ch_in_ranges(self.cs[0], ((43, 43), (45, 45)))):
            return self.mk(self.cs[:1] + [48] * d + self.cs[1:])
        return self.mk([48] * d + self.cs)

    def ljust(self, n, fill=' '):
        return self.mk(self.cs + [ord(fill)] * max(0, _idx(n) - len(self.cs)))

    def rjust(self, n, fill=' '):
        return self.mk([ord(fill)] * max(0, _idx(n) - len(self.cs)) + self.cs)

    def translate(self, table, delete=b''):
        if not self.TEXT:
            raise Incomplete('bytes.translate')
        out = []
        for c in self.cs:
            hit = False
            for k, v in table.items():
                k = ord(k) if isinstance(k, str) else k
                if bool(ch_eq(c, k)):
                    hit = True
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(text_cells(v))
                    break
            if not hit:
                out.append(c)
        return self.mk(out)

    def title(self):
        raise Incomplete('title()')

    def expandtabs(self, n=8):
        raise Incomplete('expandtabs()')


def cells_eq(a, b):
    if len(a) != len(b):
        return False
    cs = []
    skip = 0
    for i, (x, y) in enumerate(zip(a, b)):
        if skip:
            skip -= 1
            continue
        if type(x) is Ch and type(y) is Ch and x.g is not None and y.g is not None:
            q = _group_eq(a, b, i)
            if q is not None:
                skip = q[0] - 1
                r = q[1]
            else:
                r = ch_eq(x, y)
        else:
            r = ch_eq(x, y)
        if r is True:
            continue
        if r is False:
            return False
        cs.append(r)
    return And(cs) if cs else True


def cells_lt(a, b, or_eq):
    if not b:
        return or_eq and not a
    if not a:
        return True
    x, y = a[0], b[0]
    if type(x) is int and type(y) is int:
        if x != y:
            return x < y
        return cells_lt(a[1:], b[1:], or_eq)
    w = (x if type(x) is Ch else y).e.size()
    ex = z3.BitVecVal(x, w) if type(x) is int else x.e
    ey = z3.BitVecVal(y, w) if type(y) is int else y.e
    lt = mkbool(z3.ULT(ex, ey))
    rest = cells_lt(a[1:], b[1:], or_eq)
    return Or(lt, And(ch_eq(x, y), rest))


class SymStr(SymSeq):
    __slots__ = ()
    TEXT = True

    @property
    def __class__(self):
        return str

    @staticmethod
    def mk(cs):
        return mkstr(cs)

    @staticmethod
    def one(c):
        return chr(c) if type(c) is int else SymStr([c])

    def _isspace(self, c):
        if type(c) is int:
            return chr(c).isspace()
        return ch_in_ranges(c, pred_ranges('isspace'))

    def __repr__(self):
        return "'" + ''.join(chr(c) if type(c) is int else '\u00bf' for c in self.cs) + "'"

    def __str__(self):
        return concretize(self, 'str() of symbolic text')

    def __format__(self, spec):
        return format(concretize(self, 'format() of symbolic text'), spec)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out = []
        if enc in ('utf-8', 'utf8'):
            for c in self.cs:
                if type(c) is int:
                    out.extend(chr(c).encode('utf-8', errors))
                    continue
                e = c.e
                if errors == 'surrogateescape' and bool(ch_in_ranges(c, ((0xdc80, 0xdcff),))):
                    out.append(mkch(z3.Extract(7, 0, e)))
                    continue
                if bool(ch_in_ranges(c, ((0, 0x7f),))):
                    out.append(recast(c, z3.Extract(7, 0, e)))
                elif bool(ch_in_ranges(c, ((0x80, 0x7ff),))):
                    out.append(mkch(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, e))))
                    out.append(mkch(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, e))))
                elif bool(ch_in_ranges(c, ((0xd800, 0xdfff),))):
                    if errors not in ('strict', 'surrogateescape'):
                        raise Incomplete('encode errors=' + errors)
                    raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
                elif bool(ch_in_ranges(c, ((0x800, 0xffff),))):
                    out.append(mkch(z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, e))))
                    out.append(mkch(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(11, 6, e))))
                    out.append(mkch(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, e))))
                else:
                    out.append(mkch(z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, e))))
                    out.append(mkch(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(17, 12, e))))
                    out.append(mkch(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(11, 6, e))))
                    out.append(mkch(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, e))))
            return mkbytes(out)
        if enc in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            lim = 127 if 'ascii' in enc else 255
            for c in self.cs:
                if bool(ch_in_ranges(c, ((0, lim),))):
                    out.append(c if type(c) is int else recast(c, z3.Extract(7, 0, c.e)))
                else:
                    if errors == 'ignore':
                        continue
                    if errors == 'replace':
                        out.append(63)
                        continue
                    if errors != 'strict':
                        raise Incomplete('encode errors=' + errors)
                    raise UnicodeEncodeError('ascii', '\u0fff', 0, 1, 'ordinal not in range(%d)' % (lim + 1))
            return mkbytes(out)
        if enc == 'idna' and errors == 'strict' and all([bool(ch_in_ranges(c, ((0, 127),))) for c in self.cs]):
            # the codec's path for pure ASCII names
            labels = self.split('.')
            for i, l in enumerate(labels):
                if len(l) >= 64 or (len(l) == 0 and i < len(labels) - 1):
                    raise UnicodeError('label empty or too long')
            return mkbytes([c if type(c) is int else recast(c, z3.Extract(7, 0, c.e)) for c in self.cs])
        return concretize(self, 'encode ' + enc).encode(encoding, errors)

    def isidentifier(self):
        return concretize(self, 'isidentifier').isidentifier()

    def islower(self):
        return concretize(self, 'islower').islower()

    def isupper(self):
        return concretize(self, 'isupper').isupper()

    def format(self, *a, **k):
        from . import rt
        return rt.str_format(self, a, k)

    def __mod__(self, o):
        from . import rt
        return rt.percent(self, o)


class SymBytes(SymSeq):
    __slots__ = ()
    TEXT = False

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def mk(cs):
        return mkbytes(cs)

    @staticmethod
    def one(c):
        if type(c) is int:
            return c
        return SymInt(None, c.e, c.v, c.t)

    def _isspace(self, c):
        return ch_in_ranges(c, ((9, 13), (32, 32)))

    def __repr__(self):
        return "b'" + ''.join(chr(c) if type(c) is int else '\u00bf' for c in self.cs) + "'"

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            out = []
            for c in self.cs:
                if 'ascii' in enc and not ch_in_ranges(c, ((0, 127),)):
                    if errors == 'ignore':
                        continue
                    if errors == 'replace':
                        out.append(0xfffd)
                        continue
                    raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
                out.append(c if type(c) is int else recast(c, z3.ZeroExt(CW - 8, c.e)))
            return mkstr(out)
        if enc in ('utf-8', 'utf8'):
            return mkstr(utf8_decode(self.cs, errors))
        return concretize(self, 'decode ' + enc).decode(encoding, errors)

    def hex(self):
        out = []
        for c in self.cs:
            out.extend(hex_cells(c))
        return mkstr(out)

    def __mod__(self, o):
        raise Incomplete('bytes % formatting')


def utf8_decode(cs, errors):
    out, i, n = [], 0, len(cs)

    def inr(c, lo, hi):
        return bool(ch_in_ranges(c, ((lo, hi),)))

    def bad(k):
        if errors == 'strict':
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid byte')
        if errors == 'replace':
            out.append(0xfffd)
        elif errors == 'surrogateescape':
            for x in cs[i:i + k]:
                out.append(0xdc00 + x if type(x) is int else mkch(z3.ZeroExt(CW - 8, x.e) + 0xdc00))
        elif errors != 'ignore':
            raise Incomplete('decode errors=' + errors)
        return k

    def ex(c, hi, lo):
        e = z3.BitVecVal(c, 8) if type(c) is int else c.e
        return z3.Extract(hi, lo, e)

    def mk(*parts):
        e = z3.Concat(*parts)
        e = zext(e, CW)
        return mkch(e)
    while i < n:
        c = cs[i]
        if inr(c, 0, 0x7f):
            out.append(c if type(c) is int else recast(c, z3.ZeroExt(CW - 8, c.e)))
            i += 1
        elif inr(c, 0xc2, 0xdf):
            if i + 1 < n and inr(cs[i + 1], 0x80, 0xbf):
                out.append(mk(ex(c, 4, 0), ex(cs[i + 1], 5, 0)))
                i += 2
            else:
                i += bad(1)
        elif inr(c, 0xe0, 0xef):
            lo, hi = 0x80, 0xbf
            if bool(ch_eq(c, 0xe0)):
                lo = 0xa0
            elif bool(ch_eq(c, 0xed)):
                hi = 0x9f
            if i + 1 < n and inr(cs[i + 1], lo, hi):
                if i + 2 < n and inr(cs[i + 2], 0x80, 0xbf):
                    out.append(mk(ex(c, 3, 0), ex(cs[i + 1], 5, 0), ex(cs[i + 2], 5, 0)))
                    i += 3
                else:
                    i += bad(2)
            else:
                i += bad(1)
        elif inr(c, 0xf0, 0xf4):
            lo, hi = 0x80, 0xbf
            if bool(ch_eq(c, 0xf0)):
                lo = 0x90
            elif bool(ch_eq(c, 0xf4)):
                hi = 0x8f
            if i + 1 < n and inr(cs[i + 1], lo, hi):
                if i + 2 < n and inr(cs[i + 2], 0x80, 0xbf):
                    if i + 3 < n and inr(cs[i + 3], 0x80, 0xbf):
                        out.append(mk(ex(c, 2, 0), ex(cs[i + 1], 5, 0), ex(cs[i + 2], 5, 0), ex(cs[i + 3], 5, 0)))
                        i += 4
                    else:
                        i += bad(3)
                else:
                    i += bad(2)
            else:
                i += bad(1)
        else:
            i += bad(1)
    return out


def hex_digit_cell(nib, upper=False, w=CW):
    """Cell for the hex digit of a 4-bit z3 term or int."""
    if type(nib) is int:
        return ord(('%X' if upper else '%x') % nib)
    z = z3.ZeroExt(w - 4, nib)
    return mkch(z3.If(z3.ULT(z, 10), z + 48, z + (55 if upper else 87)), s=HEXMASK_U if upper else HEXMASK_L)


def hex_cells(c, upper=False):
    """Two text cells for a byte cell."""
    if type(c) is int:
        return [ord(x) for x in (('%02X' if upper else '%02x') % c)]
    r = []
    for hi, lo in ((7, 4), (3, 0)):
        nib = z3.Extract(hi, lo, c.e)
        z = z3.ZeroExt(CW - 4, nib)
        e = z3.If(z3.ULT(z, 10), z + 48, z + (55 if upper else 87))
        if c.v is not None:
            fmt = '%X' if upper else '%x'
            t = tuple(ord(fmt % (((x if c.t is None else c.t[x]) >> lo) & 15)) for x in range(256))
            r.append(Ch(e, c.v, t))
        else:
            r.append(mkch(e, s=HEXMASK_U if upper else HEXMASK_L))
    return r


def hexval(c):
    """(is hex digit: SymBool/bool, 4-bit value term or int) of a cell."""
    if type(c) is int:
        try:
            return True, int(chr(c), 16) if c < 128 and chr(c) in '0123456789abcdefABCDEF' else None
        except ValueError:
            return False, None
    e = z3.Extract(7, 0, c.e)
    v = z3.If(z3.ULE(e, 57), e - 48, z3.If(z3.ULE(e, 70), e - 55, e - 87))
    return ch_in_ranges(c, ((48, 57), (65, 70), (97, 102))), z3.simplify(z3.Extract(3, 0, v))


def mkstr(cs):
    for c in cs:
        if type(c) is not int:
            return SymStr(cs)
    return ''.join(map(chr, cs))


def mkbytes(cs):
    for c in cs:
        if type(c) is not int:
            return SymBytes(cs)
    return bytes(cs)


def text_cells(s):
    return s.cs if type(s) is SymStr else [ord(c) for c in s]


def byte_cells(s):
    if type(s) is SymBytes:
        return s.cs
    if type(s) is SymByteArray:
        return s.cs
    return list(s)


def byte_cell(x):
    """A byte cell from an int-like."""
    if type(x) is int:
        if not 0 <= x < 256:
            raise ValueError('bytes must be in range(0, 256)')
        return x
    if x.bv is not None and x.bv.size() <= 8:
        return mkch(zext(x.bv, 8), x.v, x.t) if x.bv.size() == 8 else mkch(zext(x.bv, 8))
    if not (And(x >= 0, x < 256)):
        raise ValueError('bytes must be in range(0, 256)')
    if x.bv is not None:
        return mkch(z3.Extract(7, 0, x.bv))
    return mkch(z3.Int2BV(x.i, 8))


class SymByteArray(SymSeq):
    __slots__ = ()
    TEXT = False
    mk = staticmethod(lambda cs: SymByteArray(list(cs)))
    one = staticmethod(SymBytes.one)
    _isspace = SymBytes._isspace
    __hash__ = None
    decode = SymBytes.decode
    hex = SymBytes.hex

    @property
    def __class__(self):
        return bytearray

    def _cells(self, o):
        if type(o) in (SymBytes, SymByteArray):
            return o.cs
        if type(o) in (bytes, bytearray):
            return list(o)
        return None

    def append(self, x):
        self.cs.append(byte_cell(x))

    def extend(self, xs):
        c = self._cells(xs)
        self.cs.extend(c if c is not None else [byte_cell(x) for x in xs])

    def insert(self, i, x):
        self.cs.insert(_idx(i), byte_cell(x))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            c = self._cells(v)
            self.cs[k] = c if c is not None else [byte_cell(x) for x in v]
        else:
            self.cs[_idx(k)] = byte_cell(v)

    def __delitem__(self, k):
        del self.cs[k]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def pop(self, i=-1):
        return SymBytes.one(self.cs.pop(i))

    def reverse(self):
        self.cs.reverse()


def is_sym(x):
    return type(x) in (SymStr, SymBytes, SymInt, SymBool, SymByteArray)


def concretize_ch(c, why):
    en = Engine.cur
    if type(c) is int:
        return c
    en.note_incomplete('concretised: ' + why)
    i = len(en.decisions)
    if i < len(en.prefix):
        v = en.prefix[i][1]
    else:
        v = en.model().eval(c.e, model_completion=True).as_long()
    en.decisions.append(('v', v))
    r = ch_eq(c, v)
    if type(r) is SymBool:
        if en.known.get(r.e.get_id()) is not True:
            en._commit(r, True)
    return v


def concretize(x, why):
    """Pick one concrete value for x (the path becomes an under-approximation)."""
    t = type(x)
    if t is SymStr:
        return ''.join(chr(concretize_ch(c, why)) for c in x.cs)
    if t is SymBytes:
        return bytes(concretize_ch(c, why) for c in x.cs)
    if t is SymByteArray:
        return bytearray(concretize_ch(c, why) for c in x.cs)
    if t is SymInt:
        return concretize_int(x)
    if t is SymBool:
        return bool(x)
    return x


def model_value(m, x):
    """Concrete value of a (possibly nested) symbolic value in a model."""
    t = type(x)
    if t is SymStr:
        return ''.join(chr(c if type(c) is int else m.eval(c.e, model_completion=True).as_long()) for c in x.cs)
    if t in (SymBytes, SymByteArray):
        return bytes(c if type(c) is int else m.eval(c.e, model_completion=True).as_long() for c in x.cs)
    if t is SymInt:
        return m.eval(x.bv if x.bv is not None else x.i, model_completion=True).as_long()
    if t is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if t is list:
        return [model_value(m, y) for y in x]
    if t is tuple:
        return tuple(model_value(m, y) for y in x)
    if t is dict:
        return {model_value(m, k): model_value(m, v) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- inputs
def new_char(name, ranges, width=CW):
    """Fresh symbolic character constrained to inclusive ranges."""
    en = Engine.cur
    e = z3.BitVec(name, width)
    mask = 0
    hi = False
    for a, b in ranges:
        for i in range(a, min(b, 255) + 1):
            mask |= 1 << i
        if b > 255:
            hi = True
    en.dom[name] = [mask, hi]
    if not (len(ranges) == 1 and ranges[0][0] == 0 and ranges[0][1] == (1 << width) - 1):
        es = []
        for a, b in ranges:
            if a == b:
                es.append(e == a)
            elif a == 0:
                es.append(z3.ULE(e, b))
            else:
                es.append(z3.And(z3.UGE(e, a), z3.ULE(e, b)))
        en.add(z3.Or(es) if len(es) > 1 else es[0])
    return Ch(e, name, None)


UNICODE = ((0, 0xd7ff), (0xe000, 0x10ffff))


def new_str(name, n, ranges=UNICODE):
    return mkstr([new_char('%s.%d' % (name, i), ranges) for i in range(n)])


def new_bytes(name, n, ranges=((0, 255),)):
    return mkbytes([new_char('%s.%d' % (name, i), ranges, 8) for i in range(n)])


def new_int(name, lo=None, hi=None):
    en = Engine.cur
    e = z3.Int(name)
    if lo is not None:
        en.add(e >= lo)
    if hi is not None:
        en.add(e <= hi)
    return SymInt(e)


def new_bvint(name, width):
    return SymInt(None, z3.BitVec(name, width))


def new_bool(name):
    return SymBool(z3.Bool(name))
