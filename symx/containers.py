"""Dictionaries and sets whose keys may be symbolic."""
from .core import (SymStr, SymBytes, SymInt, SymBool, SymByteArray, And, Or, Not, ch_in_ranges)

_SYM = (SymStr, SymBytes, SymInt, SymBool)


def key_sym(k):
    t = type(k)
    if t in _SYM:
        return True
    if t is tuple or (isinstance(k, tuple) and t not in _SYM):
        for x in k:
            if key_sym(x):
                return True
    return False


def eq(a, b):
    """Equality as a condition (no forking for strings/ints/tuples)."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = eq(x, y)
            if r is False:
                return False
            if r is not True:
                out.append(r)
        return And(out) if out else True
    if isinstance(a, list) and isinstance(b, list) and type(a) is list and type(b) is list:
        return eq(tuple(a), tuple(b))
    r = a == b
    if r is NotImplemented:
        return False
    return r


_MISSING = object()


class SymDict(object):
    """Insertion-ordered dict; concrete keys are indexed, symbolic keys are
    compared one by one (each comparison may fork)."""
    __slots__ = ('ks', 'vs', 'ix', 'nsym', '__weakref__')

    def __init__(self, *a, **kw):
        self.ks, self.vs, self.ix, self.nsym = [], [], {}, 0
        self.update(*a, **kw)

    @property
    def __class__(self):
        return dict

    # -- lookup
    def _find(self, k):
        if key_sym(k):
            for i in range(len(self.ks)):
                if self.ks[i] is _MISSING:
                    continue
                if eq(self.ks[i], k):
                    return i
            return -1
        i = self.ix.get(k)
        if i is not None:
            return i
        if self.nsym:
            for i in range(len(self.ks)):
                q = self.ks[i]
                if q is not _MISSING and key_sym(q) and eq(q, k):
                    return i
        return -1

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        return self.vs[i]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i >= 0:
            self.vs[i] = v
            return
        if not key_sym(k):
            self.ix[k] = len(self.ks)
        else:
            self.nsym += 1
        self.ks.append(k)
        self.vs.append(v)

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        self._del(i)

    def _del(self, i):
        k = self.ks[i]
        if key_sym(k):
            self.nsym -= 1
        del self.ks[i]
        del self.vs[i]
        self.ix = {}
        for j, q in enumerate(self.ks):
            if not key_sym(q):
                self.ix[q] = j

    def __contains__(self, k):
        return self._find(k) >= 0

    has_key = __contains__

    def __len__(self):
        return len(self.ks)

    def __bool__(self):
        return bool(self.ks)

    def _iter(self, kind):
        n = len(self.ks)
        for i in range(n):
            if len(self.ks) != n:
                raise RuntimeError('dictionary changed size during iteration')
            if kind == 0:
                yield self.ks[i]
            elif kind == 1:
                yield self.vs[i]
            else:
                yield (self.ks[i], self.vs[i])
        if len(self.ks) != n:
            raise RuntimeError('dictionary changed size during iteration')

    def __iter__(self):
        return self._iter(0)

    def __reversed__(self):
        return reversed(list(self.ks))

    def keys(self):
        return SymView(self, 0)

    def values(self):
        return SymView(self, 1)

    def items(self):
        return SymView(self, 2)

    iterkeys = keys
    itervalues = values
    iteritems = items

    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self.vs[i]

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i >= 0:
            return self.vs[i]
        self[k] = d
        return d

    def pop(self, k, *d):
        i = self._find(k)
        if i < 0:
            if d:
                return d[0]
            raise KeyError(k)
        v = self.vs[i]
        self._del(i)
        return v

    def popitem(self):
        if not self.ks:
            raise KeyError('popitem(): dictionary is empty')
        r = (self.ks[-1], self.vs[-1])
        self._del(len(self.ks) - 1)
        return r

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            elif o is not None:
                for k, v in o:
                    self[k] = v
            else:
                raise TypeError("'NoneType' object is not iterable")
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.ks, self.vs, self.ix, self.nsym = [], [], {}, 0

    def copy(self):
        d = SymDict()
        d.ks, d.vs, d.ix, d.nsym = list(self.ks), list(self.vs), dict(self.ix), self.nsym
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = self.copy()
        d.vs = [copy.deepcopy(v, memo) for v in d.vs]
        return d

    @classmethod
    def fromkeys(cls, ks, v=None):
        return cls([(k, v) for k in ks])

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __ror__(self, o):
        d = SymDict(o)
        d.update(self)
        return d

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(o) != len(self.ks):
            return False
        if not isinstance(o, SymDict) and type(o) is not SymDict:
            o = SymDict(o)
        out = []
        for k, v in zip(self.ks, self.vs):
            i = o._find(k)
            if i < 0:
                return False
            r = eq(v, o.vs[i])
            if type(r) is SymBool:
                out.append(r)
            elif not r:
                return False
        return And(out) if out else True

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % kv for kv in zip(self.ks, self.vs)) + '}'


class SymView(object):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __iter__(self):
        return self.d._iter(self.kind)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.kind == 0:
            return x in self.d
        for y in self:
            if eq(x, y):
                return True
        return False

    def __reversed__(self):
        return reversed(list(self))

    def __sub__(self, o):
        return SymSet(self) - o

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __eq__(self, o):
        return SymSet(self) == SymSet(o)

    def isdisjoint(self, o):
        return SymSet(self).isdisjoint(o)

    def __repr__(self):
        return repr(list(self))


class SymSet(object):
    """Elements are kept as given and only made unique when something
    depends on it (emptiness and membership do not)."""
    __slots__ = ('raw', '_d', 'frozen')

    def __init__(self, xs=(), frozen=False):
        self.frozen = frozen
        if type(xs) is SymSet:
            self.raw = list(xs.elems())
        else:
            self.raw = list(xs)
        self._d = None

    @property
    def d(self):
        if self._d is None:
            d = SymDict()
            for x in self.raw:
                d[x] = True
            self._d, self.raw = d, None
        return self._d

    @d.setter
    def d(self, v):
        self._d, self.raw = v, None

    def elems(self):
        return list(self._d) if self._d is not None else self.raw

    def has(self, x):
        es = self.elems()
        if type(x) is SymStr and len(x.cs) == 1:
            conds, consts = [], []
            for y in es:
                if type(y) is str:
                    if len(y) == 1:
                        consts.append(ord(y))
                else:
                    conds.append(eq(x, y))
            if consts:
                rs = []
                for v in sorted(set(consts)):
                    if rs and v == rs[-1][1] + 1:
                        rs[-1][1] = v
                    else:
                        rs.append([v, v])
                conds.append(ch_in_ranges(x.cs[0], tuple((a, b) for a, b in rs)))
            return bool(Or(conds)) if conds else False
        return x in self.d

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def add(self, x):
        self.d[x] = True

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        del self.d[x]

    def pop(self):
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()

    def update(self, *os):
        for o in os:
            for x in o:
                self.d[x] = True

    def copy(self):
        return SymSet(self, self.frozen)
    __copy__ = copy

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.elems()) > 0

    def __contains__(self, x):
        return self.has(x)

    def union(self, *os):
        r = self.copy()
        for o in os:
            for x in o:
                r.d[x] = True
        return r

    def intersection(self, *os):
        r = list(self.elems())
        for o in os:
            o = o if type(o) is SymSet else SymSet(o)
            r = [x for x in r if o.has(x)]
        return SymSet(r, self.frozen)

    def difference(self, *os):
        r = list(self.elems())
        for o in os:
            o = o if type(o) is SymSet else SymSet(o)
            r = [x for x in r if not o.has(x)]
        return SymSet(r, self.frozen)

    def symmetric_difference(self, o):
        o = SymSet(o)
        return SymSet([x for x in self if x not in o] + [x for x in o if x not in self], self.frozen)

    def difference_update(self, *os):
        self.d = self.difference(*os).d

    def intersection_update(self, *os):
        self.d = self.intersection(*os).d

    def _chk(self, o):
        return isinstance(o, (set, frozenset, SymView))

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)
    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def issubset(self, o):
        o = o if type(o) is SymSet else SymSet(o)
        for x in self.elems():
            if not o.has(x):
                return False
        return True

    def issuperset(self, o):
        for x in o:
            if x not in self:
                return False
        return True

    def isdisjoint(self, o):
        for x in o:
            if x in self:
                return False
        return True

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(frozenset(self))

    def __repr__(self):
        return '{' + ', '.join(map(repr, self)) + '}'
