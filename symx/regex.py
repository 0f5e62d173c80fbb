"""Backtracking regular expression matcher over symbolic text, driven by
Python's own parse of the pattern (same left-to-right, greedy semantics)."""
import re
from re import _parser, _constants as C

from .core import SymStr, SymBytes, mkstr, mkbytes, ch_in_ranges, ch_eq, Or, Not, Incomplete, text_cells, pred_ranges
from . import core

_cache = {}


def parsed(pat):
    k = (pat.pattern, pat.flags)
    if k not in _cache:
        _cache[k] = _parser.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, bytes) else pat.flags & ~re.UNICODE)
    return _cache[k]


def _cat(av, text, flags):
    ascii_ = not text or flags & re.ASCII
    if av in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r = ((48, 57),) if ascii_ else pred_ranges('isdecimal')
        return r, av == C.CATEGORY_NOT_DIGIT
    if av in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = ((9, 13), (32, 32)) if ascii_ else pred_ranges('isspace')
        return r, av == C.CATEGORY_NOT_SPACE
    if av in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        r = ((48, 57), (65, 90), (95, 95), (97, 122)) if ascii_ else tuple(pred_ranges('isalnum')) + ((95, 95),)
        return r, av == C.CATEGORY_NOT_WORD
    raise Incomplete('regex category')


class M(object):
    def __init__(self, pat, s):
        self.pat, self.s = pat, s
        self.text = isinstance(s, str)
        self.cs = s.cs if type(s) in (SymStr, SymBytes) else [ord(c) for c in s]
        self.flags = pat.flags
        self.ic = bool(pat.flags & re.IGNORECASE)

    def lit(self, c, v):
        if self.ic and chr(v).isalpha() and v < 128:
            return ch_in_ranges(c, tuple(sorted({(ord(chr(v).lower()),) * 2, (ord(chr(v).upper()),) * 2})))
        return ch_eq(c, v)

    def cls(self, c, items):
        neg = False
        rs, conds = [], []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                if self.ic and chr(av).isalpha():
                    rs += [(ord(chr(av).lower()),) * 2, (ord(chr(av).upper()),) * 2]
                else:
                    rs.append((av, av))
            elif op is C.RANGE:
                lo, hi = av
                rs.append((lo, hi))
                if self.ic:
                    for k in range(lo, min(hi, 127) + 1):
                        if chr(k).isalpha():
                            rs += [(ord(chr(k).swapcase()),) * 2]
            elif op is C.CATEGORY:
                r, n = _cat(av, self.text, self.flags)
                if n:
                    conds.append(Not(ch_in_ranges(c, r)))
                else:
                    rs += list(r)
            else:
                raise Incomplete('regex class')
        if rs:
            conds.append(ch_in_ranges(c, tuple(sorted(set(rs)))))
        r = Or(conds)
        return Not(r) if neg else r

    def run(self, nodes, i, groups, k):
        """Match nodes (list) at i then continue with k(i, groups)."""
        if not nodes:
            return k(i, groups)
        (op, av), rest = nodes[0], nodes[1:]
        cs, n = self.cs, len(self.cs)

        def nxt(j, g):
            return self.run(rest, j, g, k)
        if op is C.LITERAL:
            if i < n and self.lit(cs[i], av):
                return nxt(i + 1, groups)
            return None
        if op is C.NOT_LITERAL:
            if i < n and not self.lit(cs[i], av):
                return nxt(i + 1, groups)
            return None
        if op is C.ANY:
            if i < n and (self.flags & re.DOTALL or not ch_eq(cs[i], 10)):
                return nxt(i + 1, groups)
            return None
        if op is C.IN:
            if i < n and self.cls(cs[i], av):
                return nxt(i + 1, groups)
            return None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            g, addf, delf, p = av
            if addf or delf:
                raise Incomplete('regex inline flags')

            def close(j, gr):
                if g is not None:
                    gr = dict(gr)
                    gr[g] = (i, j)
                return nxt(j, gr)
            return self.run(list(p), i, groups, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            hi = n + 1 if hi is C.MAXREPEAT else hi
            greedy = op is C.MAX_REPEAT

            def rep(cnt, j, gr):
                def again():
                    if cnt >= hi:
                        return None
                    return self.run(p, j, gr, lambda j2, g2: None if (j2 == j and cnt >= lo) else rep(cnt + 1, j2, g2))
                if cnt < lo:
                    return again()
                if greedy:
                    r = again()
                    return r if r is not None else nxt(j, gr)
                r = nxt(j, gr)
                return r if r is not None else again()
            return rep(0, i, groups)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                if av is C.AT_BEGINNING and self.flags & re.MULTILINE:
                    ok = i == 0 or ch_eq(cs[i - 1], 10)
                else:
                    ok = i == 0
            elif av is C.AT_END:
                if self.flags & re.MULTILINE:
                    ok = i == n or ch_eq(cs[i], 10)
                else:
                    ok = i == n or (i == n - 1 and bool(ch_eq(cs[i], 10)))
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = _cat(C.CATEGORY_WORD, self.text, self.flags)[0]
                a = i > 0 and bool(ch_in_ranges(cs[i - 1], w))
                b = i < n and bool(ch_in_ranges(cs[i], w))
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Incomplete('regex anchor')
            return nxt(i, groups) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Incomplete('regex lookbehind')
                j = i - lo
                r = None if j < 0 else self.run(list(p), j, groups, lambda j2, g: (j2, g) if j2 == i else None)
            else:
                r = self.run(list(p), i, groups, lambda j2, g: (j2, g))
            if op is C.ASSERT:
                return None if r is None else nxt(i, r[1])
            return nxt(i, groups) if r is None else None
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            if i + b - a <= n and core.cells_eq(cs[a:b], cs[i:i + b - a]):
                return nxt(i + b - a, groups)
            return None
        raise Incomplete('regex op %s' % op)

    def match(self, i, full=False):
        r = self.run(list(parsed(self.pat)), i, {}, lambda j, g: (j, g) if (not full or j == len(self.cs)) else None)
        if r is None:
            return None
        return Match(self.pat, self.s, i, r[0], r[1])


class Match(object):
    def __init__(self, pat, s, a, b, groups):
        self.re, self.string, self.pos = pat, s, 0
        self._g = dict(groups)
        self._g[0] = (a, b)
        self.lastindex = max(groups) if groups else None

    def _n(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _one(self, g, d=None):
        x = self._g.get(self._n(g))
        return d if x is None else self.string[x[0]:x[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from .containers import SymDict
        return SymDict([(k, self._one(v, default)) for k, v in self.re.groupindex.items()])

    def start(self, g=0):
        return self._g.get(self._n(g), (-1, -1))[0]

    def end(self, g=0):
        return self._g.get(self._n(g), (-1, -1))[1]

    def span(self, g=0):
        return self._g.get(self._n(g), (-1, -1))


def finditer(pat, s, pos=0):
    m = M(pat, s)
    i, n = pos, len(m.cs)
    last_empty = -1
    while i <= n:
        r = m.match(i)
        if r is None:
            i += 1
            continue
        yield r
        a, b = r.span()
        i = b if b > a else b + 1


def _tmpl(pat, repl, m):
    from . import rt
    if callable(repl) and not isinstance(repl, (str, bytes)):
        return rt.call(repl, m)
    if isinstance(repl, str) and '\\' not in repl:
        return repl
    out = []
    t = _parser.parse_template(repl, pat)
    for x in t:
        if isinstance(x, int):
            out.append(m._one(x, ''))
        else:
            out.append(x)
    return rt.join('' if isinstance(repl, str) else b'', out)


def pattern_method(pat, name, args, kw):
    from . import rt
    args = list(args)
    if name in ('match', 'search', 'fullmatch'):
        s = args[0] if args else kw['string']
        pos = args[1] if len(args) > 1 else 0
        if name == 'match':
            return M(pat, s).match(pos)
        if name == 'fullmatch':
            return M(pat, s).match(pos, True)
        for r in finditer(pat, s, pos):
            return r
        return None
    if name == 'finditer':
        return finditer(pat, args[0])
    if name == 'findall':
        out = []
        for r in finditer(pat, args[0]):
            g = r.groups('' if isinstance(args[0], str) else b'')
            out.append(r.group(0) if not g else g[0] if len(g) == 1 else g)
        return out
    if name in ('sub', 'subn'):
        repl, s = args[0], args[1]
        count = args[2] if len(args) > 2 else kw.get('count', 0)
        out, pos, n = [], 0, 0
        for r in finditer(pat, s):
            if count and n >= count:
                break
            a, b = r.span()
            out.append(s[pos:a])
            out.append(_tmpl(pat, repl, r))
            pos = b
            n += 1
        out.append(s[pos:])
        res = rt.join('' if isinstance(s, str) else b'', out)
        return res if name == 'sub' else (res, n)
    if name == 'split':
        s = args[0]
        maxs = args[1] if len(args) > 1 else kw.get('maxsplit', 0)
        out, pos, n = [], 0, 0
        for r in finditer(pat, s):
            if maxs and n >= maxs:
                break
            a, b = r.span()
            out.append(s[pos:a])
            out.extend(r.groups())
            pos = b
            n += 1
        out.append(s[pos:])
        return out
    raise Incomplete('regex ' + name)


def install(rt):
    for n in ('match', 'search', 'fullmatch', 'finditer', 'findall'):
        def f(pat, s, flags=0, n=n):
            return pattern_method(pat if isinstance(pat, re.Pattern) else re.compile(pat, flags), n, (s,), {})
        rt.SYM_MODELS[getattr(re, n)] = f

    def sub(pat, repl, s, count=0, flags=0):
        return pattern_method(pat if isinstance(pat, re.Pattern) else re.compile(pat, flags), 'sub', (repl, s, count), {})
    rt.SYM_MODELS[re.sub] = sub

    def split(pat, s, maxsplit=0, flags=0):
        return pattern_method(pat if isinstance(pat, re.Pattern) else re.compile(pat, flags), 'split', (s, maxsplit), {})
    rt.SYM_MODELS[re.split] = split

    def escape(s):
        out = []
        for c in s:
            if isinstance(c, str) and c in core.SymStr([]).cs:
                pass
            out.append(c)
        raise Incomplete('re.escape')
    rt.SYM_MODELS[re.escape] = escape
