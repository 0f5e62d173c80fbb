"""P31: authentication-policy data round-trips and malformed data is ignored or refused."""
from checks import rp

NIST = 'http://csrc.nist.gov/publications/nistpubs/800-63/SP800-63V1_0_2.pdf'
JISA = 'http://www.jisa.or.jp/spec/auth_level.html'
OTHER, OTHER2 = 'http://level/', 'http://level/2'
DEFAULTS = {'nist': NIST, 'jisa': JISA}
NONE = 'http://schemas.openid.net/pape/policies/2007/06/none'
POLICIES = ('http://schemas.openid.net/pape/policies/2007/06/multi-factor-physical', 'http://schemas.openid.net/pape/policies/2007/06/multi-factor',
            'http://schemas.openid.net/pape/policies/2007/06/phishing-resistant')
NS = 'http://specs.openid.net/extensions/pape/1.0'
TIME = '2008-01-10T21:20:00Z'


class Holder(object):
    def __init__(self, message):
        self.message = message


def wire(c, ver, ext):
    M = c.mod('openid.message')
    m = M.Message(rp.NS2 if ver == 2 else rp.NS1)
    ext.toMessage(m)
    return M.Message.fromPostArgs(m.toPostArgs())


def success(c, ver, m, unsigned=()):
    C = c.mod('openid.consumer.consumer')
    return C.SuccessResponse(rp.endpoint(c, ver), m, [k for k in m.toPostArgs() if k not in unsigned])


def pape(c):
    return c.mod('openid.extensions.' + c.params.get('mod', 'pape'))


def old(c):
    return c.params.get('mod', 'pape') != 'pape'


def policies(c, p, name='p'):
    """A list of different policies."""
    out = []
    for i in range(c.pick(name + '#', p + 1)):
        u = c.choice('%s%d' % (name, i), POLICIES + ('?',))
        if u == '?':
            u = c.text('%s%d_text' % (name, i), 2, 1, 'print')
            c.assume(c.Not(c.has_char(u, ' ')))
        out.append(u)
    for i in range(len(out)):
        for j in range(i):
            c.assume(c.Not(c.eq(out[i], out[j])))
    return out


def same_list(c, a, b):
    return c.And([len(a) == len(b)] + [c.eq(x, y) for x, y in zip(a, b)])


def h_request(c):
    """A request arrives as it was made."""
    p = c.params
    P = pape(c)
    pol = policies(c, p['policies'])
    age = c.int('age', 0, p.get('age', 99)) if c.maybe('aged') else None
    r = P.Request(list(pol) if c.maybe('at_once') else None, age)
    for u in pol:
        r.addPolicyURI(u)
    c.check(same_list(c, r.preferred_auth_policies, pol), 'each policy is asked for once, in the order given')
    types = []
    if not old(c):
        for i in range(p.get('types', 0)):
            typ = c.choice('type%d' % i, (NIST, JISA, OTHER, OTHER2)[:p.get('of', 4)])
            r.addAuthLevel(typ)
            if typ not in types:
                types.append(typ)
        c.check(r.preferred_auth_level_types == types, 'each level type is asked for once, in the order given')
    c.check(bool(r) == bool(pol or age is not None or types), 'an empty request is false')
    m = wire(c, p['ver'], r)
    got, ex = c.attempt(P.Request.fromOpenIDRequest, Holder(m))
    c.check(ex is None and got is not None, 'a request the library makes can be read')
    if ex is None and got is not None:
        c.check(same_list(c, got.preferred_auth_policies, pol), 'the policies arrive')
        c.check(got.max_auth_age is None if age is None else c.eq(got.max_auth_age, age), 'the maximum age arrives')
        if not old(c):
            c.check(got.preferred_auth_level_types == types, 'the level types arrive in order')
        sup = [u for u in POLICIES[:2]]
        c.check(got.preferredTypes(sup) == [u for u in sup if c.Or([c.eq(u, x) for x in pol])], 'exactly the supported policies asked for are listed')


def h_response(c):
    """A response arrives as it was made."""
    p = c.params
    P = pape(c)
    pol = policies(c, p['policies'])
    for u in pol:
        c.assume(c.Not(c.eq(u, 'none')))
    time = TIME[:12] + c.str('time', p['digits'], '0-9') + TIME[12 + p['digits']:] if p.get('digits') else TIME
    time = time[:13] + ':' + time[14:] if len(time) == len(TIME) else time
    time = time if c.maybe('timed') else None
    r = P.Response(list(pol) if c.maybe('at_once') else None, time)
    for u in pol:
        r.addPolicyURI(u)
    want = {}
    if old(c):
        level = c.int('level', 0, 4) if c.maybe('levelled') else None
        r.nist_auth_level = level
    else:
        for i in range(p.get('levels', 0)):
            typ = c.choice('type%d' % i, (NIST, JISA, OTHER, OTHER2)[:p.get('of', 4)])
            v = c.choice('kind%d' % i, ('text', 'number'))
            v = c.text('v%d' % i, p['n'], 0, p.get('chars')) if v == 'text' else i + 1
            r.setAuthLevel(typ, v)
            want[typ] = str(i + 1) if v is i + 1 else v
    m = wire(c, p['ver'], r)
    s = success(c, p['ver'], m)
    got, ex = c.attempt(P.Response.fromSuccessResponse, s)
    c.check(ex is None and got is not None, 'a response the library makes can be read')
    if ex is not None or got is None:
        return
    c.check(same_list(c, got.auth_policies, pol), 'the policies arrive')
    c.check(got.auth_time is None if time is None else c.eq(got.auth_time, time), 'the authentication time arrives')
    if old(c):
        c.check(got.nist_auth_level is None if level is None else c.eq(got.nist_auth_level, level), 'the level arrives')
    else:
        c.check(sorted(got.auth_levels) == sorted(want), 'exactly the levels of the response arrive')
        for typ in (NIST, JISA, OTHER):
            v, ex = c.attempt(got.getAuthLevel, typ)
            if typ in want:
                c.check(ex is None and c.eq(v, want[typ]), 'the levels arrive unchanged')
            else:
                c.check(isinstance(ex, KeyError), 'no level arrives which was not sent')
        if NIST not in want:
            c.check(got.nist_auth_level is None, 'no level arrives which was not sent')
    drop = c.choice('drop', sorted(k for k in m.toPostArgs() if k.startswith('openid.pape.')))
    got, ex = c.attempt(P.Response.fromSuccessResponse, success(c, p['ver'], m, (drop,)))
    c.check(ex is None and got is None, 'a response which is not completely signed is ignored')


def h_alias(c):
    """Level types under names of the application's choice."""
    p = c.params
    P = pape(c)
    r = P.Request() if p['kind'] == 'request' else P.Response()
    bound = dict(DEFAULTS)
    pairs, want = list(bound.items()), {}
    for i in range(p['steps']):
        typ = c.choice('type%d' % i, (OTHER, NIST, OTHER2)[:p.get('of', 3)])
        alias = p.get('pre', '') + c.text('alias%d' % i, p['n'], p.get('lo', 1), p.get('chars')) if c.maybe('named%d' % i) else None
        if alias is not None:
            c.assume(c.Not(c.has_char(alias, ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')))
        v = 'level %d' % i
        if p['kind'] == 'request':
            _, ex = c.attempt(r.addAuthLevel, typ, alias)
        else:
            _, ex = c.attempt(r.setAuthLevel, typ, v, alias)
        if alias is None:
            c.check(ex is None, 'a name is found for every type')
            # the names generated are a matter of the library
            pairs = list(r.auth_level_aliases.items())
        else:
            clash = c.Or([c.And(c.eq(alias, a), typ != u) for a, u in pairs])
            c.check(c.Iff(ex is not None, clash), 'exactly a name of another type is refused')
            c.check(ex is None or isinstance(ex, KeyError), 'refused with a key error')
        if ex is None:
            want[typ] = v
            if alias is not None:
                pairs.append((alias, typ))
    M = c.mod('openid.message')
    m, ex = c.attempt(wire, c, p['ver'], r)
    c.check(ex is None, 'the message can be made')
    if p['kind'] == 'request':
        got, ex = c.attempt(P.Request.fromOpenIDRequest, Holder(m))
        c.check(ex is None and got.preferred_auth_level_types == list(want), 'the level types arrive in order')
    else:
        got, ex = c.attempt(P.Response.fromSuccessResponse, success(c, p['ver'], m))
        c.check(ex is None and got is not None and got.auth_levels == want, 'the levels arrive')


DIGITS = '0123456789'


def well_formed(c, t):
    if len(t) != 20:
        return False
    ok = []
    for i in range(20):
        ok.append(c.Or([c.eq(t[i], d) for d in DIGITS]) if TIME[i] in DIGITS else c.eq(t[i], TIME[i]))
    return c.And(ok)


def h_time(c):
    """Malformed times are refused or dropped."""
    p = c.params
    P = pape(c)
    k = p['at']
    t = TIME[:k] + c.text('t', p['n'], p.get('lo', 0), p.get('chars')) + TIME[k + p.get('cut', 1):]
    strict = c.maybe('strict')
    r = P.Response()
    a = ({'auth_policies': POLICIES[0], 'auth_time': t}, strict) if old(c) else ({'auth_policies': POLICIES[0], 'auth_time': t}, p.get('v1', False), strict)
    _, ex = c.attempt(r.parseExtensionArgs, *a)
    ok = well_formed(c, t)
    if len(t):
        c.check(c.Iff(ex is not None, c.And(strict, c.Not(ok))), 'exactly in strict mode a malformed time is refused')
        c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')
        if ex is None:
            c.check(c.Iff(r.auth_time is not None, ok), 'a malformed time is dropped')
    if r.auth_time is not None:
        c.check(c.eq(r.auth_time, t), 'the time is the one of the message')
    w = P.Response(None, t)
    _, ex = c.attempt(w.getExtensionArgs)
    c.check(c.Iff(ex is not None, c.Not(ok)), 'a malformed time is not sent')
    c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')


def h_age(c):
    """Malformed ages are refused or dropped."""
    p = c.params
    P = pape(c)
    t = p.get('pre', '') + c.text('t', p['n'], 0, p.get('chars')) + p.get('post', '')
    r = P.Request()
    strict = c.maybe('strict') if not old(c) else False
    _, ex = c.attempt(r.parseExtensionArgs, {'max_auth_age': t}, *(() if old(c) else (False, strict)))
    digits = c.And([len(t) > 0] + [c.Or([c.eq(x, d) for d in DIGITS]) for x in t])
    n, bad = c.attempt(lambda: int(t))
    c.check(c.Implies(digits, bad is None and ex is None and c.eq(r.max_auth_age, n)), 'a decimal number is the age')
    if bad is not None:
        c.check(r.max_auth_age is None, 'a malformed age is dropped')
        c.check((ex is not None) == (strict and len(t) > 0), 'exactly in strict mode a malformed age is refused')
        c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')
    else:
        c.check(ex is None and c.eq(r.max_auth_age, n), 'the age is the number of the message')


def h_nist(c):
    """Draft 2: levels outside of the range are refused or dropped."""
    p = c.params
    P = pape(c)
    t = c.text('t', p['n'], 0, p.get('chars'))
    strict = c.maybe('strict')
    r = P.Response()
    _, ex = c.attempt(r.parseExtensionArgs, {'auth_policies': 'none', 'nist_auth_level': t}, strict)
    n, bad = c.attempt(lambda: int(t))
    ok = bad is None and c.And(n >= 0, n <= 4)
    if len(t) == 0:
        c.check(ex is None and r.nist_auth_level is None, 'no level is no level')
        return
    c.check(c.Iff(ex is not None, c.And(strict, c.Not(ok))), 'exactly in strict mode a malformed level is refused')
    c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')
    c.check(c.Iff(r.nist_auth_level is not None, ok), 'a malformed level is dropped')
    if r.nist_auth_level is not None:
        c.check(c.eq(r.nist_auth_level, n), 'the level is the number of the message')
    w = P.Response()
    w.nist_auth_level = c.int('w', -9, 9)
    _, ex = c.attempt(w.getExtensionArgs)
    c.check(c.Iff(ex is None, c.And(w.nist_auth_level >= 0, w.nist_auth_level <= 4)), 'a level out of range is not sent')


def h_levels(c):
    """Levels are those the message declares a type for."""
    p = c.params
    P = pape(c)
    v1, strict = c.maybe('openid1'), c.maybe('strict')
    args = {'auth_policies': POLICIES[0]}
    levels, decls = [], []
    for i in range(p['levels']):
        a = p.get('pre', '') + c.text('level%d' % i, p['n'], p.get('lo', 1), p.get('chars'))
        for b, v in levels:
            c.assume(c.Not(c.eq(a, b)))
        levels.append((a, 'v%d' % i))
    for i in range(p['decls']):
        a = p.get('pre', '') + c.text('decl%d' % i, p['n'], p.get('lo', 1), p.get('chars'))
        for b, u in decls:
            c.assume(c.Not(c.eq(a, b)))
        decls.append((a, (OTHER, NIST, OTHER2)[i]))
    for a, u in decls:
        args['auth_level.ns.' + a] = u
    for a, v in levels:
        c.assume(c.Not(c.eq(a[:3], 'ns.')))
        args['auth_level.' + a] = v
    r = P.Response()
    _, ex = c.attempt(r.parseExtensionArgs, args, v1, strict)
    want, unknown = {}, []
    for a, v in levels:
        hit = [u for b, u in decls if c.eq(a, b)]
        if not hit and v1:
            hit = [DEFAULTS[x] for x in DEFAULTS if c.eq(a, x)]
        if hit:
            want.setdefault(hit[0], []).append(v)
        else:
            unknown.append(a)
    c.check((ex is not None) == (strict and bool(unknown)), 'exactly in strict mode a level of an undeclared type is refused')
    c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')
    if ex is None:
        c.check(sorted(r.auth_levels) == sorted(want), 'exactly the levels of declared types are read')
        for u in want:
            c.check(r.auth_levels[u] in want[u], 'a level has the value of the message')


def h_types(c):
    """Level types asked for are those the message declares."""
    p = c.params
    P = pape(c)
    v1, strict = c.maybe('openid1'), c.maybe('strict')
    asked = [c.choice('ask%d' % i, ('nist', 'a', 'bb')) for i in range(2)]
    decls = []
    for i in range(p['decls']):
        a = c.choice('base%d' % i, ('', 'nis', 'b')) + c.str('decl%d' % i, 1, p.get('chars', 'abt'))
        for b, u in decls:
            c.assume(c.Not(c.eq(a, b)))
        decls.append((a, (OTHER, OTHER2, NIST)[i]))
    args = {'auth_level.ns.' + a: u for a, u in decls}
    args['preferred_auth_level_types'] = c.choice('space', ('', ' ')) + ' '.join(asked)
    r = P.Request()
    _, ex = c.attempt(r.parseExtensionArgs, args, v1, strict)
    want, unknown = [], False
    for a in asked:
        hit = [u for b, u in decls if c.eq(a, b)]
        if not hit and v1:
            hit = [DEFAULTS[x] for x in DEFAULTS if a == x]
        if hit:
            if hit[0] not in want:
                want.append(hit[0])
        else:
            unknown = True
    c.check((ex is not None) == (strict and unknown), 'exactly in strict mode an undeclared level type is refused')
    c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')
    if ex is None:
        c.check(r.preferred_auth_level_types == want, 'exactly the declared level types asked for are read, in order')


def h_policies(c):
    """Policies are those of the message, without the marker for none."""
    p = c.params
    P = pape(c)
    strict = c.maybe('strict')
    t = p.get('pre', '') + c.text('t', p['n'], 0, p.get('chars')) + p.get('post', '')
    resp = P.Response()
    _, ex = c.attempt(resp.parseExtensionArgs, {'auth_policies': t}, *((strict,) if old(c) else (False, strict)))
    parts = t.split(' ') if len(t) else []
    if old(c):
        want = [] if c.eq(t, 'none') else parts
        bad = False
    else:
        want = [x for x in parts if not c.eq(x, 'none') and not c.eq(x, NONE)]
        bad = not parts or len(parts) > 1 and any([c.eq(x, NONE) for x in parts]) or any([c.eq(x, 'none') for x in parts])
    c.check((ex is not None) == (strict and bad), 'exactly in strict mode malformed policies are refused')
    c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')
    if ex is None:
        c.check(same_list(c, resp.auth_policies, want), 'exactly the policies of the message are read')
    r = P.Request()
    _, ex = c.attempt(r.parseExtensionArgs, {'preferred_auth_policies': t}, *(() if old(c) else (False, strict)))
    seen = []
    for x in parts:
        if not c.Or([c.eq(x, y) for y in seen]):
            seen.append(x)
    c.check(ex is None and same_list(c, r.preferred_auth_policies, seen), 'exactly the policies of the message are asked for, once each')
    if not old(c):
        w = P.Response()
        _, ex = c.attempt(w.addPolicyURI, t)
        c.check(c.Iff(ex is not None, c.eq(t, NONE)), 'none can not be added as a policy')


def h_apart(c):
    """Requests and responses in one process share nothing."""
    p = c.params
    P = pape(c)
    objs = []
    for k in range(p['k']):
        kind = c.choice('kind%d' % k, ('request', 'response'))
        o = P.Request() if kind == 'request' else P.Response()
        objs.append((kind, o, [], []))
    for i in range(p['steps']):
        k = c.pick('of%d' % i, p['k'])
        kind, o, pol, lev = objs[k]
        if c.maybe('policy%d' % i):
            u = c.choice('p%d' % i, POLICIES[:2])
            o.addPolicyURI(u)
            if u not in pol:
                pol.append(u)
            continue
        if old(c):
            continue
        typ = c.choice('type%d' % i, (OTHER, OTHER2))
        alias = c.text('alias%d' % i, 1, 1, 'ab') if c.maybe('named%d' % i) else None
        taken = [t for a, t in lev if a is not None and alias is not None and c.eq(a, alias)]
        a = (typ,) if kind == 'request' else (typ, 'v' + typ)
        _, ex = c.attempt(o.addAuthLevel if kind == 'request' else o.setAuthLevel, *(a + ((alias,) if alias is not None else ())))
        c.check((ex is not None) == bool([t for t in taken if t != typ]), 'exactly a name used for another type in the same message is refused')
        if ex is None:
            lev.append((alias, typ))
    for kind, o, pol, lev in objs:
        types = [t for a, t in lev]
        m = wire(c, 2, o)
        if kind == 'request':
            c.check(o.preferred_auth_policies == pol, 'each message has its own policies')
            got = P.Request.fromOpenIDRequest(Holder(m))
            c.check(got.preferred_auth_policies == pol, 'each message has its own policies')
            if not old(c):
                c.check(got.preferred_auth_level_types == list(dict.fromkeys(types)), 'each message has its own levels')
        else:
            c.check(o.auth_policies == pol, 'each message has its own policies')
            got = P.Response.fromSuccessResponse(success(c, 2, m))
            c.check(got.auth_policies == pol, 'each message has its own policies')
            if not old(c):
                c.check(got.auth_levels == {t: 'v' + t for t in types}, 'each message has its own levels')
        args = o.getExtensionArgs()
        if not old(c):
            c.check(set(args[k] for k in args if k.startswith('auth_level.ns.')) <= set(types), "only the message's own level types are declared")


P2 = 'draft.pape2'
HARNESSES = {
    'request': dict(fn=h_request, quick=[dict(ver=2, policies=2, types=0), dict(ver=2, policies=1, types=3), dict(ver=1, policies=0, types=3, of=3, age=10 ** 6), dict(ver=2, policies=2, mod=P2)], thorough=[dict(ver=v, policies=3, types=2) for v in (1, 2)], bounds='up to 2 (3) policies, 3 level types, ages up to 10**6'),
    'response': dict(fn=h_response, quick=[dict(ver=2, policies=2, n=1), dict(ver=2, policies=1, levels=2, n=2), dict(ver=1, policies=0, levels=3, n=1, chars='print', of=3), dict(ver=2, policies=1, n=1, digits=1), dict(ver=2, policies=2, mod=P2), dict(ver=2, policies=1, mod=P2, digits=1, n=1)], thorough=[dict(ver=v, policies=2, levels=3, n=1) for v in (1, 2)], bounds='up to 2 policies, 3 levels of up to 2 characters'),
    'alias': dict(fn=h_alias, quick=[dict(kind=k, ver=v, steps=2, n=4, lo=3, chars='nistc0') for k, v in (('request', 2), ('response', 1))] + [dict(kind=k, ver=2, steps=2, n=2) for k in ('request', 'response')] + [dict(kind='response', ver=2, steps=3, pre='cust', n=1, chars='0-9', lo=1, of=3)], thorough=[dict(kind=k, ver=v, steps=3, n=1, chars='ab') for k in ('request', 'response') for v in (1, 2)], bounds='every history of 2-3 additions with names up to 5 characters'),
    'time': dict(fn=h_time, quick=[dict(at=19, n=2), dict(at=20, n=2), dict(at=0, n=2, lo=2), dict(at=4, n=2, cut=2), dict(at=10, n=2, cut=2), dict(at=15, n=3, cut=3), dict(at=0, n=2, cut=20)] + [dict(at=k, n=1, mod=P2) for k in (0, 7, 19, 20)], thorough=[dict(at=k, n=4, cut=4, lo=3) for k in (0, 4, 8, 12, 16)] + [dict(at=k, n=1, cut=0, v1=True) for k in range(21)], bounds='a valid time with any 1-3 (4) adjacent characters replaced'),
    'age': dict(fn=h_age, quick=[dict(n=2), dict(n=3, chars='0-9x- _+.'), dict(n=2, mod=P2, chars='print'), dict(pre='12', n=2, chars='0-9- \n'), dict(pre='1', n=1, post='3', chars='print'), dict(pre='1', n=1, post='0', chars='print'), dict(pre='', n=1, post='1e2', chars='print'), dict(pre='', n=1, post='x10'), dict(pre='in', n=1, post='', chars='print'), dict(pre='na', n=1, chars='print')], thorough=[dict(n=4, chars='0-9x- _'), dict(n=3, chars='print')], bounds='ages up to 3-4 characters'),
    'nist': dict(fn=h_nist, quick=[dict(n=2, mod=P2, chars='print')], thorough=[dict(n=3, mod=P2, chars='0-9- _x')], bounds='levels up to 2 (3) characters'),
    'levels': dict(fn=h_levels, quick=[dict(levels=1, decls=1, n=2), dict(levels=1, decls=1, n=4, lo=4, chars='nistja'), dict(levels=2, decls=2, n=1, chars='abn'), dict(levels=2, decls=1, n=1, chars='ab.', lo=0), dict(levels=2, decls=0, n=4, lo=4, chars='nistja')], thorough=[dict(levels=2, decls=3, n=2, chars='ab')], bounds='up to 2 levels and 2 (3) declarations with names up to 4 characters'),
    'types': dict(fn=h_types, quick=[dict(decls=1), dict(decls=2)], thorough=[dict(decls=3)], bounds='two types asked for, up to 2 (3) declarations'),
    'apart': dict(fn=h_apart, quick=[dict(k=2, steps=3), dict(k=2, steps=2, mod=P2)], thorough=[dict(k=3, steps=3)], bounds='two (three) messages, every history of 3 additions'),
    'policies': dict(fn=h_policies, quick=[dict(n=4, chars='none '), dict(n=2), dict(pre=NONE, n=2, chars='x '), dict(pre=NONE[:-1], n=2, chars='en '), dict(pre='a none', n=2, chars='b '), dict(pre='a ', n=1, post=' ' + NONE, chars=' a'), dict(pre='http://', n=2, post='none', chars='x/ '), dict(pre='none', n=2, chars=' nx'), dict(n=5, chars='none ', mod=P2)], thorough=[dict(n=5, chars='none ')], bounds='policy lists with up to 4-5 free characters'),
}
