"""P29: simple registration releases only requested fields and round-trips."""
from checks import rp

FIELDS = ('fullname', 'nickname', 'dob', 'email', 'gender', 'postcode', 'country', 'language', 'timezone')
NS11, NS10 = 'http://openid.net/extensions/sreg/1.1', 'http://openid.net/sreg/1.0'
NSS = {1: None, 10: rp.NS1, 11: rp.NS11, 2: rp.NS2}


class Holder(object):
    """Carries a message, as a provider's request does."""

    def __init__(self, message):
        self.message = message


def over_the_wire(c, m):
    return c.mod('openid.message').Message.fromPostArgs(m.toPostArgs())


def message(c, ver, taken=None):
    """A message of the protocol version, possibly with other extensions."""
    M = c.mod('openid.message')
    m = M.Message(rp.NS2 if ver == 2 else rp.NS1)
    m.setArg(M.OPENID_NS, 'mode', 'checkid_setup')
    if taken:
        m.namespaces.addAlias('http://other/', taken)
        m.setArg('http://other/', 'nickname', 'intruder')
    return m


def success(c, ver, m, unsigned=()):
    """The response in which every field of the message is signed, except some."""
    C = c.mod('openid.consumer.consumer')
    names = [k for k in m.toPostArgs() if k not in unsigned]
    return C.SuccessResponse(rp.endpoint(c, 2 if ver == 2 else 1), m, names)


def subset(c, names):
    """Every split into required, optional and absent fields, in either order."""
    req, opt = [], []
    for n in names:
        k = c.pick('how_' + n, 3)
        if k:
            (req if k == 1 else opt).append(n)
    if c.maybe('reversed'):
        req.reverse()
        opt.reverse()
    return req, opt


def h_request(c):
    """A request keeps its fields and policy address on the way to the provider."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    M = c.mod('openid.message')
    req, opt = subset(c, p['fields'])
    policy = c.text('policy', p['n'], 1, p.get('chars')) if c.maybe('policy') else None
    uri = c.choice('uri', (NS11, NS10))
    r = S.SRegRequest(req or None, opt, policy, uri)
    c.check(r.required == req and r.optional == opt, 'the request asks for exactly the given fields')
    m = message(c, p['ver'])
    out = r.toMessage(m)
    c.check(out is m, 'the request is added to the message')
    got = S.SRegRequest.fromOpenIDRequest(Holder(over_the_wire(c, m)))
    c.check(got.required == req and got.optional == opt, 'the provider sees the required and optional fields asked for')
    c.check(got.policy_url is None if policy is None else c.eq(got.policy_url, policy), 'the provider sees the policy address')
    c.check(sorted(got.allRequestedFields()) == sorted(req + opt) and got.wereFieldsRequested() == bool(req + opt), 'all fields asked for are listed')
    for f in p['fields']:
        c.check((f in got) == (f in req or f in opt), 'exactly the fields asked for are contained')
    if p['ver'] == 2:
        c.check(got.ns_uri == uri, 'the provider answers in the namespace of the request')


def h_release(c):
    """A response has the requested fields with data, and only those."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    req, opt = subset(c, p['fields'])
    uri = c.choice('uri', (NS11, NS10))
    r = S.SRegRequest(req, opt, sreg_ns_uri=uri)
    data, want = {}, {}
    for f in p['data']:
        k = c.choice('data_' + f, ('absent', 'none', 'text', 'number', 'falsy')[:p.get('kinds', 5)])
        if k == 'absent':
            continue
        zero = c.choice('zero_' + f, (0, False, 0.0)) if k == 'falsy' else 7
        data[f] = None if k == 'none' else c.text('v_' + f, p['n'], 0, p.get('chars')) if k == 'text' else zero
        if k in ('text', 'number', 'falsy') and (f in req or f in opt):
            want[f] = data[f] if k == 'text' else str(zero)
    resp = S.SRegResponse.extractResponse(r, data)
    c.check(c.eq(dict(resp.data), want), 'exactly the requested fields with data are released')
    c.check(c.eq(dict(resp.items()), want) and sorted(resp.keys()) == sorted(want) and bool(resp) == bool(want), 'exactly the requested fields with data are released')
    for f in p['fields']:
        c.check((f in resp) == (f in want), 'exactly the requested fields with data are released')
        v = resp.get(f)
        c.check(v is None if f not in want else c.eq(v, want[f]), 'values are released unchanged')
    m = message(c, p['ver'])
    resp.toMessage(m)
    m2 = over_the_wire(c, m)
    for only in (True, False):
        back, ex = c.attempt(S.SRegResponse.fromSuccessResponse, success(c, p['ver'], m2), only)
        c.check(ex is None, 'the relying party can read the response')
        if not want:
            c.check(back is None, 'no data is reported as none')
        else:
            c.check(back is not None and c.eq(dict(back.data), want), 'the relying party sees the released data')


def names_in(c, text):
    """Known field names of a comma separated list, in order of appearance; with the unknown ones counted."""
    out, unknown = [], False
    for x in text.split(','):
        for f in FIELDS:
            if c.eq(x, f):
                out.append(f)
                break
        else:
            unknown = True
    return out, unknown


def h_parse(c):
    """Any request text: unknown names are dropped or, in strict mode, refused."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    args = {}
    for k in ('required', 'optional'):
        if k in p:
            pre, n, chars, post = p[k]
            args[k] = pre + c.text(k, n, 0, chars) + post
    if p.get('policy'):
        args['policy_url'] = c.text('policy', p['policy'], 0)
    strict = c.maybe('strict')
    r = S.SRegRequest()
    _, ex = c.attempt(r.parseExtensionArgs, args, strict)
    known, bad = [], False
    lists = {}
    for k in ('required', 'optional'):
        t = args.get(k)
        lists[k], unknown = names_in(c, t) if t else ([], False)
        bad = bad or unknown
        known += lists[k]
    twice = len(set(known)) != len(known)
    c.check((ex is not None) == (strict and (bad or twice)), 'unknown or repeated fields are refused exactly in strict mode')
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'refused with a value error')
        return
    want_req = list(dict.fromkeys(lists['required']))
    want_opt = [f for f in dict.fromkeys(lists['optional']) if f not in want_req]
    c.check(r.required == want_req, 'the required fields are the known ones listed')
    c.check(r.optional == want_opt, 'the optional fields are the known ones listed and not required')
    c.check(c.eq(r.policy_url, args['policy_url']) if 'policy_url' in args else r.policy_url is None, 'the policy address is taken over')


def h_api(c):
    """Any sequence of field requests on the request object."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    r = S.SRegRequest()
    req, opt = [], []
    for k in range(p['steps']):
        name = c.choice('name%d' % k, p['names'])
        if name == '?':
            name = p.get('pre', 'do') + c.text('free%d' % k, p['n'], 0, p.get('chars'))
        required, strict, many = c.maybe('required%d' % k), c.maybe('strict%d' % k), p.get('many') and c.maybe('many%d' % k)
        if many:
            _, ex = c.attempt(r.requestFields, [name], required, strict)
        else:
            _, ex = c.attempt(r.requestField, name, required, strict)
        hit = [f for f in FIELDS if c.eq(name, f)]
        there = bool(hit) and (hit[0] in req or hit[0] in opt)
        c.check((ex is not None) == (not hit or (strict and there)), 'unknown fields, and repeated ones in strict mode, are refused')
        c.check(ex is None or isinstance(ex, ValueError), 'refused with a value error')
        if ex is None:
            f = hit[0]
            if required:
                if f in opt:
                    opt.remove(f)
                if f not in req:
                    req.append(f)
            elif not there:
                opt.append(f)
        c.check(r.required == req and r.optional == opt, 'a field is required or optional, never both, and a refusal changes nothing')


def h_access(c):
    """Names outside the specification can neither be asked for nor read."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    name = c.choice('base', FIELDS + ('',))
    k = c.pick('cut', len(name) + 1) if p.get('cut') else len(name)
    name = name[:k] + c.text('free', p['n'], 0, p.get('chars'))
    ok = c.Or([c.eq(name, f) for f in FIELDS])
    resp = S.SRegResponse({'nickname': 'n'})
    for what in (lambda: resp.get(name), lambda: resp[name], lambda: name in resp, lambda: S.SRegRequest(required=[name]), lambda: S.SRegRequest(optional=[name]), lambda: S.checkFieldName(name)):
        v, ex = c.attempt(what)
        refused = isinstance(ex, ValueError)
        c.check(c.Iff(refused, c.Not(ok)), 'exactly the names of the specification are known')
        c.check(ex is None or refused or isinstance(ex, KeyError), 'refused with a value error')


def h_alias(c):
    """The extension is found under any alias, and never mistaken for another one."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    M = c.mod('openid.message')
    alias = c.text('alias', p['n'], 1, p.get('chars', 'abs'))
    c.assume(c.Not(c.has_char(alias, '.')))
    uri = c.choice('uri', (NS11, NS10, 'http://other/'))
    q = {'openid.ns': rp.NS2, 'openid.mode': 'id_res', 'openid.ns.' + alias: uri, 'openid.' + alias + '.required': 'email', 'openid.' + alias + '.nickname': 'n'}
    sreg = p.get('sreg') and c.maybe('sreg')
    if sreg:
        c.assume(c.Not(c.eq(alias, 'sreg')))
        q['openid.ns.sreg'] = 'http://z/'
        q['openid.sreg.required'] = 'dob'
    m, ex = c.attempt(M.Message.fromPostArgs, q)
    if ex is not None:
        c.check(len(alias) > 1, 'short names are free for extensions')
        return
    before = m.toPostArgs()
    r, ex = c.attempt(S.SRegRequest.fromOpenIDRequest, Holder(m))
    c.check(c.eq(m.toPostArgs(), before), "reading a request leaves the provider's message alone")
    clash = uri == 'http://other/' and (sreg or c.eq(alias, 'sreg'))
    c.check(c.Iff(ex is not None, clash), 'another extension using the name is reported')
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'reported with a value error')
        return
    c.check(r.required == (['email'] if uri != 'http://other/' else []), 'the request is read from the namespace of the extension')
    back = S.SRegResponse.fromSuccessResponse(success(c, 2, m))
    c.check(back is None if uri == 'http://other/' else back is not None and dict(back.data) == {'nickname': 'n'}, 'the response is read from the namespace of the extension')


def h_taken(c):
    """Adding to a message in which the alias is already used."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    M = c.mod('openid.message')
    alias = c.text('alias', 4, 1, 'sreg') if p['ver'] == 2 else 'sreg'
    m = message(c, p['ver'])
    other = c.choice('other', ('http://other/', NS11))
    m.namespaces.addAlias(other, alias)
    before = m.toPostArgs()
    out, ex = c.attempt(S.SRegRequest(required=['email']).toMessage, m)
    same = c.eq(alias, 'sreg')
    ok = c.Or(c.And(same, other == NS11), c.And(c.Not(same), other != NS11))
    c.check(c.Iff(ex is None, ok), 'a message in which the name means something else is refused')
    if ex is None:
        c.check(m.getArg(NS11, 'required') == 'email', 'the request is in its namespace')
        c.check(m.getArg('http://other/', 'required') is None, 'the request is in its namespace only')
    else:
        c.check(isinstance(ex, KeyError), 'refused with a key error')
        c.check(c.eq(m.toPostArgs(), before), 'a refusal changes nothing')


def h_both(c):
    """A message that declares both versions, in either order, under any names."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    M = c.mod('openid.message')
    a, b = c.text('new', p['n'], 1, 'sregx'), c.text('old', p['n'], 1, 'sregx')
    c.assume(c.Not(c.eq(a, b)))
    pairs = [('openid.ns.' + a, NS11), ('openid.ns.' + b, NS10)]
    q = dict([('openid.ns', rp.NS2), ('openid.mode', 'id_res')] + (pairs[::-1] if c.maybe('reversed') else pairs))
    new, old = c.maybe('new has data'), c.maybe('old has data')
    for k, yes, f in ((a, new, 'dob'), (b, old, 'email')):
        if yes:
            q['openid.' + k + '.required'], q['openid.' + k + '.' + f] = f, 'value'
    m, ex = c.attempt(M.Message.fromPostArgs, q)
    c.check(ex is None, 'the message can be read')
    r = S.SRegRequest.fromOpenIDRequest(Holder(m))
    c.check(r.ns_uri == NS11 and r.required == (['dob'] if new else []) and r.optional == [], 'the newer version is read where both are declared')
    back = S.SRegResponse.fromSuccessResponse(success(c, 2, m))
    c.check(back is None if not new else back is not None and dict(back.data) == {'dob': 'value'}, 'the newer version is read where both are declared')


def h_apart(c):
    """Requests and responses in one process share nothing."""
    p = c.params
    S = c.mod('openid.extensions.sreg')
    reqs, resps, wants, datas = [], [], [], []
    for k in range(p['k']):
        req, opt = subset_of(c, 'r%d' % k, p['fields'])
        r = S.SRegRequest()
        for f in req:
            r.requestField(f, required=True)
        for f in opt:
            r.requestField(f)
        reqs.append((r, req, opt))
        data = {f: c.text('v%d_%s' % (k, f), 1, 1, 'print') for f in p['fields'] if c.maybe('has%d_%s' % (k, f))}
        m = c.choice('made%d' % k, ('extract', 'read', 'empty', 'wrap'))
        own = dict(data)
        if m == 'extract':
            resps.append(S.SRegResponse.extractResponse(r, data))
            wants.append({f: v for f, v in own.items() if f in req + opt})
        elif m == 'read':
            msg = message(c, 2)
            S.SRegResponse(dict(own)).toMessage(msg)
            x = S.SRegResponse.fromSuccessResponse(success(c, 2, over_the_wire(c, msg)))
            c.check((x is None) == (not own), 'no data is reported as none')
            if x is not None:
                resps.append(x)
                wants.append(own)
        elif m == 'empty':
            resps.append(S.SRegResponse())
            wants.append({})
        else:
            resps.append(S.SRegResponse(data))
            wants.append(own)
        c.check(c.eq(dict(data), own), "the application's data are left alone")
    for r, req, opt in reqs:
        c.check(r.required == req and r.optional == opt, 'each request has its own fields')
    for r, want in zip(resps, wants):
        c.check(c.eq(dict(r.data), want), 'each response has its own data')
        c.check(c.eq(dict(r.getExtensionArgs()), want), 'each response has its own data')


def subset_of(c, name, names):
    req, opt = [], []
    for n in names:
        k = c.pick(name + n, 3)
        if k:
            (req if k == 1 else opt).append(n)
    return req, opt


def t(pre, n, chars, post=''):
    return [pre, n, chars, post]


HARNESSES = {
    'request': dict(fn=h_request, quick=[dict(ver=2, fields=['nickname', 'dob', 'email'], n=1), dict(ver=1, fields=['nickname', 'dob', 'timezone'], n=2, chars='print'), dict(ver=2, fields=list(FIELDS[5:]), n=1, chars='a')],
                    thorough=[dict(ver=2, fields=list(FIELDS), n=1, chars='a'), dict(ver=1, fields=['email'], n=4)], bounds='every split of 3-4 (thorough all 9) fields into required, optional and absent; policy addresses up to 2 (4) characters'),
    'release': dict(fn=h_release, quick=[dict(ver=2, fields=['nickname', 'dob', 'email'], data=['nickname', 'dob', 'country'], n=1, kinds=3), dict(ver=1, fields=['nickname', 'email'], data=['nickname', 'email'], n=1), dict(ver=2, fields=['fullname'], data=['fullname'], n=3)],
                    thorough=[dict(ver=v, fields=['nickname', 'dob', 'email', 'timezone'], data=['nickname', 'dob', 'email', 'country'], n=1) for v in (1, 2)], bounds='every split of 3 (4) fields, every availability of the data, values up to 1-3 characters'),
    'parse': dict(fn=h_parse, quick=[dict(required=t('dob,do', 2, 'b,e'), optional=t('', 3, 'dob')), dict(required=t('', 3, 'dob,'), optional=t('email,', 3, 'dob')), dict(required=t('email', 2, ', Ex', 'dob')), dict(required=t('', 1, None), optional=t('dob', 1, None, 'dob'), policy=1), dict(optional=t('gender,dob', 1, None)), dict(required=t('dob', 0, ''), optional=t('dob,dob', 0, '')), dict(required=t('dob', 0, ''), optional=t('dob,dob,email', 0, ''), policy=2)],
                  thorough=[dict(required=t('', 5, 'dob,'), optional=t('', 3, 'dob')), dict(required=t('email,', 2, None, 'dob'))], bounds='lists of templates with up to 3 (5) free characters'),
    'api': dict(fn=h_api, quick=[dict(steps=3, names=['dob', 'email'], many=1), dict(steps=2, names=['dob', '?'], n=2)], thorough=[dict(steps=4, names=['dob', 'email', '?'], n=1)], bounds='every history of 3 (4) field requests'),
    'access': dict(fn=h_access, quick=[dict(n=2), dict(n=1, cut=1)], thorough=[dict(n=3, cut=1)], bounds='every prefix of a known name with up to 2 (3) further characters'),
    'alias': dict(fn=h_alias, quick=[dict(n=2), dict(n=4, chars='sreg'), dict(n=1, chars='print', sreg=1)], thorough=[dict(n=4, chars='srega-')], bounds='aliases up to 4 characters'),
    'both': dict(fn=h_both, quick=[dict(n=1), dict(n=4)], bounds='both versions declared under names of up to 4 characters'),
    'apart': dict(fn=h_apart, quick=[dict(k=2, fields=['dob', 'email'])], thorough=[dict(k=3, fields=['dob'])], bounds='two (three) requests and responses made in every way, two fields'),
    'taken': dict(fn=h_taken, quick=[dict(ver=1), dict(ver=2)], bounds='aliases up to 4 characters'),
}
