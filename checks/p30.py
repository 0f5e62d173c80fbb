"""P30: attribute exchange messages round-trip with their counts."""
from checks import rp

NS = 'http://openid.net/srv/ax/1.0'
TYPES = ('http://t/a', 'http://t/b', 'http://t/c', 'http://t/d')
# aliases the protocol reserves for itself, of up to four characters
RESERVED = ('ns', 'mode', 'sig')


class Holder(object):
    def __init__(self, message):
        self.message = message


def wire(c, ext, ver=2, **fields):
    """The message with the extension, after a trip to the other party."""
    M = c.mod('openid.message')
    m = M.Message(rp.NS2 if ver == 2 else rp.NS1)
    for k, v in fields.items():
        m.setArg(M.OPENID_NS, k, v)
    ext.toMessage(m)
    return M.Message.fromPostArgs(m.toPostArgs())


def given(c, args, ver=2, alias='ax', **fields):
    """A message carrying these extension arguments."""
    M = c.mod('openid.message')
    q = {'openid.ns': rp.NS2, 'openid.mode': 'id_res', 'openid.ns.' + alias: NS}
    for k, v in args.items():
        q['openid.' + alias + '.' + k] = v
    for k, v in fields.items():
        q['openid.' + k] = v
    return M.Message.fromPostArgs(q)


def success(c, m, unsigned=()):
    C = c.mod('openid.consumer.consumer')
    return C.SuccessResponse(rp.endpoint(c, 2), m, [k for k in m.toPostArgs() if k not in unsigned])


def documented(ex):
    """The errors a malformed message may raise."""
    return isinstance(ex, (ValueError, KeyError))


def bad_alias(c, a):
    return c.has_char(a, ',.')


def an_alias(c, name, p):
    return p.get('apre', '') + c.text(name, p['an'], p.get('amin', 0), p.get('ac'))


def same_attr(c, info, alias, typ, count, required):
    c.check(info.type_uri == typ and bool(info.required) == required, 'an attribute keeps its type and whether it is required')
    c.check(c.eq(info.count, count), 'an attribute keeps its count')
    if alias is not None:
        c.check(c.eq(info.alias, alias), 'an attribute keeps its alias')


def h_fetch_request(c):
    """What the relying party asks for is what the provider sees."""
    p = c.params
    A = c.mod('openid.extensions.ax')
    r = A.FetchRequest()
    want = []
    for i in range(p['attrs']):
        typ = TYPES[i] if not p.get('dup') else c.choice('type%d' % i, TYPES[:2])
        kind = c.pick('alias_kind%d' % i, 2) if p.get('auto') else 1
        alias = None if kind == 0 else an_alias(c, 'alias%d' % i, p)
        count = c.choice('count_kind%d' % i, ('one', 'some', 'unlimited')[:p.get('counts', 3)])
        count = 1 if count == 'one' else c.int('count%d' % i, 1, p.get('max', 1000)) if count == 'some' else 'unlimited'
        required = c.maybe('required%d' % i)
        info, ex = c.attempt(A.AttrInfo, typ, count, required, alias)
        if alias is not None:
            c.check(c.Iff(ex is not None, bad_alias(c, alias)), 'exactly aliases with a period or comma are refused')
        if ex is not None:
            c.check(isinstance(ex, A.AXError), 'an alias is refused with the error of the extension')
            return
        c.check(info.wantsUnlimitedValues() == (count == 'unlimited'), 'unlimited counts are told apart')
        _, ex = c.attempt(r.add, info)
        again = typ in [w[1] for w in want]
        c.check((ex is not None) == again, 'exactly a repeated attribute is refused')
        if ex is not None:
            c.check(isinstance(ex, KeyError), 'refused with a key error')
            continue
        want.append((alias, typ, count, required))
    url = c.choice('update', ('none', 'inside', 'query')[:1 if p.get('plain') else 3])
    r.update_url = {'none': None, 'inside': 'http://rp/', 'query': 'http://rp/?'}[url]
    if url == 'query':
        r.update_url += c.text('query', 1, 0, 'print')
    m, ex = c.attempt(wire, c, r, 2, realm='http://rp/')
    taken = [w[0] for w in want if w[0] is not None]
    clash = c.Or([c.eq(taken[i], taken[j]) for i in range(len(taken)) for j in range(i)] + [c.eq(a, x) for a in taken for x in RESERVED])
    if None not in [w[0] for w in want]:
        c.check(c.Iff(ex is not None, clash), 'exactly colliding aliases are refused')
    else:
        c.check(c.Implies(clash, ex is not None), 'colliding aliases are refused')
    if ex is not None:
        c.check(documented(ex), 'refused with a documented error')
        c.check(bool(taken), 'generated aliases are accepted')
        return
    if '' in taken:
        return
    c.assume(c.And([c.Not(c.eq(a, '')) for a in taken]))
    g, ex = c.attempt(A.FetchRequest.fromOpenIDRequest, Holder(m))
    if url == 'query':
        c.check(ex is None or c.Not(c.has_char(r.update_url[len('http://rp/?'):], 'abcdefghij0123456789&=')), 'an update address inside the realm is accepted')
        if ex is not None:
            c.check(isinstance(ex, A.AXError), 'refused with the error of the extension')
            return
    c.check(ex is None, 'a request the library makes can be read')
    if ex is not None:
        return
    if not want:
        c.check(g is not None and list(g) == [], 'nothing asked for is nothing asked for')
    for alias, typ, count, required in want:
        c.check(typ in g, 'every attribute asked for arrives')
        same_attr(c, g.requested_attributes[typ], alias, typ, count, required)
    c.check(sorted(g) == sorted(w[1] for w in want), 'exactly the attributes asked for arrive')
    c.check(sorted(g.getRequiredAttrs()) == sorted(w[1] for w in want if w[3]), 'the required attributes are listed')
    c.check(len([a for a in g.iterAttrs()]) == len(want), 'exactly the attributes asked for arrive')
    c.check(g.update_url is None if url == 'none' else c.eq(g.update_url, r.update_url), 'the update address arrives')


def a_count(c, name, p):
    """Text of a count."""
    return p.get('cpre', '') + c.text(name, p.get('cn', 1), 0, p.get('cc', '0-9x-')) + p.get('cpost', '')


def number(c, s):
    """Value of a count, or None."""
    n, ex = c.attempt(int, s)
    return None if ex is not None else n


def h_fetch_parse(c):
    """Any arguments: accepted exactly if well-formed, and then as stated."""
    p = c.params
    A = c.mod('openid.extensions.ax')
    args, attrs = {}, []
    mode = c.choice('mode', p.get('modes', ['fetch_request']))
    if mode == '?':
        mode = 'fetch_r' + c.text('mode_text', 6, 6, 'equst') if p.get('modefree') else ''
    if mode is not None:
        args['mode'] = mode
    for i in range(p.get('attrs', 1)):
        alias = an_alias(c, 'alias%d' % i, p)
        typ = c.choice('type%d' % i, TYPES[:p.get('types', 2)])
        count = None
        if c.maybe('counted%d' % i) if p.get('counted', 1) else False:
            count = a_count(c, 'count%d' % i, p)
        attrs.append((alias, typ, count))
    for i in range(len(attrs)):
        for j in range(i):
            c.assume(c.Not(c.eq(attrs[i][0], attrs[j][0])))
    for alias, typ, count in attrs:
        args['type.' + alias] = typ
        if count is not None:
            args['count.' + alias] = count
    lists = {}
    for k in ('required', 'if_available'):
        if k in p:
            pre, n, chars, post = p[k]
            args[k] = pre + c.text(k, n, 0, chars) + post
        lists[k] = args[k].split(',') if args.get(k) else []
    if p.get('extra'):
        args[c.choice('extra', ('count.zz', 'typ', 'value.a', 'type', 'update_ur', 'count.'))] = 'x'
    direct = p.get('direct')
    r = A.FetchRequest()
    if direct:
        _, ex = c.attempt(r.parseExtensionArgs, args)
        if isinstance(ex, A.NotAXMessage):
            c.check(mode is None or len(mode) == 0, 'a message without mode is not an attribute exchange')
            return
    else:
        r, ex = c.attempt(A.FetchRequest.fromOpenIDRequest, Holder(given(c, args)))
        if ex is None and r is None:
            c.check(mode is None or len(mode) == 0, 'a message without mode is not an attribute exchange')
            return
    ok = [mode is not None and c.eq(mode, 'fetch_request')]
    counts = []
    for alias, typ, count in attrs:
        ok.append(c.Not(bad_alias(c, alias)))
        ok += [c.Not(c.eq(alias, x)) for x in RESERVED]
        if count is None or len(count) == 0:
            counts.append(1)
        else:
            n = number(c, count)
            if n is None:
                ok.append(c.eq(count, 'unlimited'))
                counts.append('unlimited')
            else:
                ok.append(n > 0)
                counts.append(n)
    ok.append(len(set(t for a, t, n in attrs)) == len(attrs))
    named = {}
    for k in lists:
        for x in lists[k]:
            ok.append(c.Or([c.eq(x, a) for a, t, n in attrs]))
        named[k] = [c.Or([c.eq(x, a) for x in lists[k]]) for a, t, n in attrs]
    for i in range(len(attrs)):
        ok.append(c.Or(named['required'][i], named['if_available'][i]))
    c.check(c.Iff(ex is None, c.And(ok)), 'exactly well-formed requests are accepted')
    if ex is not None:
        c.check(documented(ex), 'refused with a documented error')
        return
    c.check(sorted(r) == sorted(t for a, t, n in attrs), 'exactly the attributes of the message are asked for')
    for (alias, typ, count), n, req in zip(attrs, counts, named['required']):
        info = r.requested_attributes[typ]
        c.check(c.And(info.type_uri == typ, c.eq(info.alias, alias)), 'an attribute has the alias of the message')
        c.check(c.eq(info.count, n), 'an attribute has the count of the message')
        c.check(c.Iff(info.required, req), 'an attribute is required if the message says so')


def h_update_url(c):
    """The update address is inside the realm, or the return address."""
    p = c.params
    A, T = c.mod('openid.extensions.ax'), c.mod('openid.server.trustroot')
    url = c.choice('url', p['urls'])
    if '?' in p.get('free', ''):
        url = url + c.text('tail', p['n'], 0, p.get('chars'))
    realm = c.choice('realm', p['realms'])
    rt = c.choice('return_to', p['returns'])
    f = {}
    if realm is not None:
        f['realm'] = realm + (c.text('realm_tail', 1, 0, p.get('chars')) if p.get('realmfree') else '')
    if rt is not None:
        f['return_to'] = rt
    r, ex = c.attempt(A.FetchRequest.fromOpenIDRequest, Holder(given(c, {'mode': 'fetch_request', 'update_url': url}, **f)))
    base = f.get('realm', f.get('return_to'))
    tr = T.TrustRoot.parse(base) if base else None
    ok = tr is not None and tr.validateURL(url)
    ok = c.Or(ok, len(url) == 0)
    c.check(c.Iff(ex is None, ok), 'exactly update addresses inside the realm are accepted')
    if ex is not None:
        c.check(isinstance(ex, A.AXError), 'refused with the error of the extension')
    else:
        c.check(c.eq(r.update_url, url), 'the update address is the one of the message')


def h_update_out(c):
    """An address outside of the realm, whatever it looks like."""
    p = c.params
    A = c.mod('openid.extensions.ax')
    host = c.text('host', p['n'], p.get('lo', 1), p.get('chars', 'a-z.-'))
    k = 1 if p.get('few') else 9
    url = c.choice('scheme', ('http', 'https')[:k]) + '://' + host + c.choice('port', ('', ':81', ':80')[:k]) + c.choice('path', ('/', '/ab', '/a/b', '/a?b', '?b')[:k])
    realm = 'http://' + c.choice('wild', ('', '*.')) + 'rp.x' + c.choice('rpath', ('/', '/a', '/a?b')[:k])
    r, ex = c.attempt(A.FetchRequest.fromOpenIDRequest, Holder(given(c, {'mode': 'fetch_request', 'update_url': url}, realm=realm)))
    sub = c.Or(c.eq(host, 'rp.x'), c.And('*' in realm, len(host) > 5 and c.eq(host[-5:], '.rp.x')))
    c.check(c.Implies(ex is None, c.And(sub, url.startswith('http:'), ':81' not in url)), 'an update address outside the realm is refused')
    if ex is None:
        tail = url[url.index('/', 7):] if '/' in url[7:] else '/' + url[url.index('?'):]
        rp_ = realm[realm.index('/', 7):]
        c.check(tail.startswith(rp_), 'an update address outside the path of the realm is refused')


def put(c, msg, p, want):
    """Any history of values given to the message."""
    for k in range(p['steps']):
        typ = c.choice('to%d' % k, TYPES[:p.get('types', 2)])
        what = c.choice('what%d' % k, p.get('what', ('text', 'number', 'bytes')))
        if what in ('text', 'number', 'bytes'):
            v = c.text('v%d' % k, p['n'], 0, p.get('chars')) if what == 'text' else 40 + k if what == 'number' else b'b'
            msg.addValue(typ, v)
            want.setdefault(typ, []).append(v if what == 'text' else str(v) if what == 'number' else 'b')
        else:
            vs = [c.text('v%d_%d' % (k, j), p['n'], 0, p.get('chars')) for j in range(int(what))]
            msg.setValues(typ, vs)
            want[typ] = list(vs)


def same_data(c, got, want):
    c.check(sorted(got) == sorted(want), 'exactly the types of the message arrive')
    for typ, values in want.items():
        c.check(len(got[typ]) == len(values), 'as many values arrive as were sent')
        for x, y in zip(got[typ], values):
            c.check(c.eq(x, y), 'values arrive unchanged and in order')


def accessors(c, A, msg, want, asked):
    for typ in asked:
        v, ex = c.attempt(msg.get, typ)
        n, ex2 = c.attempt(msg.count, typ)
        s, ex3 = c.attempt(msg.getSingle, typ, 'default')
        if typ not in want:
            c.check(isinstance(ex, KeyError) and isinstance(ex2, KeyError), 'a type which was not sent has no values')
            c.check(ex3 is None and s == 'default', 'a type which was not sent has the default value')
            continue
        vals = want[typ]
        c.check(ex is None and c.eq(v, vals) and n == len(vals), 'the values sent are returned')
        if len(vals) > 1:
            c.check(isinstance(ex3, A.AXError), 'several values are not a single one')
        else:
            c.check(ex3 is None and c.eq(s, vals[0] if vals else 'default'), 'the only value is returned')


def h_response(c):
    """A response without request, or a store request: all values arrive."""
    p = c.params
    A = c.mod('openid.extensions.ax')
    want = {}
    kind = p['kind']
    if kind == 'fetch':
        url = c.text('url', 2, 0, 'print') if p.get('url') else None
        msg = A.FetchResponse(update_url=url)
    else:
        msg = A.StoreRequest()
    put(c, msg, p, want)
    m = wire(c, msg)
    if kind == 'fetch':
        only = c.maybe('signed')
        got, ex = c.attempt(A.FetchResponse.fromSuccessResponse, success(c, m), only)
    else:
        got, ex = c.attempt(A.StoreRequest.fromOpenIDRequest, Holder(m))
    c.check(ex is None and got is not None, 'a message the library makes can be read')
    if ex is not None or got is None:
        return
    same_data(c, got.data, want)
    accessors(c, A, got, want, TYPES)
    if kind == 'fetch':
        c.check(got.update_url is None if url is None or len(url) == 0 else c.eq(got.update_url, url), 'the update address arrives')
        drop = c.choice('drop', sorted(k for k in m.toPostArgs() if k.startswith('openid.ax.')))
        got, ex = c.attempt(A.FetchResponse.fromSuccessResponse, success(c, m, (drop,)), True)
        c.check(ex is None and got is None, 'a response which is not completely signed is ignored')


def h_answer(c):
    """A response to a request: requested types only, no more values than asked for."""
    p = c.params
    A = c.mod('openid.extensions.ax')
    req = A.FetchRequest(c.choice('update', (None, 'http://rp/u')))
    limits, order = {}, []
    for i in range(p['attrs']):
        k = c.choice('limit%d' % i, ('none', 'n', 'unlimited'))
        if k == 'none':
            continue
        n = c.int('n%d' % i, 1, p.get('max', 3)) if k == 'n' else 'unlimited'
        alias = c.text('alias%d' % i, p.get('an', 1), 1, p.get('ac', 'a-z')) if c.maybe('named%d' % i) else None
        limits[TYPES[i]] = (n, alias)
        req.add(A.AttrInfo(TYPES[i], n, c.maybe('req%d' % i), alias))
    named = [a for n, a in limits.values() if a is not None]
    for i in range(len(named)):
        c.assume(c.Not(c.eq(named[i], named[-1])) if i < len(named) - 1 else True)
        c.assume(c.Not(c.Or([c.eq(named[i], x) for x in RESERVED])))
    own = c.choice('own_update', (None, 'http://rp/own'))
    msg = A.FetchResponse(req, own)
    want = {}
    put(c, msg, p, want)
    m, ex = c.attempt(wire, c, msg)
    ok = [typ in limits for typ in want]
    for typ in want:
        if typ in limits and limits[typ][0] != 'unlimited':
            ok.append(len(want[typ]) <= limits[typ][0])
    c.check(c.Iff(ex is None, c.And(ok)), 'exactly unrequested types and more values than requested are refused')
    if ex is not None:
        c.check(documented(ex), 'refused with a documented error')
        return
    for t in limits:
        want.setdefault(t, [])
    got, ex = c.attempt(A.FetchResponse.fromSuccessResponse, success(c, m))
    c.check(ex is None and got is not None, 'a message the library makes can be read')
    if ex is not None or got is None:
        return
    same_data(c, got.data, want)
    accessors(c, A, got, want, TYPES[:3])
    c.check(got.update_url == (own if req.update_url is None else req.update_url), 'the update address arrives')
    for t, (n, alias) in limits.items():
        if alias is not None:
            c.check(m.getArg(NS, 'type.' + alias) == t, 'the aliases of the request are used')


def h_values_parse(c):
    """Any arguments: accepted exactly if well-formed, with the values as stated."""
    p = c.params
    A = c.mod('openid.extensions.ax')
    kind = p['kind']
    args, attrs = {}, []
    mode = {'fetch': 'fetch_response', 'store': 'store_request'}[kind]
    args['mode'] = c.choice('mode', p.get('modes', [mode]))
    if args['mode'] is None:
        del args['mode']
    for i in range(p.get('attrs', 1)):
        alias = an_alias(c, 'alias%d' % i, p)
        typ = c.choice('type%d' % i, TYPES[:p.get('types', 2)])
        attrs.append((alias, typ))
    for i in range(len(attrs)):
        for j in range(i):
            c.assume(c.Not(c.eq(attrs[i][0], attrs[j][0])))
    vals = []
    for i, (alias, typ) in enumerate(attrs):
        args['type.' + alias] = typ
        count = a_count(c, 'count%d' % i, p) if c.maybe('counted%d' % i) else None
        if count is not None:
            args['count.' + alias] = count
        have = {}
        for j in c.choice('indices%d' % i, p.get('indices', [(1, 2)])):
            have[j] = c.text('v%d_%d' % (i, j), p.get('n', 1), 0 if j == 0 else 1)
            args['value.' + alias + ('.%d' % j if j else '')] = have[j]
        vals.append((count, have))
    if p.get('direct'):
        msg = A.FetchResponse() if kind == 'fetch' else A.StoreRequest()
        _, ex = c.attempt(msg.parseExtensionArgs, args)
        none = isinstance(ex, A.NotAXMessage)
    elif kind == 'fetch':
        msg, ex = c.attempt(A.FetchResponse.fromSuccessResponse, success(c, given(c, args)))
        none = ex is None and msg is None
    else:
        msg, ex = c.attempt(A.StoreRequest.fromOpenIDRequest, Holder(given(c, args)))
        none = ex is None and msg is None
    c.check(none == (not args.get('mode')), 'a message without mode is not an attribute exchange')
    if none:
        return
    ok = [args['mode'] == mode]
    for alias, typ in attrs:
        ok.append(c.Not(bad_alias(c, alias)))
        ok += [c.Not(c.eq(alias, x)) for x in RESERVED]
    ok.append(len(set(t for a, t in attrs)) == len(attrs))
    want = {}
    for (alias, typ), (count, have) in zip(attrs, vals):
        if count is None:
            ok.append(0 in have)
            if 0 in have:
                want[typ] = [have[0]] if len(have[0]) else []
            continue
        n = number(c, count)
        if n is None:
            ok.append(False)
            continue
        ok.append(n >= 0)
        top = 0
        while top + 1 in have:
            top += 1
        ok.append(n <= top)
        want[typ] = [have[k] for k in range(1, top + 1) if n >= k]
    c.check(c.Iff(ex is None, c.And(ok)), 'exactly well-formed messages are accepted')
    if ex is not None:
        c.check(documented(ex), 'refused with a documented error')
        return
    same_data(c, msg.data, want)


def h_store_response(c):
    """Success and failure of storing, with its message."""
    p = c.params
    A = c.mod('openid.extensions.ax')
    good = c.maybe('good')
    err = c.text('error', p['n'], 0) if c.maybe('with_error') else None
    r, ex = c.attempt(A.StoreResponse, good, err)
    c.check((ex is not None) == (good and err is not None), 'exactly an error message of a success is refused')
    if ex is not None:
        c.check(isinstance(ex, A.AXError), 'refused with the error of the extension')
        return
    c.check(r.succeeded() == good, 'success is reported as given')
    m = wire(c, r)
    got, ex = c.attempt(A.StoreResponse.fromSuccessResponse, success(c, m), c.maybe('only_signed'))
    c.check(ex is None and got is not None, 'a response the library makes can be read')
    if ex is None and got is not None:
        c.check(got.succeeded() == good, 'success arrives as success and failure as failure')
        if not good:
            c.check(got.error_message is None if err is None or len(err) == 0 else c.eq(got.error_message, err), 'the error message arrives')
    mode = 'store_response_' + c.text('mode', 7, 7, 'acefilrsu')
    got, ex = c.attempt(A.StoreResponse.fromSuccessResponse, success(c, given(c, {'mode': mode, 'error': 'e'})))
    known = c.Or(c.eq(mode, 'store_response_success'), c.eq(mode, 'store_response_failure'))
    c.check(c.Iff(ex is None, known), 'exactly the modes of a store response are accepted')
    if ex is None:
        c.check(c.Iff(got.succeeded(), c.eq(mode, 'store_response_success')), 'success is success and failure is failure')
    else:
        c.check(isinstance(ex, A.AXError), 'refused with the error of the extension')


def h_mode(c):
    """A message of another mode is not taken for this one."""
    A = c.mod('openid.extensions.ax')
    mode = c.params['pre'] + c.text('mode', c.params['n'], 0, c.params['chars'])
    m = given(c, {'mode': mode, 'required': '', 'type.a': TYPES[0], 'if_available': 'a', 'count.a': '1', 'value.a.1': 'v'})
    for name, f in (('fetch_request', lambda: A.FetchRequest.fromOpenIDRequest(Holder(m))), ('store_request', lambda: A.StoreRequest.fromOpenIDRequest(Holder(m))),
                    ('fetch_response', lambda: A.FetchResponse.fromSuccessResponse(success(c, m)))):
        r, ex = c.attempt(f)
        if len(mode) == 0:
            c.check(ex is None and r is None, 'a message without mode is not an attribute exchange')
            continue
        c.check(c.Iff(ex is None, c.eq(mode, name)), 'exactly messages of the right mode are accepted')
        c.check(ex is None or isinstance(ex, A.AXError), 'another mode is refused with the error of the extension')


def t(pre, n, chars, post=''):
    return [pre, n, chars, post]


MODES = ['fetch_request', 'fetch_response', None, '', 'store_request']
HARNESSES = {
    'fetch_request': dict(fn=h_fetch_request, quick=[dict(attrs=1, an=2), dict(attrs=2, an=2, ac='ab.,', counts=1, amin=1, plain=1), dict(attrs=2, an=1, ac='ab', counts=3, amin=1), dict(attrs=2, auto=1, apre='ext', an=1, ac='0-9', counts=1), dict(attrs=2, an=1, ac='ab', dup=1, counts=2, max=9), dict(attrs=1, an=4, ac='modensig')],
                          thorough=[dict(attrs=3, an=1, ac='a-c', auto=1, counts=2), dict(attrs=3, an=2, ac='ab.,', counts=1, dup=1)], bounds='up to 2 (3) attributes, aliases up to 4 characters, counts up to 1000'),
    'fetch_parse': dict(fn=h_fetch_parse, quick=[dict(an=2, required=t('', 2, 'a-c.,n')), dict(an=1, ac='ab', attrs=2, required=t('', 3, 'ab,'), counted=0), dict(an=1, ac='ab', attrs=2, required=t('', 1, 'ab,'), if_available=t('', 3, 'ab,'), counted=0),
                                                 dict(an=0, apre='a', cn=3, cc='0-9- _+x', required=t('a', 0, '')), dict(an=0, apre='a', cpre='unli', cn=3, cc='imted', cpost='ed', if_available=t('a', 0, '')), dict(an=0, apre='a', cpre='unlimited', cn=1, cc=None, if_available=t('a', 0, ''), direct=1), dict(an=0, apre='a', modes=MODES, if_available=t('a', 0, ''), extra=1), dict(an=0, apre='a', modes=MODES, required=t('a', 0, ''), direct=1), dict(an=1, ac='a', required=t('', 3, 'ab.'), attrs=1, direct=1, types=1), dict(an=4, ac='modensig', required=t('', 0, ''), direct=1, counted=0)],
                        thorough=[dict(an=1, ac='ab', attrs=2, required=t('', 3, 'ab,'), if_available=t('', 3, 'ab,'), counted=0), dict(an=1, ac='abc', attrs=3, types=3, required=t('a,', 3, 'abc,'), counted=0), dict(an=0, apre='a', cn=4, cc=None, required=t('a', 0, ''))], bounds='up to 2 (3) attributes with symbolic aliases, counts up to 3 (4) characters, alias lists up to 3 characters'),
    'update_url': dict(fn=h_update_url, quick=[dict(urls=['http://rp/u', 'http://rp', 'http://x.rp/u', 'https://rp/u', '', 'rp', 'http://rp:80/u', 'http://rp:8/u', 'http:///', 'mailto:a'], realms=[None, 'http://rp/', 'http://*.rp/', 'http://rp/u', '', 'x', 'http://rp/#f'], returns=[None, 'http://rp/u', 'rp', 'http://rp/u#f']), dict(urls=['http://rp', 'http://x.rp'], free='?', n=2, realms=['http://rp/', 'http://*.rp/'], returns=[None], chars='print'), dict(urls=['http://rp', 'http://rp/a'], free='?', n=2, realms=['http://rp', 'http://rp/a', 'http://rp:81', 'http://*.rp'], returns=[None], chars='a.:/?-'), dict(urls=['http://rp/a'], realmfree=1, realms=['http://rp', 'http://rp/'], returns=[None], chars='print')],
                       thorough=[dict(urls=['http://rp'], free='?', n=3, realms=['http://rp/', 'http://rp/u'], returns=[None], chars='print')], bounds='addresses with up to 2 (3) free characters'),
    'update_out': dict(fn=h_update_out, quick=[dict(n=4, lo=3, chars='rp.x'), dict(n=6, lo=6, chars='rp.x', few=1)], thorough=[dict(n=6, chars='rp.x'), dict(n=5, chars='rp.xa-')], bounds='hosts up to 6 characters'),
    'response': dict(fn=h_response, quick=[dict(kind='fetch', steps=2, n=1, what=('text', 'number', '0', '2'), url=1), dict(kind='store', steps=2, n=2, what=('text', 'bytes', '1', '2')), dict(kind='store', steps=3, n=1, what=('text', '0'), types=3)],
                     thorough=[dict(kind=k, steps=3, n=1, what=('text', 'number', '0', '1', '3')) for k in ('fetch', 'store')] + [dict(kind='store', steps=1, n=1, what=('12',))], bounds='every history of 2-3 assignments of up to 2 (3) values'),
    'answer': dict(fn=h_answer, quick=[dict(attrs=2, steps=1, n=1, types=3, what=('text', '0', '2', '3')), dict(attrs=1, steps=2, n=1, types=2, what=('text', '2'))], thorough=[dict(attrs=2, steps=3, n=1, types=2, what=('text', '2'))], bounds='up to 2 requested attributes, counts up to 3, every history of 1-2 (3) assignments'),
    'values_parse': dict(fn=h_values_parse, quick=[dict(kind='fetch', an=2, indices=[(1,), (0,), ()], cn=1), dict(kind='store', an=2, indices=[(1,), (0,)], cn=1, ac='a-c.,n'), dict(kind='fetch', an=0, apre='a', indices=[(1, 2, 3), (1, 3), (0, 2)], cn=2, cc='0-4- x'), dict(kind='store', an=1, amin=1, ac='ab', attrs=2, indices=[(1,), (0,)], cn=1, cc='0-2'), dict(kind='fetch', an=0, apre='a', cn=2, cc=None, indices=[(1,)], direct=1), dict(kind='store', an=0, apre='a', indices=[(1,)], cc='1', modes=MODES, direct=1), dict(kind='fetch', an=0, apre='a', indices=[(1,)], cc='1', modes=MODES)],
                         thorough=[dict(kind='fetch', an=1, ac='ab', attrs=2, indices=[(1, 2), (0, 1), (2,)], cn=2, cc='0-3x'), dict(kind='store', an=0, apre='a', indices=[tuple(range(1, 13)), tuple(range(1, 10))], cn=2, cc='0-9', n=1)], bounds='up to 2 attributes, counts up to 2 characters, up to 3 (12) values'),
    'store_response': dict(fn=h_store_response, quick=[dict(n=2)], thorough=[dict(n=4)], bounds='error messages up to 2 (4) characters, modes of the length of the real ones'),
    'mode': dict(fn=h_mode, quick=[dict(pre='', n=1, chars=None), dict(pre='fetch_re', n=5, chars='quest')], thorough=[dict(pre='fetch_re', n=6, chars='sponeqt'), dict(pre='store_re', n=6, chars='questpon')], bounds='modes with up to 5 (6) free characters'),
}
