"""P36: service filters see every service once, in order, and give what they accept."""
from lxml import etree

from checks import fakes
from checks.p35 import Response, install


class Other(object):
    """A filter object of the application."""

    def __init__(self, name, per):
        self.name, self.per, self.seen = name, per, []

    def getServiceEndpoints(self, yadis_url, service_element):
        self.seen.append((yadis_url, service_element))
        return [(self.name, i, service_element) for i in range(self.per)]


class Endpoint(object):
    """An endpoint class of the application."""

    def __init__(self, name, basic):
        self.name, self.basic = name, basic


class Falsy(Endpoint):
    """An endpoint that counts as false."""

    def __len__(self):
        return 0


def accepting(c, name, wanted, seen, made=Endpoint):
    """A function that accepts services of a type."""
    def f(basic):
        seen.append((name, basic))
        if basic.matchTypes([wanted]):
            return made(name, basic)
        return None
    return f


class Both(Other):
    """A filter object that could be an endpoint as well."""

    def fromBasicServiceEndpoint(self, endpoint):
        raise AssertionError('a full filter is used as such')

    __call__ = fromBasicServiceEndpoint


class Maker(object):
    """What an endpoint class looks like to the library."""

    def __init__(self, f):
        self.fromBasicServiceEndpoint = f


class CallableMaker(Maker):
    """An endpoint class can be called."""

    def __call__(self, *args):
        raise AssertionError('an endpoint class is not called for a service')


def part(c, name, p, seen, depth):
    """A part of a filter and its meaning: ('filter', f), ('function', name, type), ('list', parts), ('junk',)"""
    kinds = tuple(p.get('plain', ('function', 'maker', 'filter'))) + (('junk',) if p.get('junk') else ()) + (('list', 'tuple') if depth else ())
    k = c.choice(name, kinds)
    if k in ('function', 'maker', 'callable maker'):
        wanted = c.str(name + '.type', p.get('n', 1), p.get('chars')) if p.get('free') else c.choice(name + '.type', p['types'])
        f = accepting(c, name, wanted, seen, Falsy if p.get('falsy') and c.maybe(name + '.falsy') else Endpoint)
        return (f if k == 'function' else Maker(f) if k == 'maker' else CallableMaker(f)), ('function', name, wanted)
    if k == 'filter':
        o = (Both if p.get('many') and c.maybe(name + '.both') else Other)(name, c.pick(name + '.n', 3) if p.get('many') else 1)
        return o, ('filter', o)
    if k == 'junk':
        return c.choice(name + '.junk', (7, object())), ('junk',)
    parts = [part(c, '%s.%d' % (name, i), p, seen, depth - 1) for i in range(c.pick(name + '#', p.get('nested', 2) + 1))]
    objs = [x for x, m in parts]
    return (tuple(objs) if k == 'tuple' else objs), ('list', [m for x, m in parts])


def junk(m):
    return m[0] == 'junk' or m[0] == 'list' and any(junk(x) for x in m[1])


def meaning(c, m, url, service, pairs):
    """What a filter makes of a service: [(name, types, uri) or (name, i, service)]"""
    if m[0] == 'filter':
        return [('object', m[1].name, i, service) for i in range(m[1].per)]
    if m[0] == 'function':
        return meaning(c, ('list', [m]), url, service, pairs)
    out, functions = [], []
    for x in m[1]:
        if x[0] == 'function':
            functions.append(x)
        else:
            out += meaning(c, x, url, service, pairs)
    for types, uri in pairs:
        for x in functions:
            if any([c.eq(x[2], t) for t in types]):
                out.append(('endpoint', x[1], types, uri))
                break
    return out


def a_document(c, p):
    """A document with services and what it states, in order."""
    root = fakes.xrds()
    xrd = fakes.el(root, 'XRD')
    stated = []
    for i in range(p['services']):
        types = [c.str('service%d.%s' % (i, t), p.get('n', 1), p.get('chars')) if p.get('free') else t for t in p['types'] if c.maybe('service%d.%s' % (i, t))]
        uris = ['http://%d/%d' % (i, j) for j in range(c.pick('uris%d' % i, p.get('uris', 2) + 1))]
        pr = i if not p.get('prio') else c.pick('prio%d' % i, 2)
        stated.append((pr * 10 + i, types, uris))
        fakes.service(xrd, types, [(u, '%d' % j) for j, u in enumerate(uris)], priority='%d' % (pr * 10 + i))
    stated.sort(key=lambda x: x[0])
    return root, [(types, uris) for pr, types, uris in stated]


def h_apply(c):
    """Any filter, over every document."""
    p = c.params
    S = c.mod('openid.yadis.services')
    seen = []
    k = c.choice('top', ('list', 'single')[:p.get('tops', 2)])
    if k == 'single':
        flt, m = part(c, 'a', p, seen, p.get('depth', 1))
        if m[0] == 'junk' or m[0] == 'filter' or m[0] == 'function':
            m = ('list', [m])
    else:
        parts = [part(c, 'p%d' % i, p, seen, p.get('depth', 1)) for i in range(c.pick('#', p['k'] + 1))]
        flt, m = [x for x, y in parts], ('list', [y for x, y in parts])
    root, stated = a_document(c, p)
    r, ex = c.attempt(S.applyFilter, 'http://page/', c.document(root), flt)
    if junk(m):
        c.check(isinstance(ex, TypeError) and not seen, 'what is no filter is refused')
        return
    c.check(ex is None, 'any combination of filters can be applied')
    want = []
    for types, uris in stated:
        pairs = [(types, u) for u in uris] or [(types, None)]
        want += [w for w in meaning(c, m, 'http://page/', None, pairs)]
    check_result(c, r, want)


def check_result(c, r, want):
    c.check(len(r) == len(want), 'exactly what the filters accept is found')
    for e, w in zip(r, want):
        if w[0] == 'object':
            c.check(isinstance(e, tuple) and e[0] == w[1] and e[1] == w[2], 'results come in the order of services, addresses and filters')
        else:
            c.check(isinstance(e, Endpoint) and e.name == w[1] and e.basic.uri == w[3], 'results come in the order of services, addresses and filters')
            c.check(c.eq(list(e.basic.type_uris), list(w[2])) and e.basic.yadis_url == 'http://page/', 'endpoints are those of the document')


def h_basic(c):
    """Without filter every service is found as it is."""
    p = c.params
    S = c.mod('openid.yadis.services')
    F = c.mod('openid.yadis.filters')
    root = fakes.xrds()
    xrd = fakes.el(root, 'XRD')
    stated = []
    for i in range(p['services']):
        types = [c.text('t%d%d' % (i, j), p['n'], 1, p.get('chars')) for j in range(c.pick('types%d' % i, 3))]
        uris = [c.text('u%d%d' % (i, j), p['n'], 1, p.get('chars')) for j in range(c.pick('uris%d' % i, 2))]
        fakes.service(xrd, types, uris, priority='%d' % i)
        stated += [(types, u) for u in uris] or [(types, None)]
    flt = c.choice('filter', (None, 'class', 'list'))
    given = None if flt is None else F.BasicServiceEndpoint if flt == 'class' else [F.BasicServiceEndpoint]
    r = S.applyFilter('http://page/', c.document(root), given)
    c.check(len(r) == len(stated), 'every service is found')
    for e, (types, u) in zip(r, stated):
        c.check(isinstance(e, F.BasicServiceEndpoint) and e.yadis_url == 'http://page/', 'every service is found')
        c.check(c.eq(list(e.type_uris), types) and (e.uri is None if u is None else c.eq(e.uri, u)), 'services are the stated ones')
        ask = [c.text('ask', p['n'], 0, p.get('chars')), 'http://x/'] + types[:1] if e is r[0] else types
        want = [a for a in ask if any([c.eq(a, t) for t in types])]
        got = e.matchTypes(ask)
        c.check(c.eq(list(got), want), 'the matching types are those asked for which the service has')


def h_get(c):
    """The document is the one the page names; failures are discovery failures."""
    p = c.params
    S = c.mod('openid.yadis.services')
    D = c.mod('openid.yadis.discover')
    root = fakes.xrds()
    xrd = fakes.el(root, 'XRD')
    fakes.service(xrd, ['t'], ['http://s/'])
    good = c.document(root)
    html = etree.Element('html')
    etree.SubElement(html, 'head')
    bad = {'page': c.html(html), 'text': b'nothing', 'empty': b'', 'other': c.document(etree.Element('{other}XRDS')), 'bare': c.document(fakes.xrds())}
    first, second = (c.choice(n, ('good', 'page', 'text', 'empty', 'other', 'bare')) for n in ('first', 'second'))
    status = [c.int('s1', 0, 999), c.int('s2', 0, 999)]
    direct = c.maybe('direct')
    h = {'content-type': 'application/xrds+xml'} if direct else {'x-xrds-location': 'http://xrds/'} if c.maybe('named') else {}
    body = lambda k: good if k == 'good' else bad[k]
    f = install(c, [Response('http://page/', status[0], h, body(first)), Response('http://xrds/', status[1], {}, body(second))])
    r, ex = c.attempt(S.getServiceEndpoints, 'http://asked/')
    c.check(ex is None or isinstance(ex, D.DiscoveryFailure), 'only the discovery error is raised')
    follow = 'x-xrds-location' in h
    ok = c.Or(status[0] == 200, status[0] == 206)
    if follow:
        ok = c.And(ok, c.Or(status[1] == 200, status[1] == 206))
    ok = c.And(ok, (second if follow else first) == 'good')
    c.check(c.Iff(ex is None, ok), 'services are found exactly in a document that is available')
    if ex is None:
        c.check(r[0] == 'http://page/', 'the page is known by its final address')
        c.check(len(r[1]) == 1 and r[1][0].uri == 'http://s/' and r[1][0].yadis_url == 'http://page/', 'services are the stated ones')


HARNESSES = {
    'apply': dict(fn=h_apply, quick=[dict(k=3, depth=0, types=['t', 'u'], services=1, uris=2, tops=1), dict(k=2, depth=1, types=['t'], services=2, uris=1, prio=1, nested=2, tops=1), dict(k=1, depth=1, types=['t', 'u'], services=1, uris=1, junk=1, nested=2), dict(k=2, depth=0, types=['t'], services=2, uris=1, many=1, junk=1), dict(k=3, depth=0, types=['t', 'u'], services=1, uris=1, tops=1, free=1, n=2, chars='graph'), dict(k=2, depth=1, nested=1, types=['t'], services=1, uris=2, falsy=1, plain=['function', 'callable maker'])],
                  thorough=[dict(k=2, depth=2, types=['t'], services=1, uris=1, nested=2), dict(k=3, depth=1, types=['t'], services=1, uris=2, nested=2)],
                  bounds='filters of up to 3 parts, nested once (twice), over documents of up to 2 services with up to 2 types and addresses'),
    'basic': dict(fn=h_basic, quick=[dict(services=2, n=1, chars='a-z'), dict(services=1, n=3, chars='graph')], thorough=[dict(services=2, n=2, chars='graph')], bounds='up to 2 services with up to 2 types of up to 3 characters'),
    'get': dict(fn=h_get, quick=[{}], bounds='every status of both answers, six kinds of documents'),
}
