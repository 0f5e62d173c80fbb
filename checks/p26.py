"""P26: discovered services are tried in priority order, each at most once."""
from lxml import etree

from checks import fakes, rp

KEY = '_yadis_services_'


class Session(object):
    """A session that, like a real one, keeps serialised copies of its values."""

    def __init__(self):
        self.data = {}

    def _copy(self, v):
        d = getattr(v, '__dict__', None)
        if d is None:
            return v
        w = type(v).__new__(type(v))
        for k, x in d.items():
            w.__dict__[k] = list(x) if isinstance(x, list) else x
        return w

    def get(self, k, default=None):
        return self._copy(self.data[k]) if k in self.data else default

    def __getitem__(self, k):
        return self._copy(self.data[k])

    def __setitem__(self, k, v):
        self.data[k] = self._copy(v)

    def __delitem__(self, k):
        del self.data[k]

    def __contains__(self, k):
        return k in self.data

    def pop(self, k, *d):
        return self.data.pop(k, *d)

    def setdefault(self, k, v):
        if k not in self.data:
            self.data[k] = self._copy(v)
        return self[k]


def prio(text):
    """Value of a priority attribute, None when there is no usable one."""
    if text is None:
        return None
    try:
        v = int(text)
    except ValueError:
        return None
    return v if v >= 0 else None


def priority(c, name):
    p = c.params
    k = c.choice(name + '.kind', p.get('kinds', ('none', 'text')))
    if k == 'none':
        return None
    return p.get('pre', '') + c.text(name, p.get('n', 2), p.get('lo', 1), p.get('chars', '0123456789'))


def ordered(c, out, given, what):
    """out is a reordering of given by ascending priority; given: [(item, text)]"""
    c.check(len(out) == len(given), what + ': nothing is lost or duplicated')
    left = list(given)
    last = 0
    for x in out:
        hit = [g for g in left if g[0] is x]
        c.check(len(hit) == 1, what + ': nothing is lost or duplicated')
        left.remove(hit[0])
        v = prio(hit[0][1])
        if last is None:
            c.check(v is None, what + ': entries without priority come last')
        elif v is not None:
            c.check(last <= v, what + ': ascending priority')
        last = v


def h_sort(c):
    """Services of a document, and the services of the right descriptor."""
    p = c.params
    X = c.mod('openid.yadis.etxrd')
    root = fakes.xrds()
    if p.get('two'):
        other = fakes.el(root, 'XRD')
        fakes.service(other, ['u'], ['http://other/'], priority='0')
    xrd = fakes.el(root, 'XRD')
    given = []
    for k in range(p['k']):
        t = priority(c, 'p%d' % k)
        given.append((fakes.service(xrd, ['t%d' % k], ['http://%d/' % k], priority=t), t))
    out = X.iterServices(etree.ElementTree(root))
    ordered(c, out, given, 'services')


def h_uris(c):
    """Addresses of one service."""
    p = c.params
    X = c.mod('openid.yadis.etxrd')
    xrd = fakes.el(fakes.xrds(), 'XRD')
    uris = []
    for k in range(p['k']):
        uris.append(('http://%d/' % (k % p.get('texts', 99)), priority(c, 'p%d' % k)))
    s = fakes.service(xrd, ['t0', 't1'], uris, priority='5')
    out = X.sortedURIs(s)
    given = [(u, t) for u, t in uris]
    c.check(sorted(out) == sorted(u for u, t in given), 'addresses: nothing is lost or duplicated')
    got = []
    for o in out:
        # of several entries with one address the best one comes first
        here = [g for g in given if g[0] == o and not any(g is x for x in got)]
        best = here[0]
        for g in here[1:]:
            v, w = prio(g[1]), prio(best[1])
            if v is not None and (w is None or v < w):
                best = g
        got.append(best)
    last = 0
    for u, t in got:
        v = prio(t)
        if last is None:
            c.check(v is None, 'addresses: entries without priority come last')
        elif v is not None:
            c.check(last <= v, 'addresses: ascending priority')
        last = v


def h_expand(c):
    """Every (service, address) pair appears once, services first by service priority."""
    p = c.params
    X = c.mod('openid.yadis.etxrd')
    root = fakes.xrds()
    xrd = fakes.el(root, 'XRD')
    given, uris, types = [], {}, {}
    for k in range(2):
        t = priority(c, 's%d' % k)
        us = [('http://%d/%d' % (k, j), priority(c, 'u%d%d' % (k, j))) for j in range(c.pick('n%d' % k, 3))]
        ts = ['t%d%d' % (k, j) for j in range(c.pick('m%d' % k, p.get('types', 2) + 1))]
        s = fakes.service(xrd, ts, us, priority=t)
        given.append((s, t))
        uris[k], types[k] = us, ts
    out = X.expandServices(X.iterServices(etree.ElementTree(root)))
    seen = []
    for ts, u, s in out:
        k = [i for i in (0, 1) if given[i][0] is s]
        c.check(len(k) == 1, 'every entry belongs to a service of the document')
        c.check(list(ts) == types[k[0]], 'every entry has all types of its service')
        if not seen or seen[-1][0] != k[0]:
            c.check(all(x[0] != k[0] for x in seen), 'the addresses of one service stay together')
            seen.append((k[0], []))
        seen[-1][1].append(u)
    ordered(c, [given[k][0] for k, us in seen], given, 'services')
    for k, us in seen:
        if uris[k]:
            g = [(u, t) for u, t in uris[k]]
            c.check(sorted(us) == sorted(u for u, t in g), 'addresses: nothing is lost or duplicated')
            ordered(c, [x[0] for o in us for x in g if x[0] == o], g, 'addresses')
        else:
            c.check(us == [None], 'a service without address is listed once')


class Model(object):
    """What the session should remember."""

    def __init__(self):
        self.start = self.yadis = self.left = self.current = None
        self.there = False

    def mine(self, url):
        return self.there and url in (self.start, self.yadis)


def h_history(c):
    """All histories of asking for services and cleaning up, with discovery outcomes."""
    p = c.params
    M = c.mod('openid.yadis.manager')
    session = Session() if p.get('copies', 1) else {}
    if p.get('other'):
        session[KEY + 'x'] = 'other'
    m = Model()
    asked = []
    urls = p['urls']
    count = [0]
    suffix = p.get('suffix')
    for step in range(p['steps']):
        url = c.choice('url%d' % step, urls)
        op = c.choice('op%d' % step, p.get('ops', ('next', 'next', 'cleanup', 'force'))[1:])
        d = M.Discovery(session, url, suffix) if suffix is not None else M.Discovery(session, url)
        if op == 'next':
            found = []

            def discover(u):
                asked.append(u)
                n = c.pick('found%d' % step, p['found'] + 1)
                for i in range(n):
                    count[0] += not p.get('equal')
                    found.append('service%d' % count[0])
                y = urls[0] if p.get('redirect') else u
                return y, (tuple(found) if p.get('tuple') else list(found))
            del asked[:]
            r, ex = c.attempt(d.getNextService, discover)
            c.check(ex is None, 'asking for the next service never fails')
            again = not (m.mine(url) and m.left)
            c.check(asked == ([url] if again else []), 'discovery is repeated only when none are left or another identifier is used')
            if again:
                if m.mine(url):
                    m.there = False
                if found:
                    m.there, m.start, m.yadis = True, url, (urls[0] if p.get('redirect') else url)
                    m.left = list(found)
            if again and not found:
                c.check(r is None, 'no service when discovery finds none')
            else:
                c.check(r == m.left[0], 'services are handed out in order, each once')
                m.current = m.left.pop(0)
        elif op == 'create':
            # the application already knows the services
            n = c.pick('made%d' % step, 2) + 1
            made = ['made%d.%d' % (step, i) for i in range(n)]
            r, ex = c.attempt(d.createManager, list(made), url)
            busy = m.mine(url) and bool(m.left)
            c.check((ex is not None) == busy, 'exactly while services are left none can be put in their place')
            c.check(ex is None or isinstance(ex, KeyError), 'refused with a key error')
            if not busy:
                m.there, m.start, m.yadis, m.left, m.current = True, url, url, made, None
        else:
            force = op == 'force'
            r, ex = c.attempt(d.cleanup, force)
            c.check(ex is None, 'cleaning up never fails')
            if m.there and (force or m.mine(url)):
                c.check(r == m.current, 'cleaning up returns the current service')
                m.there = False
            else:
                c.check(r is None, 'cleaning up another identifier returns nothing')
        c.check((d.getSessionKey() in session) == m.there, 'the session entry exists exactly while services are remembered')
        if p.get('other'):
            c.check(session.get(KEY + 'x') == 'other', 'other session entries stay')


def h_manager(c):
    """The manager itself: iteration, length, current service."""
    M = c.mod('openid.yadis.manager')
    n = c.pick('n', 4)
    src = ['s%d' % i for i in range(n)]
    m = M.YadisServiceManager('http://a/', 'http://b/', src, 'k')
    c.check(not m.started() and m.current() is None and len(m) == n, 'nothing is handed out at first')
    how = c.choice('how', ('for', 'next', 'method'))
    got = []
    if how == 'for':
        _, ex = c.attempt(lambda: [got.append(x) for x in m])
        c.check(ex is None, 'the services can be iterated over')
    else:
        while True:
            x, ex = c.attempt(next, m) if how == 'next' else c.attempt(m.next)
            if ex is not None:
                c.check(isinstance(ex, StopIteration), 'the services can be iterated over')
                break
            got.append(x)
            c.check(m.current() == x and m.started() and len(m) == n - len(got), 'the current service is the last one handed out')
    c.check(got == ['s%d' % i for i in range(n)], 'services are handed out in order, each once')
    c.check(src == got, 'the list given by the application is left alone')


def h_url(c):
    """The remembered services belong to the two addresses of their discovery only."""
    p = c.params
    M = c.mod('openid.yadis.manager')
    session = Session()
    a, b, u = (p.get('pre', 'http://') + c.text(n, p['n'], 0, p.get('chars')) for n in ('start', 'yadis', 'url'))
    d = M.Discovery(session, a)
    calls = []
    c.check(d.getNextService(lambda x: (calls.append(x), (b, ['one', 'two']))[1]) == 'one', 'the first service comes first')
    r = M.Discovery(session, u).getNextService(lambda x: (calls.append(x), (u, ['three']))[1])
    same = c.Or(c.eq(u, a), c.eq(u, b))
    c.check(c.Iff(r == 'two', same), 'another identifier is discovered anew')
    c.check(c.Implies(c.Not(same), r == 'three'), 'another identifier is discovered anew')
    c.check(c.eq(calls[-1], u) if len(calls) == 2 else c.eq(calls[0], a), 'the identifier given is the one discovered')


def h_suffix(c):
    """Two uses of one session under suffixes that differ do not meet."""
    M = c.mod('openid.yadis.manager')
    session = Session()
    def new(name):
        k = c.choice(name + '.kind', ['none', 'empty', 'auth', 'text'])
        x = {'none': None, 'empty': '', 'auth': 'auth'}[k] if k != 'text' else c.text(name, 2, 1, 'print')
        return (M.Discovery(session, 'http://a/') if x is None else M.Discovery(session, 'http://a/', x)), 'auth' if x is None else x
    one, x = new('one')
    two, y = new('two')
    same = c.eq(x, y)
    c.check(c.Iff(c.eq(one.getSessionKey(), two.getSessionKey()), same), 'sessions keys are the same exactly if the suffixes are')
    asked = []
    def disco(u):
        asked.append(u)
        return u, ['s%d' % len(asked), 't%d' % len(asked)]
    c.check(one.getNextService(disco) == 's1', 'the first service comes first')
    r = two.getNextService(disco)
    if same:
        c.check(r == 't1', 'the same suffix goes on')
        return
    c.check(r == 's2', 'another suffix begins anew')
    force = c.maybe('force')
    c.check(two.cleanup(force) == 's2', 'cleaning up gives the last service of this use')
    c.check(one.getNextService(disco) == 't1' and len(asked) == 2, 'the other use goes on')


def h_begin(c):
    """Consumer.begin offers each service once, in order, then discovers again."""
    p = c.params
    C = c.mod('openid.consumer.consumer')
    S = c.mod('openid.store.memstore')
    c.set_now(rp.NOW)
    session = Session()
    eps = [rp.endpoint(c, 2, op='http://op%d/' % i) for i in range(p['k'])]
    asked = []
    kind = []

    def disco(url):
        asked.append(url)
        k = c.choice('disco%d' % len(asked), ('found', 'none', 'fails'))
        kind.append(k)
        if k == 'fails':
            raise c.mod('openid.fetchers').HTTPFetchingError('down')
        return url, (list(eps) if k == 'found' else [])
    fakes.install(c, lambda u, b, h: fakes.Response(u, 500, {}, b''))
    left = []
    for step in range(p['steps']):
        con = C.Consumer(session, None)
        con._discover = disco
        n = len(asked)
        r, ex = c.attempt(con.begin, rp.ID)
        c.check(len(asked) - n == (0 if left else 1), 'discovery is repeated only when none are left')
        if not left:
            if kind[-1] != 'found':
                c.check(isinstance(ex, C.DiscoveryFailure), 'no service is a discovery failure')
                continue
            left = list(eps)
        c.check(ex is None, 'a service is offered')
        c.check(r.endpoint.server_url == left.pop(0).server_url, 'services are offered in order, each once')
        c.check(session['_openid_consumer_last_token'].server_url == r.endpoint.server_url, 'the pending login is the offered service')
        if c.maybe('cancel%d' % step):
            q = {'openid.ns': rp.NS2, 'openid.mode': 'cancel'}
            con.complete(q, rp.RT)
            left = []


TWO = ['http://a/', 'http://b/']
HARNESSES = {
    'sort': dict(fn=h_sort,
                 quick=[dict(k=3, n=1, two=1), dict(k=2), dict(k=2, n=2, lo=0, chars='-+ 019ax'), dict(k=2, n=1, lo=0, kinds=['text'], chars='print'), dict(k=0), dict(k=1), dict(k=2, n=7, lo=7), dict(k=2, pre='429496729', n=1), dict(k=2, pre='9', n=19, lo=19)],
                 thorough=[dict(k=4), dict(k=3, n=2, lo=0, chars='-019a'), dict(k=2, n=4)],
                 bounds='up to 3 (thorough 4) services, priorities of up to 2-3 characters or absent, every shuffle outcome'),
    'uris': dict(fn=h_uris, quick=[dict(k=3), dict(k=2, n=2, lo=0, chars='-019a'), dict(k=3, n=1, texts=2), dict(k=2, n=6, lo=6, texts=1)], thorough=[dict(k=4, n=1)], bounds='up to 3 (4) addresses'),
    'expand': dict(fn=h_expand, quick=[dict(n=1, types=1)], thorough=[dict(n=2, types=2)], bounds='two services of up to two addresses and types'),
    'history': dict(fn=h_history,
                    quick=[dict(urls=TWO, steps=4, found=2), dict(urls=TWO, steps=4, found=2, redirect=1, tuple=1), dict(urls=TWO, steps=4, found=2, copies=0, other=1), dict(urls=TWO[:1], steps=5, found=3, ops=['', 'next', 'cleanup'], suffix='s'), dict(urls=TWO[:1], steps=4, found=3, equal=1, ops=['', 'next', 'cleanup']), dict(urls=TWO, steps=3, found=1, ops=['', 'next', 'cleanup', 'force', 'create']), dict(urls=['http://a/', ''], steps=3, found=2)],
                    thorough=[dict(urls=TWO, steps=5, found=3), dict(urls=TWO + ['http://c/'], steps=4, found=2), dict(urls=TWO, steps=6, found=2, redirect=1, ops=['', 'next', 'cleanup'])],
                    bounds='every history of 4-5 (6) steps over two (three) identifiers with every discovery outcome of up to 2 (3) services'),
    'manager': dict(fn=h_manager, quick=[{}], bounds='up to 3 services'),
    'url': dict(fn=h_url, quick=[dict(n=2), dict(pre='', n=2)], thorough=[dict(n=5), dict(pre='', n=5)], bounds='identifiers with up to 2 (5) free characters over Unicode'),
    'suffix': dict(fn=h_suffix, quick=[{}], bounds='two suffixes: default, empty, auth, or up to 2 printable characters'),
    'begin': dict(fn=h_begin, quick=[dict(k=2, steps=4)], thorough=[dict(k=3, steps=5)], bounds='two (three) services, 4 (5) login attempts, every discovery outcome, cancelled or not'),
}
