"""P14: stores return exactly the live association that was stored."""
from checks import stores

TYPES = ['HMAC-SHA1', 'HMAC-SHA256']


def same(c, a, b):
    return c.And(c.eq(a.handle, b.handle), c.eq(a.secret, b.secret), c.eq(a.issued, b.issued), c.eq(a.lifetime, b.lifetime),
                 c.eq(a.assoc_type, b.assoc_type))


def live(c, a, now):
    return a.issued + a.lifetime > now


def h_history(c):
    A = c.mod('openid.association')
    p = c.params
    s = stores.make(c, p['store'])
    recs = []           # [server, association, present]
    now = None
    sv = p.get('servers', 'ab')

    def server(i):
        return 'http://' + c.str('srv%d' % i, 1, sv) + '/' if len(sv) > 1 else 'http://' + sv + '/'

    def hd(i):
        return 'h' + c.str('hdl%d' % i, 1, p.get('handles', 'ab'))
    for i, op in enumerate(p['ops']):
        t = c.int('now%d' % i, 1200000000, 1300000000) if not p.get('frac') else c.dec('now%d' % i, 12000000000, 13000000000, 1)
        if now is not None:
            c.assume(t >= now)
        now = t
        c.set_now(now)
        if op == 's':
            srv, h = server(i), hd(i)
            a = A.Association(h, (b'secret%d' % i) * 3, c.int('issued%d' % i, 1100000000, 1300000000), c.int('life%d' % i, p.get('minlife', 1000), 9999999 if p['store'] != 'file' else 9999), TYPES[i % 2])
            r, ex = c.attempt(s.storeAssociation, srv, a)
            c.check(ex is None, 'storing never raises')
            for x in recs:
                if x[2] and c.eq(x[0], srv) and c.eq(x[1].handle, h):
                    x[2] = False
            keep = A.Association(h, a.secret, a.issued, a.lifetime, a.assoc_type)
            recs.append([srv, keep, True])
        elif op == 'g':
            srv, h = server(i), hd(i)
            r, ex = c.attempt(s.getAssociation, srv, h)
            c.check(ex is None, 'fetching never raises')
            found = None
            for x in recs:
                if x[2] and c.eq(x[0], srv) and c.eq(x[1].handle, h):
                    found = x
            if found is None:
                c.check(r is None, 'an association is never returned for another server or handle')
            elif r is None:
                c.check(c.Not(live(c, found[1], now)), 'a stored association that has not expired is returned')
                found[2] = None     # may be dropped
            else:
                # known finding: the memory store returns expired associations by handle
                c.check(c.Or(live(c, found[1], now), p['store'] == 'mem'), 'an expired association is never returned')
                c.check(same(c, r, found[1]), 'the association returned is the one stored')
        elif op == 'G':
            srv = server(i)
            r, ex = c.attempt(s.getAssociation, srv)
            c.check(ex is None, 'fetching never raises')
            cand = [x[1] for x in recs if x[2] and c.eq(x[0], srv)]
            if r is None:
                c.check(c.And([c.Not(live(c, a, now)) for a in cand]), 'an unexpired association is found without handle')
            else:
                c.check(c.Or([c.And(same(c, r, a), live(c, a, now)) for a in cand]), 'the association returned is a live one stored for the server')
                c.check(c.And([c.Or(c.Not(live(c, a, now)), a.issued <= r.issued) for a in cand]), 'the most recently issued association is returned')
        elif op == 'r':
            srv, h = server(i), hd(i)
            r, ex = c.attempt(s.removeAssociation, srv, h)
            c.check(ex is None, 'removing never raises')
            found = None
            for x in recs:
                if x[2] and c.eq(x[0], srv) and c.eq(x[1].handle, h):
                    found = x
            if found is None:
                if not [x for x in recs if x[2] is None]:
                    c.check(c.Not(r), 'removing nothing reports nothing')
            else:
                c.check(c.Or(r, c.Not(live(c, found[1], now))), 'removing an association reports it')
                found[2] = False
        elif op == 'c':
            r, ex = c.attempt(s.cleanupAssociations)
            c.check(ex is None, 'cleaning up never raises')
            dead = 0
            for x in recs:
                if x[2]:
                    dead = dead + c.ite(live(c, x[1], now), 0, 1)
            c.check(r <= dead, 'clean-up removes expired associations only')


def h_names(c):
    """Servers and handles of any text never mix."""
    A = c.mod('openid.association')
    p = c.params
    s = stores.make(c, p['store'])
    c.set_now(1200000000)
    a, b = p['pre'] + c.text('a', p['n'], 0, p.get('chars')) + p['post'], p['pre'] + c.text('b', p['n'], 0, p.get('chars')) + p['post']
    x, y = c.text('x', p['s'], 0, p.get('handles', 'graph')), c.text('y', p['s'], 0, p.get('handles', 'graph'))
    s.storeAssociation(a, A.Association(x, b's' * 20, 1200000000, 100, 'HMAC-SHA1'))
    r, ex = c.attempt(s.getAssociation, b, y)
    c.check(ex is None, 'fetching never raises')
    c.check(c.Iff(r is not None, c.And(c.eq(a, b), c.eq(x, y))), 'an association is found for exactly its server and handle')
    r, ex = c.attempt(s.getAssociation, b)
    c.check(ex is None, 'fetching never raises')
    c.check(c.Iff(r is not None, c.eq(a, b)), 'an association is found for exactly its server')
    if r is not None:
        c.check(c.eq(r.handle, x), 'the handle is the one stored')


SQL = ['sqlite', 'mysql', 'postgres']
ALL = ['mem', 'file'] + SQL
O3 = ['sg', 'sG', 'ssg', 'ssG', 'srg', 'scg', 'scG']
QH = [dict(store=s, ops=o) for s in ('mem', 'file', 'sqlite') for o in O3] + [dict(store=s, ops=o) for s in ('mysql', 'postgres') for o in ('ssg', 'ssG', 'scg', 'srg')] + \
     [dict(store=s, ops=o, servers='a') for s in ('mem', 'sqlite') for o in ('sssG', 'sscG', 'ssrG', 'sgG', 'ssgG')] + [dict(store='file', ops=o, servers='a') for o in ('sscG', 'ssrG')]
QH += [dict(store=s, ops=o, frac=1, servers='a', handles='a') for s in ('mem', 'file', 'sqlite') for o in ('sg', 'sG', 'scg')]
HARNESSES = {
    'history': dict(fn=h_history, quick=QH, thorough=QH + [dict(store=s, ops=o) for s in ALL for o in ('sssG', 'sscG', 'ssrG', 'ssgG', 'srsg', 'sscg', 'sGcg', 'srrG')],
                    bounds='histories of up to 4 operations over two servers and two handles; issue times, lifetimes and clocks (also fractions of seconds) symbolic; the clock never runs backwards'),
    'names': dict(fn=h_names, quick=[dict(store='mem', pre='', n=2, post='', s=2), dict(store='sqlite', pre='', n=1, post='', s=1, handles=None), dict(store='sqlite', pre='', n=2, post='', s=1, chars='ascii'),
                                     dict(store='file', pre='http://', n=1, post='/', s=1, chars='ascii'), dict(store='file', pre='http://a', n=1, post='', s=1, chars='print'), dict(store='file', pre='', n=2, post='://x', s=1, chars='a-c./-', handles='ab')],
                  thorough=[dict(store='mem', pre='', n=3, post='', s=3), dict(store='sqlite', pre='', n=2, post='', s=2), dict(store='file', pre='http://', n=2, post='/', s=1, chars='ascii'), dict(store='file', pre='http://', n=1, post='/', s=2)],
                  bounds='server URLs with up to 2 symbolic characters, handles up to 2 printable characters'),
}
