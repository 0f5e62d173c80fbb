"""P13: a nonce is accepted at most once and never outside its window."""
from checks import fakesql, p15, sched, stores


def server(c, name):
    k = c.pick(name + 'k', 2)
    return '' if k else 'http://' + c.str(name, 1, 'ab') + '/'


def h_history(c):
    N = c.mod('openid.store.nonce')
    p = c.params
    s = stores.make(c, p['store'])
    used = []
    now = None
    for i, op in enumerate(p['ops']):
        t = c.int('now%d' % i, 1200000000, 1300000000) if not p.get('frac') else c.dec('now%d' % i, 12000000000, 13000000000, 1)
        if now is not None:
            c.assume(t >= now)
        now = t
        c.set_now(now)
        if op == 'u':
            srv = server(c, 'srv%d' % i) if p.get('servers') else 'http://a/'
            ts = c.int('ts%d' % i, 1200000000, 1300000000)
            salt = c.text('salt%d' % i, p.get('salt', 1), p.get('saltmin', 1), p.get('chars', 'abc'))
            inside = c.And(ts - now <= N.SKEW, now - ts <= N.SKEW)
            before = c.Or([c.And(c.eq(a, srv), b == ts, c.eq(d, salt)) for a, b, d, ok in used if ok])
            r, ex = c.attempt(s.useNonce, srv, ts, salt)
            c.check(ex is None, 'using a nonce never raises')
            ok = bool(r)
            if ok:
                c.check(inside, 'a nonce outside the window is never accepted')
                c.check(c.Not(before), 'a nonce is accepted at most once')
            else:
                c.check(c.Or(c.Not(inside), before), 'a first use inside the window is accepted')
            used.append((srv, ts, salt, ok))
        else:
            r, ex = c.attempt(s.cleanupNonces)
            c.check(ex is None, 'cleaning up never raises')
            if p['store'] in ('mem', 'sqlite', 'file'):
                c.check(c.And(r >= 0, r <= len([u for u in used if u[3]])), 'clean-up reports how many it removed')


def h_window(c):
    """All stores agree on the exact window."""
    N = c.mod('openid.store.nonce')
    s = stores.make(c, c.params['store'])
    now = c.int('now', 10 ** 9, 4 * 10 ** 9) if not c.maybe('frac') else c.dec('now10', 10 ** 10, 4 * 10 ** 10, 1)
    ts = c.int('ts', 0, 4294967295)
    c.set_now(now)
    r, ex = c.attempt(s.useNonce, 'http://a/', ts, 'x')
    c.check(ex is None, 'using a nonce never raises')
    c.check(c.Iff(r, c.And(ts - now <= N.SKEW, now - ts <= N.SKEW)), 'accepted exactly when the time differs by at most the skew')


def h_names(c):
    """Servers and salts of any text never block each other."""
    s = stores.make(c, c.params['store'])
    c.set_now(1200000000)
    p = c.params

    def srv(n):
        return p['pre'] + c.text(n, p['n'], 0, p.get('chars')) + p['post']
    a, b = srv('a'), srv('b')
    x, y = c.text('x', p['s'], 0, p.get('salts')), c.text('y', p['s'], 0, p.get('salts'))
    r1, ex1 = c.attempt(s.useNonce, a, 1200000000, x)
    r2, ex2 = c.attempt(s.useNonce, b, 1200000000, y)
    c.check(ex1 is None and ex2 is None, 'using a nonce never raises')
    c.check(r1, 'a first use is accepted')
    c.check(c.Iff(r2, c.Not(c.And(c.eq(a, b), c.eq(x, y)))), 'nonces that differ never block each other, equal ones always do')


def h_race(c):
    """Two processes use nonces of one database at the same time."""
    p = c.params
    db = fakesql.database(c)
    c.set_now(p15.NOW)
    Q = c.mod('openid.store.sqlstore')
    ss = [Q.SQLiteStore(db.connect()) for _ in range(p['n'])]
    ss[0].createTables()
    salts = ['s' + c.str('salt%d' % i, 1, 'ab') for i in range(p['n'])]
    if p.get('used'):
        ss[0].useNonce(p15.SRV, p15.NOW, salts[0])
    fns = [(lambda s=s, x=x: c.attempt(s.useNonce, p15.SRV, p15.NOW, x)) for s, x in zip(ss, salts)]
    if p.get('cleanup'):
        t = Q.SQLiteStore(db.connect())
        fns.append(lambda: c.attempt(t.cleanupNonces))
    res = sched.run(c, db, fns)
    c.check(all(r[1] is None for r in res), 'concurrent use never raises')
    ok = [bool(r[0]) for r in res[:p['n']]]
    for i in range(p['n']):
        same = [j for j in range(p['n']) if j != i and c.eq(salts[j], salts[i])]
        if p.get('used') and c.eq(salts[i], salts[0]):
            c.check(not ok[i], 'a used nonce is never fresh')
        elif ok[i]:
            c.check(not any(ok[j] for j in same), 'a nonce is accepted at most once, also by concurrent processes')
        else:
            c.check(any(ok[j] for j in same), 'a first use inside the window is accepted')


SQL = ['sqlite', 'mysql', 'postgres']
Q = [dict(store=s, ops=o, servers=1) for s in ('mem', 'file', 'sqlite') for o in ('uu',)] + \
    [dict(store=s, ops=o) for s in ('mem', 'file', 'sqlite') for o in ('ucu', 'uucu')] + [dict(store=s, ops='ucu', servers=1) for s in SQL[1:]] + \
    [dict(store=s, ops=o, frac=1) for s in ('mem', 'file', 'sqlite') for o in ('uu', 'ucu')]
HARNESSES = {
    'race': dict(fn=h_race, quick=[dict(n=2), dict(n=2, used=1), dict(n=2, cleanup=1)], thorough=[dict(n=3), dict(n=3, used=1), dict(n=3, cleanup=1)],
                 bounds='all interleavings, at SQL statements outside write transactions, of 2/3 uses of an SQLite database and a clean-up'),
    'file_race': dict(fn=p15.h_nonce_race, quick=[dict(n=2), dict(n=2, used=1), dict(n=2, cleanup=1, preempt=2)], thorough=[dict(n=3), dict(n=3, used=1)],
                      bounds='every interleaving, at file-system steps, of 2/3 concurrent uses of a file store'),
    'history': dict(fn=h_history, quick=Q, thorough=Q + [dict(store=s, ops=o, servers=1) for s in ('mem', 'file') + tuple(SQL) for o in ('uuu', 'ucuc', 'uucu', 'ucucu')],
                    bounds='histories of up to 4/5 uses and clean-ups; clocks (also fractions of seconds), timestamps, servers and one-character salts symbolic; clock never runs backwards'),
    'window': dict(fn=h_window, quick=[dict(store=s) for s in ('mem', 'file') + tuple(SQL)], bounds='all clocks and 32-bit timestamps'),
    'names': dict(fn=h_names, quick=[dict(store='mem', pre='http://', n=2, post='/', s=2), dict(store='sqlite', pre='http://', n=2, post='/', s=2, chars='ascii', salts='ascii'),
                                     dict(store='sqlite', pre='', n=1, post='', s=1), dict(store='file', pre='http://', n=1, post='/', s=1, chars='ascii', salts='ascii'),
                                     dict(store='file', pre='', n=1, post='', s=1, salts='ascii'), dict(store='file', pre='', n=2, post='://x', s=0, chars='a-c./-')],
                  thorough=[dict(store='mem', pre='http://', n=3, post='/', s=3), dict(store='sqlite', pre='http://', n=2, post='/', s=2), dict(store='file', pre='http://', n=2, post='/', s=1, salts='ascii'),
                            dict(store='file', pre='', n=1, post='', s=1), dict(store='file', pre='', n=2, post='://x', s=1, chars='a-c./-')],
                  bounds='server URLs with up to 2 symbolic characters and salts up to 2 characters (ASCII; all Unicode for the memory store and in the thorough tier)'),
}
