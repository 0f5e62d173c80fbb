"""P15: the file store is crash-atomic, race-safe and stays in its directory."""
import errno
from checks import fakefs, sched

NOW = 1200000000
SRV = 'http://a/'
TYPES = ['HMAC-SHA1', 'HMAC-SHA256']


def store(c, fs):
    return c.mod('openid.store.filestore').FileOpenIDStore(fs.root)


def assoc(c, h, name, i):
    A = c.mod('openid.association')
    return A.Association(h, c.bytes(name, [20, 32][i]), NOW - 10 + i, 1000, TYPES[i])


def same(c, a, b):
    return c.And(c.eq(a.handle, b.handle), c.eq(a.secret, b.secret), c.eq(a.issued, b.issued), c.eq(a.lifetime, b.lifetime), c.eq(a.assoc_type, b.assoc_type))


class Crasher(object):
    """Stops the process at a chosen step, once; later steps do nothing."""

    def __init__(self, c):
        self.c, self.n, self.crashed = c, 0, False

    def __call__(self, what, size=None):
        if self.crashed:
            if self.c.params.get('fault'):
                return None
            raise fakefs.Crash()
        self.n += 1
        if self.c.params.get('fault'):
            if self.c.maybe('fault%d' % self.n):
                self.crashed = True
                raise OSError(errno.ENOSPC if what == 'write' else errno.EIO, 'fault')
            return None
        if self.c.maybe('crash%d' % self.n):
            self.crashed = True
            if what == 'write':
                part = self.c.params.get('parts') or size + 1
                k = self.c.pick('part%d' % self.n, part)
                return size * k // (part - 1)
            raise fakefs.Crash()
        return None


def h_crash(c):
    p = c.params
    fs = fakefs.make(c)
    c.set_now(NOW)
    s = store(c, fs)
    h = 'h' + c.str('h', 1, 'ab')
    old = None
    if p['old']:
        old = assoc(c, h, 'old', 0)
        s.storeAssociation(SRV, old)
        s.useNonce(SRV, NOW, 'n0')
    other = assoc(c, 'zz', 'other', 1)
    other.issued, other.lifetime = NOW - 100, 100000
    s.storeAssociation(SRV, other)
    new = assoc(c, h, 'new', 1)
    crash = fs.hook = Crasher(c)
    done = False
    removed = False
    try:
        if p['op'] == 'store':
            s.storeAssociation(SRV, new)
        elif p['op'] == 'remove':
            removed = True
            s.removeAssociation(SRV, h)
        elif p['op'] == 'nonce':
            s.useNonce(SRV, NOW, 'n1')
        elif p['op'] == 'cleanup':
            removed = True
            c.set_now(NOW + 990 + 5)
            s.cleanup()
        elif p['op'] == 'setup':
            store(c, fs)
        done = not crash.crashed
    except fakefs.Crash:
        pass
    except OSError:
        c.check(crash.crashed, 'no error without fault')
    fs.hook = None
    if p.get('power'):
        fs.power_loss(lambda n: n * c.pick('keep%d' % c._cnt(), 3) // 2)
    c.set_now(NOW)
    t, ex = c.attempt(store, c, fs)
    c.check(ex is None, 'a store can be opened after the crash')
    r, ex = c.attempt(t.getAssociation, SRV, h)
    c.check(ex is None, 'reading after a crash never raises')
    wrote = p['op'] == 'store'
    if r is None:
        c.check(old is None or removed, 'the old or the new association is found')
        c.check(not (wrote and done), 'an association stored completely is found')
    else:
        c.check(c.Or(old is not None and not (wrote and done) and same(c, r, old), wrote and same(c, r, new)), 'the complete old or the complete new association is found')
    r2, ex = c.attempt(t.getAssociation, SRV)
    c.check(ex is None, 'reading without a handle after a crash never raises')
    c.check(r2 is not None, 'the association of the other handle stays')
    if r2 is not None:
        c.check(c.Or(same(c, r2, other), r is not None and same(c, r2, r)), 'the latest association of the server is found')
    for f, a in ((t.cleanupAssociations, ()), (t.cleanupNonces, ()), (t.storeAssociation, (SRV, new)), (t.useNonce, (SRV, NOW, 'n2'))):
        v, ex = c.attempt(f, *a)
        c.check(ex is None, 'the store works after a crash')
    r, ex = c.attempt(t.getAssociation, SRV, h)
    c.check(r is not None and same(c, r, new), 'storing again after a crash works')
    if p['old']:
        v, ex = c.attempt(t.useNonce, SRV, NOW, 'n0')
        c.check(c.Not(v), 'a used nonce stays used')
    if p['op'] == 'nonce' and done:
        v, ex = c.attempt(t.useNonce, SRV, NOW, 'n1')
        c.check(c.Not(v), 'a nonce used completely stays used')


def h_nonce_race(c):
    """Concurrent uses: exactly one fresh per distinct nonce."""
    p = c.params
    fs = fakefs.make(c)
    c.set_now(NOW)
    stores = [store(c, fs) for _ in range(p['n'])]
    salts = ['s' + (c.str('salt%d' % i, 1, 'ab') if p.get('salts', 1) else 'a') for i in range(p['n'])]
    if p.get('used'):
        stores[0].useNonce(SRV, NOW, salts[0])
    fns = [(lambda s=s, x=x: c.attempt(s.useNonce, SRV, NOW, x)) for s, x in zip(stores, salts)]
    if p.get('cleanup'):
        fns.append(lambda: c.attempt(store(c, fs).cleanupNonces))
    res = sched.run(c, fs, fns, preempt=p.get('preempt'))
    c.check(all(r[1] is None for r in res), 'concurrent use never raises')
    ok = [bool(r[0]) for r in res[:p['n']]]
    for i in range(p['n']):
        same = [j for j in range(p['n']) if j != i and c.eq(salts[j], salts[i])]
        used = p.get('used') and c.eq(salts[i], salts[0])
        if used:
            c.check(not ok[i], 'a used nonce is never fresh')
        elif ok[i]:
            c.check(not any(ok[j] for j in same), 'exactly one use is told that the nonce was fresh')
        else:
            c.check(any(ok[j] for j in same), 'one of the uses is told that the nonce was fresh')


def h_read_race(c):
    """A reader concurrent with a writer finds the old or the new record."""
    p = c.params
    fs = fakefs.make(c)
    c.set_now(NOW)
    s, t = store(c, fs), store(c, fs)
    h = 'h'
    old = new = None
    if p['old']:
        old = assoc(c, h, 'old', 0)
        s.storeAssociation(SRV, old)
    fns = []
    if p['op'] == 'store':
        new = assoc(c, h, 'new', 1)
        fns.append(lambda: c.attempt(s.storeAssociation, SRV, new))
    elif p['op'] == 'remove':
        fns.append(lambda: c.attempt(s.removeAssociation, SRV, h))
    elif p['op'] == 'cleanup':
        fns.append(lambda: c.attempt(s.cleanup))
    if p['read'] == 'g':
        fns.append(lambda: c.attempt(t.getAssociation, SRV, h))
    elif p['read'] == 'G':
        fns.append(lambda: c.attempt(t.getAssociation, SRV))
    elif p['read'] == 'r':
        fns.append(lambda: c.attempt(t.removeAssociation, SRV, h))
    elif p['read'] == 's':
        new2 = assoc(c, h, 'new2', 0)
        fns.append(lambda: c.attempt(t.storeAssociation, SRV, new2))
    else:
        fns.append(lambda: c.attempt(t.cleanup))
    res = sched.run(c, fs, fns, preempt=p.get('preempt'))
    c.check(all(r[1] is None for r in res), 'concurrent use never raises')
    if p['read'] in 'gG':
        r = res[1][0]
        if r is None:
            c.check(old is None or p['op'] == 'remove', 'a reader finds the old or the new association')
        else:
            c.check(c.Or(old is not None and same(c, r, old), new is not None and same(c, r, new)), 'a reader finds a complete association')
    elif p['read'] == 'r':
        if p['op'] == 'remove' and old is not None:
            c.check(c.Not(c.And(c.eq(res[0][0], 1), c.eq(res[1][0], 1))), 'only one process is told that it removed the association')
            c.check(c.Or(res[0][0], res[1][0]), 'one process is told that it removed the association')
    r, ex = c.attempt(t.getAssociation, SRV, h)
    c.check(ex is None, 'reading never raises')
    if p['read'] == 's':
        c.check(r is not None and c.Or(same(c, r, new2), new is not None and same(c, r, new)), 'a complete association is found') if p['op'] != 'remove' else None
    elif p['op'] == 'store' and p['read'] != 'r':
        c.check(r is not None and same(c, r, new), 'the association stored is found')


def h_damage(c):
    """A file damaged by something else is treated as absent or as a record, never as an error."""
    p = c.params
    fs = fakefs.make(c)
    c.set_now(NOW)
    s = store(c, fs)
    A = c.mod('openid.association')
    other = A.Association('zz', b'o' * 20, NOW - 100, 100000, TYPES[0])
    s.storeAssociation(SRV, other)
    old = A.Association('h', b's' * 20, NOW - 10, 1000, TYPES[0])
    s.storeAssociation(SRV, old)
    data = old.serialize().encode('utf-8')
    name = s.getAssociationFilename(SRV, 'h')
    if p['kind'] == 'bytes':
        data = c.bin('data', p['n'], 0)
    elif p['kind'] == 'cut':
        data = data[:c.pick('cut', len(data))]
    else:
        i = c.pick('at', len(data)) if p.get('at') is None else p['at']
        data = data[:i] + c.bytes('b', 1) + data[i + p.get('over', 1):]
    fs.put(name, data)
    op = p['op']
    if op == 'g':
        r, ex = c.attempt(s.getAssociation, SRV, 'h')
        c.check(ex is None, 'reading a damaged file never raises')
        c.check(r is None or isinstance(r, A.Association), 'an association or nothing is found')
    elif op == 'G':
        r, ex = c.attempt(s.getAssociation, SRV)
        c.check(ex is None, 'reading a damaged file never raises')
        c.check(r is not None, 'the other associations of the server are found')
    elif op == 'r':
        r, ex = c.attempt(s.removeAssociation, SRV, 'h')
        c.check(ex is None, 'removing a damaged file never raises')
    else:
        r, ex = c.attempt(s.cleanup)
        c.check(ex is None, 'cleaning up a damaged file never raises')
    r, ex = c.attempt(s.getAssociation, SRV, 'zz')
    c.check(r is not None and same(c, r, other), 'the other association stays')
    new = A.Association('h', b'n' * 20, NOW, 1000, TYPES[0])
    r, ex = c.attempt(s.storeAssociation, SRV, new)
    c.check(ex is None, 'storing over a damaged file works')
    r, ex = c.attempt(s.getAssociation, SRV, 'h')
    c.check(r is not None and same(c, r, new), 'the association stored is found')


def h_contain(c):
    """Every path is directly inside a sub-directory of the store."""
    p = c.params
    A = c.mod('openid.association')
    fs = fakefs.make(c)
    c.set_now(NOW)
    s = store(c, fs)
    dirs = [fs.root + '/' + d for d in ('nonces', 'associations', 'temp')]
    fs.touched[:] = []
    srv = p['pre'] + c.text('srv', p['n'], 0, p.get('chars')) + p['post']
    h = c.text('h', p['h'], 1, p.get('handles', 'graph'))
    salt = c.text('salt', p['h'], 0, p.get('salts'))
    ops = p.get('ops', 'sgGrnc')
    for o in ops:
        if o == 's':
            c.attempt(s.storeAssociation, srv, A.Association(h, b's' * 20, NOW, 100, 'HMAC-SHA1'))
        elif o == 'g':
            c.attempt(s.getAssociation, srv, h)
        elif o == 'G':
            c.attempt(s.getAssociation, srv)
        elif o == 'r':
            c.attempt(s.removeAssociation, srv, h)
        elif o == 'n':
            c.attempt(s.useNonce, srv, NOW, salt)
        elif o == 'c':
            c.set_now(NOW + 10 ** 6)
            c.attempt(s.cleanup)
    for what, path in fs.touched:
        if what == 'list':
            c.check(path in dirs, 'only the own sub-directories are listed')
        else:
            c.check(c.Or([c.And(c.eq(path[:len(d) + 1], d + '/'), c.Not(c.has_char(path[len(d) + 1:], '/\0'))) for d in dirs]), 'every file is directly inside a sub-directory of the store')
            rest = path[path.rfind('/') + 1:] if isinstance(path, str) else None
            if rest is not None:
                c.check(len(rest) > 2 or rest not in ('', '.', '..'), 'a file name is never a directory entry of the system')


def h_distinct(c):
    """Distinct pairs and distinct nonces use distinct files."""
    p = c.params
    fs = fakefs.make(c)
    c.set_now(NOW)
    s = store(c, fs)

    def srv(n):
        return p['pre'] + c.text(n, p['n'], 0, p.get('chars')) + p['post']
    a, b = srv('a'), srv('b')
    x, y = c.text('x', p['h'], 0, p.get('handles')), c.text('y', p['h'], 0, p.get('handles'))
    if p['kind'] == 'assoc':
        f, ex = c.attempt(s.getAssociationFilename, a, x)
        g, ex2 = c.attempt(s.getAssociationFilename, b, y)
        if ex is None and ex2 is None:
            c.check(c.Iff(c.eq(f, g), c.And(c.eq(a, b), c.eq(x, y))), 'distinct pairs use distinct files')
    else:
        u, v = c.int('u', NOW - 10, NOW + 10), c.int('v', NOW - 10, NOW + 10)
        r1, ex1 = c.attempt(s.useNonce, a, u, x)
        r2, ex2 = c.attempt(s.useNonce, b, v, y)
        c.check(ex1 is None and ex2 is None and r1, 'a first use is accepted')
        c.check(c.Iff(r2, c.Not(c.And(c.eq(a, b), u == v, c.eq(x, y)))), 'distinct nonces use distinct files')


CRASH = [dict(op='store', old=o, parts=4, power=w) for o in (0, 1) for w in (0, 1)] + [dict(op=o, old=1, power=w) for o in ('remove', 'nonce', 'cleanup', 'setup') for w in (0, 1)] + \
    [dict(op='store', old=o, fault=1) for o in (0, 1)] + [dict(op=o, old=1, fault=1) for o in ('remove', 'nonce', 'cleanup')]
READ = [dict(op='store', old=o, read=r) for o in (0, 1) for r in 'gGcs'] + [dict(op='remove', old=1, read=r) for r in 'gGrc'] + [dict(op='cleanup', old=1, read=r) for r in 'gGc']
HARNESSES = {
    'crash': dict(fn=h_crash, quick=CRASH, thorough=[dict(d, parts=0) if d['op'] == 'store' else d for d in CRASH],
                  bounds='a crash before every file-system step and inside every write (3 prefix lengths quick, all thorough), with and without loss of unsynced data (all, half or none of it kept); or one failing step (I/O error) instead'),
    'nonce_race': dict(fn=h_nonce_race, quick=[dict(n=2), dict(n=2, used=1), dict(n=2, cleanup=1, preempt=2), dict(n=3, salts=0, preempt=2)], thorough=[dict(n=3), dict(n=2, cleanup=1), dict(n=3, used=1), dict(n=3, cleanup=1), dict(n=4, salts=0)],
                       bounds='every interleaving, at file-system steps, of 2 (quick; 3 with at most 2 preemptions) to 4 concurrent uses with symbolic salts, and of a concurrent clean-up'),
    'read_race': dict(fn=h_read_race, quick=[dict(d, preempt=2) for d in READ], thorough=[dict(d, preempt=4) for d in READ],
                      bounds='interleavings with at most 2 (quick) or 4 (thorough) preemptions at file-system steps of a writer and a reader'),
    'damage': dict(fn=h_damage, quick=[dict(kind=k, op=o, n=3) for k in ('bytes', 'cut') for o in 'gGrc'] + [dict(kind='byte', op='g')] + [dict(kind='byte', at=i, op=o) for i in (0, 8, 20) for o in 'Gr'],
                   thorough=[dict(kind='byte', op=o, over=v) for o in 'gGrc' for v in (0, 1)] + [dict(kind='bytes', op='g', n=5)],
                   bounds='record files replaced by any 3 (5) bytes, cut at any point, or with any one byte at any place changed or inserted'),
    'contain': dict(fn=h_contain, quick=[dict(pre='http://', n=1, post='/', h=1), dict(pre='http://', n=2, post='/', h=1, chars='a./-\\_', handles='a./', salts='a./'), dict(pre='', n=1, post='://x', h=1), dict(pre='', n=3, post='', h=1, chars='/.:a', handles='a/', salts='a/'),
                                         dict(pre='..', n=2, post='://x', h=1, chars='/.a', handles='a', salts='a')],
                    thorough=[dict(pre='http://', n=2, post='/', h=1), dict(pre='', n=2, post='://x', h=1), dict(pre='', n=4, post='', h=1, chars='/.:a', handles='a/', salts='a/')],
                    bounds='server URLs with up to 2 symbolic characters (any Unicode for one), handles and salts of one character'),
    'distinct': dict(fn=h_distinct, quick=[dict(kind=k, pre='http://', n=1, post='/', h=1, handles='ascii') for k in ('assoc', 'nonce')] + [dict(kind=k, pre='http://a', n=2, post='', h=0, chars='/.-_a') for k in ('assoc', 'nonce')] +
                     [dict(kind=k, pre='', n=2, post='://x', h=0, chars='/.-_a2F') for k in ('assoc', 'nonce')],
                     thorough=[dict(kind=k, pre='http://', n=2, post='/', h=1, chars='ascii', handles='ascii') for k in ('assoc', 'nonce')] + [dict(kind=k, pre='http://', n=1, post='', h=2) for k in ('assoc', 'nonce')],
                     bounds='two server URLs with up to 2 and two handles with up to 2 symbolic characters'),
}
