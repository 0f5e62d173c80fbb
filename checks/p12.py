"""P12: nonces carry their timestamp and the skew window is exact."""
SALT = 'a-zA-Z0-9'


def valid(c, y, mo, d, h, mi):
    leap = c.And(y % 4 == 0, c.Or(c.Not(y % 100 == 0), y % 400 == 0))
    long = c.Or([mo == k for k in (1, 3, 5, 7, 8, 10, 12)])
    last = c.ite(long, 31, c.ite(mo == 2, c.ite(leap, 29, 28), 30))
    return c.And(y >= 1, mo >= 1, mo <= 12, d >= 1, d <= last, h <= 23, mi <= 59)


def h_make(c):
    N = c.mod('openid.store.nonce')
    when = c.int('when', 0, 253402300799)
    if c.maybe('clock'):
        c.set_now(when)
        n = N.mkNonce()
    else:
        n = N.mkNonce(when)
    r, ex = c.attempt(N.split, n)
    c.check(ex is None, 'a generated nonce parses')
    t, salt = r
    c.check(c.eq(t, when), 'a generated nonce carries the time it was made for')
    c.check(len(salt) >= 1, 'a generated nonce has a random part')
    c.check(c.all_chars(salt, 'a-zA-Z0-9'), 'the random part is made of letters and digits')


def h_split(c):
    N = c.mod('openid.store.nonce')
    p = c.params
    fields = {}
    parts = dict(y='2020', mo='02', d='28', h='11', mi='58', s='07')
    w = dict(y=4, mo=2, d=2, h=2, mi=2, s=2)
    for k in p['sym']:
        parts[k] = c.str(k, w[k], '0-9')
    for k in parts:
        fields[k] = int(parts[k])
    n = parts['y'] + '-' + parts['mo'] + '-' + parts['d'] + 'T' + parts['h'] + ':' + parts['mi'] + ':' + parts['s'] + 'Z'
    salt = c.text('salt', p.get('salt', 1))
    r, ex = c.attempt(N.split, n + salt)
    y, mo, d, h, mi, s = [fields[k] for k in ('y', 'mo', 'd', 'h', 'mi', 's')]
    ok = valid(c, y, mo, d, h, mi)
    if ex is not None:
        c.check(isinstance(ex, ValueError), 'only value errors')
        c.check(c.Not(c.And(ok, s <= 59, y >= 1970)), 'every UTC time since 1970 is accepted')
        return
    c.check(c.And(ok, s <= 61), 'a time that does not exist is refused')
    want = c.epoch(y, mo, d, h, mi, s)
    c.check(c.eq(r[0], want), 'the time is the one the text denotes')
    c.check(r[0] >= 0, 'times before 1970 are refused')
    c.check(c.eq(r[1], salt), 'the rest is the salt')


BASE = '2020-02-28T11:58:07Z'


def h_pos(c):
    """Any character at any place of the timestamp."""
    N = c.mod('openid.store.nonce')
    i = c.params['i']
    ch = c.str('ch', 1)
    n = BASE[:i] + ch + BASE[i + 1:] + 'salt'
    r, ex = c.attempt(N.split, n)
    c.check(ex is None or isinstance(ex, ValueError), 'only value errors')
    now = c.int('now', 0, 4 * 10 ** 9)
    skew = c.int('skew', 0, 10 ** 9)
    w, ex2 = c.attempt(N.checkTimestamp, n, skew, now)
    c.check(ex2 is None, 'checking the window never raises')
    if ex is not None:
        c.check(c.Not(w), 'a malformed nonce is never inside the window')
        return
    if BASE[i] in '-:TZ':
        c.check(c.eq(ch.lower(), BASE[i].lower()), 'separators are required')
    elif c.all_chars(ch, 'ascii'):
        c.check(c.Or(c.all_chars(ch, '0-9'), c.And(i == 8, c.eq(ch, ' '))), 'digits are required')
    c.check(c.Iff(w, c.And(r[0] <= now + skew, now - skew <= r[0])), 'inside the window exactly when the time is within the skew')


def h_short(c):
    N = c.mod('openid.store.nonce')
    p = c.params
    k = p['k']
    n = BASE[:k] + c.text('t', p['n'])
    if len(n) >= 20:
        return
    r, ex = c.attempt(N.split, n)
    if ex is None:
        # unpadded fields are tolerated
        c.check(c.And(k >= 16, n.lower().endswith('z')), 'a text without full timestamp is refused')
        return
    c.check(isinstance(ex, ValueError), 'only value errors')
    w, ex = c.attempt(N.checkTimestamp, n)
    c.check(ex is None, 'checking the window never raises')
    c.check(c.Not(w), 'a malformed nonce is never inside the window')


def h_insert(c):
    """One character more, or a text around the timestamp."""
    N = c.mod('openid.store.nonce')
    i = c.params['i']
    t = c.text('t', c.params.get('n', 1), 1)
    n = BASE[:i] + t + BASE[i:] + 'salt'
    c.assume(c.Not(c.all_chars(t, '0-9')))
    r, ex = c.attempt(N.split, n)
    w, ex2 = c.attempt(N.checkTimestamp, n, 10 ** 9, 1500000000)
    c.check(ex2 is None, 'checking the window never raises')
    if i >= 20:
        c.check(ex is None and c.eq(r[1], t + 'salt'), 'what follows the timestamp is the salt')
        return
    if i == 19 and c.Or(c.eq(t[0], 'z'), c.eq(t[0], 'Z')):
        return
    c.check(isinstance(ex, ValueError), 'a text that does not start with a complete timestamp is refused')
    c.check(c.Not(w), 'a malformed nonce is never inside the window')


def h_window(c):
    N = c.mod('openid.store.nonce')
    when = c.int('when', 0, 253402300799)
    now = c.int('now', 0, 253402300799) if not c.maybe('fraction') else c.dec('now10', 0, 2534023007990, 1)
    n = N.mkNonce(when)
    how = c.choice('how', ['given', 'clock', 'default'])
    if how == 'default':
        skew = N.SKEW
        c.set_now(now)
        r = N.checkTimestamp(n)
    else:
        skew = c.int('skew', 0, 10 ** 11)
        if how == 'clock':
            c.set_now(now)
            r = N.checkTimestamp(n, skew)
        else:
            r = N.checkTimestamp(n, allowed_skew=skew, now=now)
    c.check(c.Iff(r, c.And(when - now <= skew, now - when <= skew)), 'inside the window exactly when time and clock differ by at most the skew')


HARNESSES = {
    'make': dict(fn=h_make, bounds='all times from 1970 to 9999, any random characters'),
    'split': dict(fn=h_split, quick=[dict(sym=['y', 'mo', 'd']), dict(sym=['h', 'mi', 's']), dict(sym=['y', 'd']), dict(sym=['mo', 'd']), dict(sym=[], salt=3)],
                  thorough=[dict(sym=['y', 'mo', 'd', 'h', 'mi', 's'])], bounds='all digits of date and time symbolic; salt up to 3 characters of all Unicode'),
    'pos': dict(fn=h_pos, quick=[dict(i=i) for i in range(20)], bounds='any Unicode character at any position of a timestamp; all clocks and skews'),
    'insert': dict(fn=h_insert, quick=[dict(i=i) for i in range(21)] + [dict(i=0, n=2), dict(i=20, n=2)], bounds='one (two at the ends) character(s) of any kind inserted anywhere in a timestamp'),
    'short': dict(fn=h_short, quick=[dict(k=0, n=3), dict(k=8, n=2), dict(k=17, n=2), dict(k=16, n=2)], thorough=[dict(k=k, n=3) for k in range(17)],
                  bounds='prefixes of a timestamp followed by up to 2/3 characters'),
    'window': dict(fn=h_window, bounds='all times, clocks (also fractions of seconds) and skews'),
}
