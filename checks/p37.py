"""P37: fetchers ask for http and https addresses only and report what the server said."""
from six.moves.urllib.error import HTTPError as UrllibHTTPError
from six.moves.urllib.parse import urljoin
from six.moves.urllib.request import Request as UrllibRequest

START = 'http://a/'
FOLLOWED = {'curl': ((301, 302, 303, 307), (301, 302, 303, 307)), 'httplib2': ((300, 301, 302, 303, 307, 308), (303, 308))}


def allowed(c, url):
    return c.Or(c.eq(url[:7], 'http://'), c.eq(url[:8], 'https://'))


class Web(object):
    """Records what is asked and answers in turn; the last answer is repeated."""

    def __init__(self, c, answers):
        self.c, self.answers, self.asked = c, answers, []

    def ask(self, method, url, body, headers):
        self.asked.append((method, url, body, dict(headers or {})))
        a = self.answers[min(len(self.asked), len(self.answers)) - 1]
        if isinstance(a, Exception):
            raise a
        return a


class Answer(object):
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body


# ---- stand-ins for the libraries

class Curl(object):
    """pycurl.Curl"""

    def __init__(self, lib):
        self.lib, self.opts, self.closed, self.code = lib, {}, False, None

    def setopt(self, k, v):
        self.opts[k] = v

    def perform(self):
        o = self.opts
        h = {}
        for line in o.get('HTTPHEADER', ()):
            name, value = line.split(': ', 1)
            h[name] = value
        post = bool(o.get('POST'))
        a = self.lib.web.ask('POST' if post else 'GET', o['URL'], o.get('POSTFIELDS') if post else None, h)
        put = o['HEADERFUNCTION']
        if self.lib.hundred and post:
            put(b'HTTP/1.1 100 Continue\r\n')
            put(b'\r\n')
        put(b'HTTP/1.1 200 OK\r\n')
        for k, v in a.headers:
            put(k.encode('utf-8') + b': ' + v.encode('utf-8') + b'\r\n')
        if not self.lib.cut:
            put(b'\r\n')
        i = 0
        while i < len(a.body):
            chunk = a.body[i:i + self.lib.chunk]
            i += self.lib.chunk
            if o['WRITEFUNCTION'](chunk) not in (None, len(chunk)):
                raise self.lib.error(23, 'Failed writing body')
        self.code = a.status

    def getinfo(self, k):
        return self.code

    def close(self):
        self.closed = True
        self.lib.closed += 1


class CurlLib(object):
    """pycurl"""
    version = 'libcurl'

    class error(Exception):
        pass

    def __init__(self, web, chunk=1 << 18):
        self.web, self.chunk, self.closed, self.hundred, self.cut = web, chunk, 0, False, False
        for k in ('NOSIGNAL', 'HTTPHEADER', 'POST', 'POSTFIELDS', 'WRITEFUNCTION', 'HEADERFUNCTION', 'TIMEOUT', 'URL', 'RESPONSE_CODE'):
            setattr(self, k, k)

    def Curl(self):
        return Curl(self)


class Lib2Response(object):
    """httplib2.Response"""
    previous = None

    def __init__(self, status, headers):
        self.status = status
        self.fields = {k.lower(): v for k, v in headers}

    def __contains__(self, k):
        return k in self.fields

    def __getitem__(self, k):
        return self.fields[k]

    def get(self, k, d=None):
        return self.fields.get(k, d)

    def items(self):
        return self.fields.items()

    def keys(self):
        return self.fields.keys()


class Http(object):
    """httplib2.Http, with its way of following redirects"""

    def __init__(self, web, cache=None):
        self.web, self.follow_redirects, self.force_exception_to_status_code = web, True, True

    def request(self, uri, method='GET', body=None, headers=None, redirections=5, connection_type=None):
        a = self.web.ask(method, uri, body, headers)
        r = Lib2Response(a.status, a.headers)
        if self.follow_redirects and (method == 'GET' or a.status in (303, 308)) and a.status in (300, 301, 302, 303, 307, 308) and 'location' in r:
            if not redirections:
                raise RuntimeError('too many')
            if a.status in (302, 303):
                method, body = 'GET', None
            old = r
            r, content = self.request(r['location'], method, body, headers, redirections - 1)
            r.previous = old
            return r, content
        if a.status in (200, 203) and method == 'GET' and 'content-location' not in r:
            r.fields['content-location'] = uri
        return r, a.body


class Lib2(object):
    def __init__(self, web):
        self.web = web

    def Http(self, cache=None, timeout=None):
        return Http(self.web, cache)


class Fields(object):
    """Case-insensitive header fields."""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return list(self.pairs)

    def get(self, k, d=None):
        for a, b in self.pairs:
            if a.lower() == k.lower():
                return b
        return d


class RequestsResponse(object):
    def __init__(self, url, a):
        self.url, self.status_code, self.headers, self.content = url, a.status, Fields(a.headers), a.body


class Requests(object):
    """requests"""

    def __init__(self, web, final):
        self.web, self.final = web, final

    def request(self, method, url, data=None, headers=None, **kw):
        return RequestsResponse(self.final, self.web.ask(method, url, data, headers))

    def get(self, url, **kw):
        return self.request('GET', url, **kw)

    def post(self, url, data=None, **kw):
        return self.request('POST', url, data=data, **kw)


class FakeRequest(object):
    """urllib's request."""

    def __init__(self, url, data=None, headers=None):
        self.url, self.data, self.headers = url, data, headers


class UrllibResponse(object):
    def __init__(self, url, a, log, coded=True):
        self.url, self.a, self.log, self.at = url, a, log, 0
        if coded:
            self.code = a.status

    def read(self, n=-1):
        end = len(self.a.body) if n is None or n < 0 else self.at + n
        r = self.a.body[self.at:end]
        self.at += len(r)
        return r

    def geturl(self):
        return self.url

    def info(self):
        return Fields(self.a.headers)

    def close(self):
        self.log.append('closed')


def setup(c, kind, web, final=None):
    """The fetcher of a kind, over a web; and a function that says whether everything was closed."""
    F = c.mod('openid.fetchers')
    if kind == 'curl':
        lib = CurlLib(web, c.params.get('chunk', 1 << 18))
        F.pycurl = lib
        return F.CurlHTTPFetcher(), lambda: lib.closed == 1, lib
    if kind == 'httplib2':
        F.httplib2 = Lib2(web)
        return F.HTTPLib2Fetcher(), lambda: True, None
    if kind == 'requests':
        F.requests = Requests(web, final)
        return F.RequestsFetcher(), lambda: True, None
    log = []
    f = F.Urllib2Fetcher()
    c.replace(UrllibRequest, FakeRequest)

    def urlopen(req):
        a = web.ask('GET' if req.data is None else 'POST', req.url, req.data, req.headers)
        log.append('opened')
        if c.params.get('raises') and not 200 <= a.status < 300:
            e = UrllibHTTPError(final, 0, 'message', Fields(a.headers), UrllibResponse(final, a, log))
            e.code = a.status
            raise e
        return UrllibResponse(final, a, log)
    f.urlopen = urlopen
    return f, lambda: len(log) >= 2, None


def restore(c):
    F = c.mod('openid.fetchers')
    for n in ('pycurl', 'httplib2', 'requests'):
        try:
            m = __import__(n)
        except ImportError:
            m = None
        setattr(F, n, m)


def h_fetch(c):
    """One request, for every kind of fetcher, address, body and answer."""
    p = c.params
    kind = p['kind']
    pre, n, chars, post = p['url']
    url = pre + c.text('url', n, 0, chars) + post
    body = c.bin('body', 2) if c.maybe('post') else None
    own = {'X-Own': 'value', 'Accept': 'text/x'} if c.maybe('own headers') else {} if c.maybe('some') else None
    status = c.int('status', 100, 599)
    final = 'http://final/' if kind in ('requests', 'urllib') else None
    v = c.text('value', p.get('vn', 1), 0, 'graph')
    content = c.bin('content', 2)
    web = Web(c, [Answer(status, [('Content-Type', 'a/b' + v), ('X-Other', 'x: y')], content)])
    try:
        f, closed, lib = setup(c, kind, web, final)
        if lib:
            lib.hundred = c.maybe('continued')
        c.set_now(1000)
        if kind == 'curl':
            for k in (301, 302, 303, 307):
                c.assume(status != k)
        r, ex = c.attempt(f.fetch, url, body, None if own is None else dict(own))
        if kind != 'requests':
            c.check(c.Implies(ex is None, allowed(c, url)), 'only http and https addresses are fetched')
            if not allowed(c, url):
                c.check(not web.asked, 'what is no http address is not asked for')
                return
        if kind == 'curl' and not web.asked:
            _, bad = c.attempt(c.mod('openid.urinorm').urinorm, url)
            c.check(ex is not None and bad is not None, 'only malformed addresses are refused')
            return
        c.check(ex is None, 'every answer is a response')
        c.check(len(web.asked) == 1, 'one request is made')
        m, u, b, h = web.asked[0]
        c.check(m == ('GET' if body is None else 'POST'), 'a request with a body is a POST')
        c.check((b is None) if body is None else b is not None and c.eq(b, body), 'the body is the given one')
        if kind != 'curl':
            c.check(c.eq(u, url), 'the address is the given one')
        for k in own or {}:
            c.check(h.get(k) == own[k], 'the headers given are sent')
        c.check(c.eq(r.status, status), 'the status is the one of the answer')
        c.check(c.eq(r.body, content), 'the body is the one of the answer')
        c.check(c.eq(r.final_url, final or url), 'the address is the one of the answer')
        got = [y for x, y in r.headers.items() if x.lower() == 'content-type']
        c.check(len(got) == 1 and c.eq(got[0], 'a/b' + v), 'the header fields are those of the answer')
        got = [y for x, y in r.headers.items() if x.lower() == 'x-other']
        c.check(got == ['x: y'], 'the header fields are those of the answer')
        c.check(closed(), 'the connection is closed')
    finally:
        restore(c)


def h_redirect(c):
    """Fetchers that follow redirects themselves."""
    p = c.params
    kind = p['kind']
    answers, targets, statuses = [], [], []
    for i in range(p['hops']):
        s = c.choice('status%d' % i, p.get('statuses', (200, 300, 301, 302, 303, 307, 308, 304, 404)))
        t = c.choice('target%d' % i, p['targets'])
        if t is not None and '?' in t:
            a, b = t.split('?')
            t = a + c.text('target%d.text' % i, p.get('n', 1), 0, p.get('chars', 'a-z')) + b
        h = [('Location', t)] if t is not None else []
        if c.maybe('lies%d' % i):
            h.append(('Content-Location', 'http://victim/'))
        answers.append(Answer(s, h, b'page %d' % i))
        targets.append(t)
        statuses.append(s)
    answers.append(Answer(200, [('Content-Location', 'http://victim/')] if c.maybe('lies') else [], b'last'))
    web = Web(c, answers)
    body = b'a=b' if c.maybe('post') else None
    times = [1000]
    try:
        f, closed, lib = setup(c, kind, web)
        c.set_now(1000)
        r, ex = c.attempt(f.fetch, START, body)
        for m, u, b, h in web.asked:
            c.check(allowed(c, u), 'only http and https addresses are fetched')
        url, method, k = START, 'GET' if body is None else 'POST', 0
        while True:
            c.check(len(web.asked) > k, 'redirects are followed')
            m, u, b, h = web.asked[k]
            c.check(same_url(c, u, url), 'the address asked for is the one of the redirect')
            c.check(m == method and b == (body if m == 'POST' else None), 'the body is sent to the right addresses only')
            a = answers[k]
            codes = FOLLOWED[kind][method == 'POST']
            if k == p['hops'] or a.status not in codes:
                break
            t = targets[k]
            if t is None:
                if kind == 'curl':
                    c.check(ex is not None and len(web.asked) == k + 1, 'a redirect to nowhere is an error')
                    return
                break
            url = joined(c, url, t)
            if a.status != 308:
                method = 'GET'
            k += 1
            if not allowed(c, url):
                c.check(ex is not None and len(web.asked) == k, 'a redirect to other addresses is an error')
                return
            if kind == 'curl' and c.attempt(c.mod('openid.urinorm').urinorm, url)[1] is not None:
                c.check(ex is not None and len(web.asked) == k, 'a redirect to a malformed address is an error')
                return
        c.check(len(web.asked) == k + 1, 'exactly the redirects are followed')
        c.check(ex is None, 'every answer is a response')
        c.check(c.eq(r.final_url, url), 'the final address is where the answer comes from')
        c.check(r.status == a.status and r.body == a.body, 'the answer is the last one')
        c.check(closed(), 'the connection is closed')
    finally:
        restore(c)


def same_url(c, asked, url):
    """Requests may be made for the normalised address."""
    if c.eq(asked, url):
        return True
    if url[:7] != 'http://' and url[:8] != 'https://':
        return False
    return c.eq(asked, c.mod('openid.urinorm').urinorm(url))


def joined(c, base, t):
    """Absolute address of a redirect."""
    return urljoin(base, t)


def h_loop(c):
    """Endless redirects end."""
    p = c.params
    web = Web(c, [Answer(p.get('status', 302), [('Location', 'http://a/next')], b'')])
    clock = [1000]
    try:
        f, closed, lib = setup(c, p['kind'], web)
        c.set_now(1000)
        ask = web.ask

        def slow(*a):
            c.set_now(1000 + (len(web.asked) + 1) * 3)
            if len(web.asked) > 50:
                raise KeyboardInterrupt
            return ask(*a)
        web.ask = slow
        try:
            r, ex = c.attempt(f.fetch, START)
        except KeyboardInterrupt:
            ex = None
        c.check(ex is not None and len(web.asked) < 50, 'endless redirects are an error')
        c.check(closed(), 'the connection is closed')
    finally:
        restore(c)


def h_size(c):
    """An endless answer is not kept in memory."""
    p = c.params
    F = c.mod('openid.fetchers')
    big = b'x' * (3 << 20)
    web = Web(c, [Answer(p.get('status', 200), [], big)])
    try:
        f, closed, lib = setup(c, p['kind'], web, 'http://final/')
        c.set_now(1000)
        r, ex = c.attempt(f.fetch, START)
        c.check(ex is not None or len(r.body) <= (1 << 20) + (1 << 19), 'answers are bounded')
        c.check(closed(), 'the connection is closed')
    finally:
        restore(c)


def h_broken(c):
    """Malformed header lines and cut connections are errors, never other answers."""
    p = c.params
    web = Web(c, [Answer(200, [], b'page')])
    try:
        f, closed, lib = setup(c, 'curl', web)
        c.set_now(1000)
        line = c.bytes('line', p['n'])
        for i in range(p['n']):
            c.assume(c.And(line[i] != 10, line[i] != 13))
        cut = c.maybe('cut')
        one = Curl(lib)

        def perform():
            web.ask('GET', one.opts['URL'], None, {})
            put = one.opts['HEADERFUNCTION']
            put(b'HTTP/1.1 200 OK\r\n')
            put(p['pre'].encode() + line + b'\r\n')
            if not cut:
                put(b'\r\n')
            one.opts['WRITEFUNCTION'](b'page')
            one.code = 200
        one.perform = perform
        lib.Curl = lambda: one
        r, ex = c.attempt(f.fetch, START)
        c.check(closed(), 'the connection is closed')
        colon = any([line[i] == 58 for i in range(p['n'])]) or ':' in p['pre']
        if cut and (colon or not blank(line)):
            c.check(ex is not None, 'a cut header is an error')
        elif not colon:
            c.check(ex is not None or blank(line), 'a malformed line is an error')
        elif ex is None:
            c.check(len(list(r.headers.items())) == 1, 'the header fields are those of the answer')
        if ex is None:
            c.check(r.status == 200 and r.body == b'page', 'the answer is reported')
    finally:
        restore(c)


def blank(line):
    return all([line[i] in (9, 11, 12, 32) for i in range(len(line))])


def h_wrap(c):
    """Failures of the default fetcher are fetching errors that hold their cause."""
    p = c.params
    F = c.mod('openid.fetchers')

    class Odd(F.HTTPFetchingError):
        pass
    kind = c.choice('kind', ('none', 'value', 'assertion', 'fetching', 'own', 'os', 'exit', 'unicode'))
    e = {'none': None, 'value': ValueError('x'), 'assertion': AssertionError(), 'fetching': F.HTTPFetchingError(KeyError('k')), 'own': Odd('why'), 'os': OSError(2, 'x'), 'exit': KeyboardInterrupt(), 'unicode': UnicodeError('u')}[kind]
    got = []
    answer = F.HTTPResponse('http://x/', 200, {}, b'')

    class App(F.HTTPFetcher):
        def fetch(self, url, body=None, headers=None):
            got.append((url, body, headers))
            if e is not None:
                raise e
            return answer
    wrap = c.choice('wrap', ('default', 'yes', 'no'))
    app = App()
    url, body, headers = c.text('url', 2, 0), c.bin('body', 1) if c.maybe('post') else None, {'A': 'b'} if c.maybe('headers') else None
    try:
        if wrap == 'default':
            F.setDefaultFetcher(app)
        else:
            F.setDefaultFetcher(app, wrap_exceptions=wrap == 'yes')
        c.check(F.getDefaultFetcher() is F.getDefaultFetcher(), 'the default fetcher stays')
        try:
            r, ex = c.attempt(F.fetch, url, body, headers)
        except KeyboardInterrupt as why:
            r, ex = None, why
        c.check(len(got) == 1 and c.eq(got[0][0], url) and (got[0][1] is None if body is None else c.eq(got[0][1], body)) and got[0][2] == headers, 'the request is handed on unchanged')
        if e is None:
            c.check(ex is None and r is answer, 'the response is handed back unchanged')
        elif kind == 'exit' or wrap == 'no':
            c.check(ex is e, 'without wrapping failures are handed on')
        else:
            c.check(isinstance(ex, F.HTTPFetchingError) and (ex.why is e or ex is e), 'failures are fetching errors that hold their cause')
        F.setDefaultFetcher(None)
        c.check(isinstance(F.getDefaultFetcher(), F.ExceptionWrappingFetcher) and F.getDefaultFetcher() is F.getDefaultFetcher(), 'a wrapped fetcher is made when there is none')
    finally:
        F.setDefaultFetcher(None)


def u(pre, n, chars, post=''):
    return [pre, n, chars, post]


KINDS = ('urllib', 'curl', 'httplib2', 'requests')
TARGETS = ['http://b/', 'https://c/?', 'ftp://b/', 'file:///etc/passwd', None, '/rel?', '//d/', 'other']
HARNESSES = {
    'fetch': dict(fn=h_fetch,
                  quick=[dict(kind=k, url=u('http://', 0, '', 'a/')) for k in KINDS] + [dict(kind='urllib', url=u('http://', 0, '', 'a/'), raises=1)]
                  + [dict(kind=k, url=x, vn=0) for k in KINDS[:3] for x in (u('http', 2, 's:/S', '//h/'), u('http', 4, 's:/'), u('', 1, 'print', 'http://h/'), u('', 2, 'print', '://h/'), u('file:///h/', 1, 'a'))],
                  thorough=[dict(kind=k, url=u('', 3, 'print', '://h/'), vn=0) for k in KINDS[:3]] + [dict(kind=k, url=u('http://h/', 2, 'a-z'), vn=3) for k in KINDS],
                  bounds='addresses of templates with up to 2 (3) free characters, every status, bodies up to 2 bytes'),
    'redirect': dict(fn=h_redirect, quick=[dict(kind=k, hops=1, targets=TARGETS) for k in ('curl', 'httplib2')] + [dict(kind=k, hops=2, targets=['http://b/', 'https://c/?', 'ftp://b/', '/rel'], statuses=[302, 303, 307, 308, 200]) for k in ('curl', 'httplib2')] + [dict(kind=k, hops=1, targets=['?://h/', 'http?//h/'], n=2, chars='htpsS:/', statuses=[301]) for k in ('curl', 'httplib2')],
                     thorough=[dict(kind=k, hops=3, targets=['http://b/', 'ftp://b/', '/rel'], statuses=[302, 308, 200]) for k in ('curl', 'httplib2')], bounds='up to 2 (3) redirects of every status to every kind of address'),
    'loop': dict(fn=h_loop, quick=[dict(kind='curl'), dict(kind='httplib2')], bounds='an endless chain of redirects'),
    'size': dict(fn=h_size, quick=[dict(kind='curl'), dict(kind='urllib'), dict(kind='urllib', raises=1, status=404), dict(kind='urllib', raises=1, status=500), dict(kind='curl', status=404)], bounds='an answer of 3 MiB'),
    'broken': dict(fn=h_broken, quick=[dict(pre='', n=2), dict(pre='A: ', n=2)], thorough=[dict(pre='', n=3)], bounds='a header line of up to 2 (3) free bytes'),
    'wrap': dict(fn=h_wrap, quick=[{}], bounds='eight kinds of failures'),
}
