"""P25: the provider's responses are delivered in the right encoding."""
from six.moves.urllib.parse import parse_qsl, urlencode

from checks import dhfake, rp, stores
from checks.p08 import check_form

NSS = {1: None, 10: rp.NS1, 11: rp.NS11, 2: rp.NS2}
LIMIT = 2047


class Signer(object):
    """Stands for the signatory: adds a recognisable signature to a copy."""

    def __init__(self, c):
        self.c, self.calls = c, []

    def sign(self, response):
        self.calls.append(response)
        S = self.c.mod('openid.server.server')
        r = S.OpenIDResponse(response.request)
        r.fields = response.fields.copy()
        r.fields.setArg(rp.NS2 if r.fields.isOpenID2() else self.c.mod('openid.message').OPENID_NS, 'sig', 'SIG')
        return r


def login(c, ver, rt, imm=False, op=rp.OP):
    S = c.mod('openid.server.server')
    c.set_now(rp.NOW)
    server = S.Server(stores.make(c, 'mem'), op)
    q = {'openid.mode': 'checkid_immediate' if imm else 'checkid_setup', 'openid.identity': 'http://i/', 'openid.return_to': rt}
    if ver == 2:
        q['openid.claimed_id'] = 'http://i/'
    if NSS[ver] is not None:
        q['openid.ns'] = NSS[ver]
    r, ex = c.attempt(server.decodeRequest, q)
    c.check(ex is None, 'the request is accepted')
    return S, server, r


def address(rt, args):
    """The return address with the arguments, and how many were there."""
    return rt + ('&' if '?' in rt else '?') + urlencode(sorted(args.items()))


def check_delivery(c, w, rt, args, v2, msg=''):
    """The web response delivers the arguments to the return address."""
    url = address(rt, args)
    if v2 and len(url) > LIMIT:
        c.check(w.code == 200 and not w.headers, 'a long response is a form')
        a, b = w.body.find('<form'), w.body.find('</form>')
        c.check(a > 0 and b > a and 'document.forms[0].submit()' in w.body, 'the form submits itself')
        check_form(c, w.body[a:b] + '</form>', rt, args)
        return
    c.check(w.code == 302 and list(w.headers) == ['location'], 'the response is a redirect')
    loc = w.headers['location']
    c.check(loc.startswith(rt), 'the redirect leads to the return address')
    rest = loc[len(rt):]
    c.check(len(rest) > 0 and rest[0] == ('&' if '?' in rt else '?'), 'the redirect leads to the return address')
    got = parse_qsl(rest[1:], keep_blank_values=True)
    c.check(len(got) == len(args) and c.eq(dict(got), args), 'the redirect carries exactly the fields')
    c.check(c.eq(loc, url), 'the redirect carries exactly the fields')


def h_login(c):
    """Answers to login requests."""
    p = c.params
    ver = p['ver']
    rt = 'http://rp/r' + c.choice('query', ['', '?', '?a=b'])
    kind = p['kind']
    S, server, r = login(c, ver, rt, kind in ('immediate', 'setup'))
    resp = r.answer(kind in ('positive', 'immediate'))
    mode = {'positive': 'id_res', 'immediate': 'id_res', 'cancel': 'cancel', 'setup': 'setup_needed' if ver == 2 else 'id_res'}[kind]
    resp.fields.setArg('http://ext/', 'q', c.text('value', p['n'], 0, p.get('chars', 'a !+')))
    before = dict(resp.fields.toPostArgs())
    pad = ''
    if p.get('long'):
        # brings the redirect close to the limit
        plain = dict(before)
        plain['openid.ext0.p'] = ''
        if mode == 'id_res':
            plain['openid.sig'] = 'SIG'
        base = address(rt, dict((k, 'x' if k == 'openid.ext0.q' else v) for k, v in plain.items()))
        pad = 'p' * (LIMIT - len(base) - p['long'])
        resp.fields.setArg('http://ext/', 'p', pad)
        before = dict(resp.fields.toPostArgs())
    signer = Signer(c)
    w, ex = c.attempt(S.SigningEncoder(signer).encode, resp)
    c.check(ex is None, 'every answer can be delivered')
    want = dict(before)
    if mode == 'id_res':
        c.check(len(signer.calls) == 1 and signer.calls[0] is resp, 'an assertion is signed before it is sent')
        want['openid.sig'] = 'SIG'
    else:
        c.check(len(signer.calls) == 0, 'only assertions are signed')
    c.check(before['openid.mode'] == mode, 'the answer has the right mode')
    c.check(c.eq(dict(resp.fields.toPostArgs()), before), 'encoding does not change the response')
    check_delivery(c, w, rt, want, ver == 2)
    if not signer.calls:
        c.check(resp.renderAsForm() == (w.code == 200), 'the form of the answer can be asked for')


def h_signed(c):
    """Responses that have a signature; encoders without signatory."""
    p = c.params
    S, server, r = login(c, p['ver'], rp.RT)
    resp = r.answer(True)
    M = c.mod('openid.message')
    have = c.maybe('has sig')
    if have:
        resp.fields.setArg(M.OPENID_NS, 'sig', c.text('sig', 1, 0, 'print'))
    mode = c.text('mode', 2, 1, 'print') if c.maybe('other mode') else 'id_res'
    resp.fields.setArg(M.OPENID_NS, 'mode', mode)
    signer = Signer(c) if c.maybe('signatory') else None
    w, ex = c.attempt(S.SigningEncoder(signer).encode, resp)
    if not mode == 'id_res':
        c.check(ex is None and (signer is None or not signer.calls), 'only assertions are signed')
    elif signer is None:
        c.check(isinstance(ex, ValueError), 'an assertion is not sent without signature')
    elif have:
        c.check(isinstance(ex, S.AlreadySigned) and not signer.calls, 'a signed assertion is refused')
    else:
        c.check(ex is None and len(signer.calls) == 1 and 'openid.sig=SIG' in w.headers['location'], 'an assertion is signed')


def kvtext(c, body):
    """Pairs of a key-value text, by an independent parser."""
    out = {}
    c.check(body.endswith('\n'), 'a direct answer is key-value text')
    for line in body[:-1].split('\n'):
        i = line.index(':')
        c.check(line[:i] not in out, 'a direct answer has every field once')
        out[line[:i]] = line[i + 1:]
    return out


def h_direct(c):
    """Answers to direct requests."""
    p = c.params
    ver = p['ver']
    S = c.mod('openid.server.server')
    c.set_now(rp.NOW)
    server = S.Server(stores.make(c, 'mem'), rp.OP)
    c.urandom = lambda n: b'\1' * n
    kind = p['kind']
    ih = None
    if kind == 'verify':
        q = {'openid.mode': 'check_authentication', 'openid.assoc_handle': 'h', 'openid.sig': 'x', 'openid.signed': 'mode'}
        if c.maybe('invalidate'):
            ih = c.text('handle', p['n'], 0, p.get('chars'))
            q['openid.invalidate_handle'] = ih
    else:
        q = {'openid.mode': 'associate', 'openid.assoc_type': 'HMAC-SHA1', 'openid.session_type': 'no-encryption'}
        if kind == 'refuse':
            server.negotiator.setAllowedTypes(c.choice('allowed', [[], [('HMAC-SHA256', 'DH-SHA256')]]))
    if NSS[ver] is not None:
        q['openid.ns'] = NSS[ver]
    r = server.decodeRequest(q)
    resp, ex = c.attempt(server.handleRequest, r)
    if kind == 'refuse' and ver != 2:
        c.check(isinstance(ex, S.ProtocolError), 'an OpenID 1 refusal is a protocol error')
        resp = ex
        f = dict(resp.toMessage().toPostArgs())
    else:
        c.check(ex is None, 'a direct request is answered')
        f = dict(resp.fields.toPostArgs())
    signer = Signer(c)
    w, ex = c.attempt(S.SigningEncoder(signer).encode, resp)
    if ih is not None and c.has_char(ih, '\n'):
        c.check(isinstance(ex, S.EncodingError), 'what key-value text cannot say is an encoding error')
        return
    c.check(ex is None and not signer.calls, 'a direct answer is sent as it is')
    c.check(w.code == (400 if kind == 'refuse' else 200), 'exactly errors have the error status')
    c.check(not w.headers, 'a direct answer is no redirect')
    c.check(c.eq({'openid.' + k: v for k, v in kvtext(c, w.body).items()}, f), 'a direct answer has exactly the fields of the response')


def h_unsupported(c):
    """A refusal worded by the application."""
    p = c.params
    S, M = c.mod('openid.server.server'), c.mod('openid.message')
    c.set_now(rp.NOW)
    server = S.Server(stores.make(c, 'mem'), rp.OP)
    r = server.decodeRequest({'openid.ns': rp.NS2, 'openid.mode': 'associate', 'openid.assoc_type': 'HMAC-SHA1', 'openid.session_type': 'no-encryption'})
    text = c.text('text', p['n'], 0, 'print')
    a = c.choice('atype', [None, '', 'HMAC-SHA256'])
    s = c.choice('stype', [None, '', 'DH-SHA256'])
    resp, ex = c.attempt(r.answerUnsupported, text, a, s)
    c.check(ex is None, 'an association can be refused')
    want = {'ns': rp.NS2, 'error_code': 'unsupported-type', 'error': text}
    if a:
        want['assoc_type'] = a
    if s:
        want['session_type'] = s
    w, ex = c.attempt(server.encodeResponse, resp)
    c.check(ex is None and w.code == 400 and not w.headers, 'exactly errors have the error status')
    c.check(c.eq(kvtext(c, w.body), want), 'the refusal says what is supported')


def h_error(c):
    """Protocol errors."""
    p = c.params
    ver = p['ver']
    S, M = c.mod('openid.server.server'), c.mod('openid.message')
    m = {}
    if NSS[ver] is not None:
        m['openid.ns'] = NSS[ver]
    rt = None
    if c.maybe('return_to'):
        rt = c.choice('address', ['http://rp/r', 'http://rp/r?a=b', 'https://x/', ''])
        m['openid.return_to'] = rt
    mode = None
    if c.maybe('mode'):
        mode = c.choice('modes', ['checkid_setup', 'checkid_immediate', 'check_authentication', 'associate', 'sym', ''])
        if mode == 'sym':
            mode = 'checkid_setu' + c.text('msym', 1, 0, 'a-z')
        m['openid.mode'] = mode
    text = c.text('text', p['n'], 0, p.get('chars', 'a +:'))
    if p.get('long') and rt:
        m2 = {'openid.mode': 'error', 'openid.error': 'x'}
        if ver == 2:
            m2['openid.ns'] = rp.NS2
        text = 'p' * (LIMIT - len(address(rt, m2)) - p['long']) + text
    con = c.choice('contact', [None, 'me@x'])
    ref = c.choice('reference', [None, 'r 1'])
    e = S.ProtocolError(M.Message.fromPostArgs(m), text, ref, con)
    want = {'openid.mode': 'error', 'openid.error': text}
    if ver == 2:
        want['openid.ns'] = rp.NS2
    if con:
        want['openid.contact'] = con
    if ref:
        want['openid.reference'] = ref
    w, ex = c.attempt(S.SigningEncoder(Signer(c)).encode, e)
    if rt is not None:
        c.check(ex is None, 'an error of a request with return address is sent there')
        check_delivery(c, w, rt, want, ver == 2)
        return
    direct = mode is not None and c.And(c.Not(c.eq(mode, '')), c.Not(c.eq(mode, 'checkid_setup')), c.Not(c.eq(mode, 'checkid_immediate')))
    if not direct:
        c.check(isinstance(ex, S.EncodingError), 'an error without return address is not sent anywhere')
        return
    if c.has_char(text, '\n'):
        c.check(isinstance(ex, S.EncodingError), 'what key-value text cannot say is an encoding error')
        return
    c.check(ex is None and w.code == 400 and not w.headers, 'an error of a direct request has the error status')
    c.check(c.eq({'openid.' + k: v for k, v in kvtext(c, w.body).items()}, want), 'the error says what was wrong')


def h_server(c):
    """The whole way of refused requests: only their own return address is used."""
    p = c.params
    S = c.mod('openid.server.server')
    c.set_now(rp.NOW)
    dhfake.install(c)
    server = S.Server(stores.make(c, 'mem'), rp.OP)
    q = {'openid.mode': c.choice('mode', ['checkid_setup', 'check_authentication', 'associate', 'x'])}
    ns = c.choice('ns', [None, rp.NS2, rp.NS11, 'bad'])
    if ns:
        q['openid.ns'] = ns
    for k, v in (('openid.realm', 'http://other/'), ('openid.trust_root', 'http://other/')):
        q[k] = v
    rt = None
    if c.maybe('return_to'):
        rt = q['openid.return_to'] = 'http://rp/r'
    if c.maybe('bad alias'):
        q['openid.ns.mode'] = 'x'
    q['return_to'] = 'http://evil/'
    if c.maybe('assoc type'):
        q['openid.assoc_type'], q['openid.session_type'] = c.text('atype', p['n'], 0, p.get('chars')), 'no-encryption'
    r, ex = c.attempt(server.decodeRequest, q)
    if ex is None:
        return
    c.check(isinstance(ex, S.ProtocolError), 'a bad request is a protocol error')
    w, ex2 = c.attempt(server.encodeResponse, ex)
    if rt is not None:
        c.check(ex2 is None and w.code == 302 and w.headers['location'].startswith(rt + '?'), 'an error is sent to the return address of the request')
        return
    c.check(ex2 is None or isinstance(ex2, S.EncodingError), 'an error can be sent or shown')
    if ex2 is None:
        c.check(w.code == 400 and not w.headers, 'an error of a direct request has the error status')
        c.check('error' in kvtext(c, w.body), 'the error says what was wrong')
    c.check(c.Iff(ex2 is None, q['openid.mode'] != 'checkid_setup'), 'exactly errors of direct requests are answered directly')


VERS = (1, 10, 11, 2)
KINDS = ('positive', 'immediate', 'cancel', 'setup')
HARNESSES = {
    'login': dict(fn=h_login, quick=[dict(ver=v, kind=k, n=1) for v in VERS for k in KINDS] + [dict(ver=v, kind=k, n=2, long=1) for v in (1, 2) for k in ('positive', 'cancel')] + [dict(ver=2, kind='setup', n=1, long=-1)],
                  thorough=[dict(ver=2, kind='positive', n=3, long=3, chars='print'), dict(ver=1, kind='positive', n=2, chars=None), dict(ver=2, kind='positive', n=2, long=300)], bounds='values of 1-2 (3) characters; URL lengths around the limit'),
    'signed': dict(fn=h_signed, quick=[dict(ver=v) for v in (1, 2)], bounds='all modes of up to 2 characters'),
    'direct': dict(fn=h_direct, quick=[dict(ver=v, kind=k, n=2) for v in (1, 2) for k in ('verify', 'associate', 'refuse')] + [dict(ver=11, kind='verify', n=1)], thorough=[dict(ver=2, kind='verify', n=4)], bounds='handles up to 2 (4) characters'),
    'unsupported': dict(fn=h_unsupported, quick=[dict(n=2)], thorough=[dict(n=4)], bounds='texts up to 2 (4) characters'),
    'error': dict(fn=h_error, quick=[dict(ver=v, n=1, chars=None if v == 2 else 'a +:\n') for v in VERS] + [dict(ver=v, n=2, long=1, chars='a ') for v in (1, 2)], thorough=[dict(ver=2, n=3, chars='print')], bounds='texts of 1-2 (3) characters, URL lengths around the limit'),
    'server': dict(fn=h_server, quick=[dict(n=1)], thorough=[dict(n=3)], bounds='all listed defects together; association types up to 1 (3) characters'),
}
