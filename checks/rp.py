"""Shared parts of the relying-party harnesses."""
from six.moves.urllib.parse import parse_qsl

from checks import fakes

NS2 = 'http://specs.openid.net/auth/2.0'
NS1 = 'http://openid.net/signon/1.0'
NS11 = 'http://openid.net/signon/1.1'
NOW = 1200000000
NONCE = '2008-01-10T21:20:00Zx'
T2, T11, T10 = 'http://specs.openid.net/auth/2.0/signon', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'
OP = 'http://op/'
RT = 'http://rp/r'
ID, LOCAL = 'http://id/', 'http://local/'
TYPES = [('HMAC-SHA1', 'sha1', 20), ('HMAC-SHA256', 'sha256', 32)]
REQ2 = ['return_to', 'assoc_handle', 'sig', 'signed', 'op_endpoint']
SIG2 = ['return_to', 'identity', 'response_nonce', 'claimed_id', 'assoc_handle', 'op_endpoint']
REQ1 = ['return_to', 'assoc_handle', 'sig', 'signed', 'identity']
SIG1 = ['return_to', 'identity']


def endpoint(c, ver=2, op=OP, claimed=ID, local=LOCAL, types=None):
    D = c.mod('openid.consumer.discover')
    e = D.OpenIDServiceEndpoint()
    e.type_uris = types or [T2 if ver == 2 else T11]
    e.server_url = op
    e.claimed_id = claimed
    e.local_id = local
    return e


def fields(ver, handle='h'):
    """Protocol fields of a positive assertion, without signature."""
    if ver == 2:
        return {'ns': NS2, 'mode': 'id_res', 'return_to': RT, 'identity': LOCAL, 'claimed_id': ID, 'op_endpoint': OP,
                'assoc_handle': handle, 'response_nonce': NONCE}
    f = {'mode': 'id_res', 'return_to': RT + '?janrain_nonce=' + NONCE.replace(':', '%3A') + '&openid1_claimed_id=http%3A%2F%2Fid%2F', 'identity': LOCAL,
         'assoc_handle': handle}
    return f


def query(ver, f):
    q = {'openid.' + k: v for k, v in f.items()}
    if ver == 1:
        q['janrain_nonce'] = NONCE
        q['openid1_claimed_id'] = ID
    return q


def base_string(f, signed):
    out = ''
    for k in signed.split(','):
        out = out + k + ':' + f.get(k, '') + '\n'
    return out.encode('utf-8')


def signature(c, assoc_type, secret, f, signed):
    alg = dict((t, a) for t, a, s in TYPES)[assoc_type]
    return c.b64(c.hmac(alg, secret, base_string(f, signed)))


def consumer(c, store, session_endpoint=None, discovered=None):
    """Consumer whose discovery answers from a function of the URL."""
    C = c.mod('openid.consumer.consumer')
    session = {}
    if session_endpoint is not None:
        session['_openid_consumer_last_token'] = session_endpoint
    con = C.Consumer(session, store)
    con.asked = []

    def disco(url):
        con.asked.append(url)
        if discovered is None:
            raise C.DiscoveryFailure('none', None)
        return discovered(url)
    con.consumer._discover = disco
    con._discover = disco
    return con


def kv(d):
    return ''.join('%s:%s\n' % (k, v) for k, v in d.items()).encode('utf-8')


def answer(c, status, body):
    return fakes.install(c, lambda url, b, h: fakes.Response(url, status, {}, body))


def posted(call):
    """Decoded body of a recorded POST."""
    b = call[1]
    return parse_qsl(b.decode('utf-8') if isinstance(b, bytes) else b, keep_blank_values=True)
