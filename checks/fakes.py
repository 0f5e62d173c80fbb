"""Stand-ins shared by harnesses (run instrumented and unmodified)."""
from lxml import etree

XRD = 'xri://$xrd*($v*2.0)'
XRDS = 'xri://$xrds'
OPENID1 = 'http://openid.net/xmlns/1.0'


class Response(object):
    def __init__(self, final_url, status, headers, body):
        self.final_url, self.status, self.headers, self.body = final_url, status, headers, body


class Fetcher(object):
    """Answers from a function of (url, body, headers); records the calls."""

    def __init__(self, answer):
        self.answer = answer
        self.calls = []

    def fetch(self, url, body=None, headers=None):
        self.calls.append((url, body))
        return self.answer(url, body, headers)


def install(c, answer):
    F = c.mod('openid.fetchers')
    f = Fetcher(answer)
    F.setDefaultFetcher(f)
    return f


def el(parent, tag, text=None, ns=XRD, **attrs):
    e = etree.SubElement(parent, '{%s}%s' % (ns, tag))
    if text is not None:
        e.text = text
    for k, v in attrs.items():
        if v is not None:
            e.set(k, v)
    return e


def xrds():
    return etree.Element('{%s}XRDS' % XRDS)


def service(xrd, types, uris, priority=None, local=None, delegate=None):
    """types: list of text, uris: list of text or (text, priority)"""
    s = el(xrd, 'Service', priority=priority)
    for t in types:
        el(s, 'Type', t)
    for u in uris:
        if isinstance(u, tuple):
            el(s, 'URI', u[0], priority=u[1])
        else:
            el(s, 'URI', u)
    for l in local or []:
        el(s, 'LocalID', l)
    for d in delegate or []:
        el(s, 'Delegate', d, ns=OPENID1)
    return s
