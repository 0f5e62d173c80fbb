"""A stand-in for the key agreement of the cryptography library.

Public keys are concrete numbers; the agreed value is symbolic, with the
fixed length the library uses.  The arithmetic modulo p is not modelled:
the only assumption is that both sides agree on the same value.
"""


class Group(object):
    def __init__(self, c, n=3):
        self.c, self.n = c, n
        self.keys, self.exchanges, self.bad = [], [], None
        self.params = []
        self.shared = None

    def secret(self):
        if self.shared is None:
            self.shared = self.c.bytes('shared', self.n)
        return self.shared


class Numbers(object):
    """DHParameterNumbers"""
    group = None

    def __init__(self, p, g, q=None):
        if g < 2:
            raise ValueError('DH generator must be 2 or greater')
        self.p, self.g = p, g
        self.group.params.append((p, g))

    def parameters(self, backend=None):
        return self

    def generate_private_key(self):
        return Private(self.group)


class Private(object):
    def __init__(self, group):
        self.group = group
        self.y = 1000003 + len(group.keys)
        group.keys.append(self.y)

    def public_key(self):
        return self

    def public_numbers(self):
        return self

    def exchange(self, other):
        if self.group.bad:
            raise ValueError(self.group.bad)
        self.group.exchanges.append((self.y, other.y))
        return self.group.secret()


class Public(object):
    """DHPublicNumbers"""

    def __init__(self, y, numbers):
        self.y, self.numbers = y, numbers

    def public_key(self, backend=None):
        return self


def install(c, n=3):
    from cryptography.hazmat.primitives.asymmetric import dh
    g = Group(c, n)
    num = type(str('Numbers'), (Numbers,), {'group': g})
    c.replace(dh.DHParameterNumbers, num)
    c.replace(dh.DHPublicNumbers, Public)
    return g


def btwoc(c, b):
    """Shortest two's complement form of the non-negative number."""

    while len(b) > 1 and b[0] == 0:
        b = b[1:]
    if b[0] > 127:
        b = b'\0' + b
    return b
