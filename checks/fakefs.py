"""File system for the file store.  Symbolic runs use a model (names and
contents symbolic); replays use real files in a scratch directory with the
same observation points."""
import errno
import os
import stat
import tempfile
import types

ROOT = '/symx-store'


class Crash(BaseException):
    """The process or machine stops here."""


def err(code):
    return OSError(code, os.strerror(code))


class Inode(object):
    def __init__(self):
        self.data = b''
        self.durable = 0


class FakeFile(object):
    """Binary file object with a user-space buffer, as open() returns."""

    def __init__(self, fs, fd, node, write, text=None, name=None, delete=False):
        self.fs, self.fd, self.node, self.write_mode, self.text = fs, fd, node, write, text
        self.name, self.delete = name, delete
        self.buf = b''
        self.pos = 0
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return self.fd

    def write(self, b):
        self.buf = self.buf + (b.encode(self.text) if self.text else b)
        return len(b)

    def read(self, n=-1):
        self.fs.step('read')
        d = self.node.data[self.pos:]
        if n is not None and n >= 0:
            d = d[:n]
        self.pos += len(d)
        return d.decode(self.text) if self.text else d

    def flush(self):
        if self.buf:
            self.fs.flush(self.node, self.buf)
            self.buf = b''

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True
            if self.delete:
                self.fs.unlink(self.name)


def encoding(mode, a, k):
    if 'b' in mode:
        return None
    return k.get('encoding') or (a[1] if len(a) > 1 and a[1] else 'utf-8')


class FakeFS(object):
    def __init__(self, c):
        self.c = c
        self.files = []          # [name, Inode]
        self.dirs = [ROOT]
        self.fds = {}
        self.hook = None
        self.tmp = 0
        self.touched = []

    # every operation is a step
    def step(self, what, *paths):
        for p in paths:
            self.touched.append((what, p))
        if self.hook is not None:
            self.hook(what)

    def find(self, name):
        for i, (n, node) in enumerate(self.files):
            if self.c.eq(n, name):
                return i
        return None

    def flush(self, node, data):
        hook = self.hook
        if hook is not None:
            n = hook('write', len(data))
            if n is not None:
                node.data = node.data + data[:n]
                raise Crash()
        node.data = node.data + data

    def makedirs(self, d, *a, **k):
        self.step('mkdir', d)
        if d in self.dirs:
            raise err(errno.EEXIST)
        self.dirs.append(d)

    def isdir(self, d):
        return d in self.dirs

    def listdir(self, d):
        self.step('list', d)
        out = []
        for n, node in self.files:
            i = n.rfind('/')
            if self.c.eq(n[:i], d):
                out.append(n[i + 1:])
        return out

    def exists(self, name):
        self.step('stat', name)
        return self.find(name) is not None or name in self.dirs

    def isfile(self, name):
        self.step('stat', name)
        return self.find(name) is not None

    def access(self, name, mode, *a, **k):
        return self.exists(name)

    def stat(self, name, *a, **k):
        self.step('stat', name)
        i = self.find(name)
        if i is None and name not in self.dirs:
            raise err(errno.ENOENT)
        t = self.c.now()
        return types.SimpleNamespace(st_size=0 if i is None else len(self.files[i][1].data), st_mode=stat.S_IFDIR | 0o700 if i is None else stat.S_IFREG | 0o600,
                                     st_mtime=t, st_ctime=t, st_atime=t)

    def getsize(self, name):
        return self.stat(name).st_size

    def namedtemp(self, mode='w+b', buffering=-1, encoding_=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
        fd, name = self.mkstemp(suffix, prefix, dir)
        return FakeFile(self, fd, self.fds[fd][0], True, encoding(mode, (), k), name, delete)

    def unlink(self, name, *a, **k):
        self.step('unlink', name)
        i = self.find(name)
        if i is None:
            raise err(errno.ENOENT)
        del self.files[i]

    def rename(self, a, b, *x, **k):
        self.step('rename', a, b)
        i = self.find(a)
        if i is None:
            raise err(errno.ENOENT)
        node = self.files[i][1]
        del self.files[i]
        j = self.find(b)
        if j is None:
            self.files.append([b, node])
        else:
            self.files[j][1] = node

    def link(self, a, b, *x, **k):
        self.step('link', a, b)
        i = self.find(a)
        if i is None:
            raise err(errno.ENOENT)
        if self.find(b) is not None:
            raise err(errno.EEXIST)
        self.files.append([b, self.files[i][1]])

    def newfd(self, node, flags):
        fd = 1000 + len(self.fds)
        self.fds[fd] = (node, flags)
        return fd

    def os_open(self, name, flags, mode=0o777, *a, **k):
        self.step('open', name)
        i = self.find(name)
        if i is not None:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST)
            node = self.files[i][1]
            if flags & os.O_TRUNC:
                node.data = b''
        else:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT)
            node = Inode()
            self.files.append([name, node])
        return self.newfd(node, flags)

    def os_close(self, fd):
        self.step('close')

    def os_write(self, fd, data):
        self.flush(self.fds[fd][0], data)
        return len(data)

    def fdopen(self, fd, mode='r', *a, **k):
        node, flags = self.fds[fd]
        return FakeFile(self, fd, node, 'w' in mode or 'a' in mode, encoding(mode, a, k))

    def fsync(self, fd):
        self.step('fsync')
        fd = fd if isinstance(fd, int) else fd.fileno()
        node = self.fds[fd][0]
        node.durable = len(node.data)

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.tmp += 1
        name = (dir or '/tmp') + '/' + (prefix or 'tmp') + 'x%d' % self.tmp + (suffix or '')
        self.step('open', name)
        node = Inode()
        self.files.append([name, node])
        return self.newfd(node, 0), name

    def open(self, name, mode='r', *a, **k):
        self.step('open', name)
        i = self.find(name)
        if 'r' in mode:
            if i is None:
                raise err(errno.ENOENT)
            node = self.files[i][1]
        elif 'x' in mode and i is not None:
            raise err(errno.EEXIST)
        elif i is None:
            node = Inode()
            self.files.append([name, node])
        else:
            node = self.files[i][1]
            if 'w' in mode:
                node.data = b''
                node.durable = 0
        f = FakeFile(self, self.newfd(node, 0), node, 'r' not in mode, encoding(mode, a, k), name)
        return f

    def put(self, name, data):
        i = self.find(name)
        self.files[i][1].data = data

    def power_loss(self, keep):
        """Data not synced may be lost: keep(n) says how much of n bytes."""
        for n, node in self.files:
            lost = len(node.data) - node.durable
            if lost > 0:
                node.data = node.data[:node.durable + keep(lost)]
                node.durable = len(node.data)

    def install(self):
        c = self.c
        for f, g in ((os.makedirs, self.makedirs), (os.mkdir, self.makedirs), (os.path.isdir, self.isdir), (os.listdir, self.listdir),
                     (os.path.exists, self.exists), (os.path.isfile, self.isfile), (os.path.lexists, self.exists),
                     (os.stat, self.stat), (os.lstat, self.stat), (os.access, self.access), (os.path.getsize, self.getsize), (tempfile.NamedTemporaryFile, self.namedtemp), (os.fdatasync, self.fsync), (os.unlink, self.unlink),
                     (os.remove, self.unlink), (os.rename, self.rename), (os.replace, self.rename), (os.link, self.link), (os.open, self.os_open),
                     (os.close, self.os_close), (os.write, self.os_write), (os.fdopen, self.fdopen), (os.fsync, self.fsync),
                     (tempfile.mkstemp, self.mkstemp), (open, self.open)):
            c.replace(f, g)


def inside(path, d):
    """Is the path a direct entry of directory d?"""
    i = path.rfind('/')
    return i >= 0 and path[:i] == d and path[i + 1:] not in ('', '.', '..')


class RealFS(object):
    """Real files below a scratch directory; operations outside are refused."""

    def __init__(self, c):
        import atexit
        import shutil
        self.c = c
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='symx-store-'))
        atexit.register(shutil.rmtree, self.root, True)
        self.hook = None
        self.touched = []
        self.durable = {}
        self.real = {}
        self.busy = False

    def step(self, what, *paths):
        for p in paths:
            self.touched.append((what, p))
        if self.hook is not None:
            self.hook(what)

    def contained(self, p):
        return isinstance(p, str) and os.path.normpath(os.path.join(self.root, p)).startswith(self.root)

    def wrap(self, what, f, npaths):
        def g(*a, **k):
            if self.busy:
                return f(*a, **k)
            ps = a[:npaths]
            if what == 'mkstemp':
                ps = (k.get('dir') or '',)
            mine = all(self.contained(p) for p in ps) if ps else True
            if ps and isinstance(ps[0], str) and not mine and (self.root in ps[0] or '..' in ps[0]):
                self.touched.append((what, ps[0]))
                raise err(errno.EACCES)
            if not mine:
                return f(*a, **k)
            if what == 'mkstemp':
                if self.hook is not None:
                    self.hook('open')
                r = self.quiet(f, *a, **k)
                self.touched.append(('open', r.name if hasattr(r, 'name') else r[1]))
                return RealFile(self, r) if hasattr(r, 'name') else r
            if what == 'isdir':
                return self.quiet(f, *a, **k)
            self.step(what, *ps)
            return self.quiet(f, *a, **k)
        return g

    def quiet(self, f, *a, **k):
        """The steps the library makes inside one of its calls do not count."""
        self.busy = True
        try:
            return f(*a, **k)
        finally:
            self.busy = False

    def fsync(self, fd):
        self.step('fsync')
        fd = fd if isinstance(fd, int) else fd.fileno()
        st = os.fstat(fd)
        self.durable[st.st_ino] = st.st_size

    def fdopen(self, fd, mode='r', *a, **k):
        return RealFile(self, self.real['fdopen'](fd, mode, *a, **k))

    def open(self, name, mode='r', *a, **k):
        if not self.busy and isinstance(name, str) and (self.root in name or '..' in name):
            self.touched.append(('open', name))
            if not self.contained(name):
                raise err(errno.EACCES)
            if self.hook is not None:
                self.hook('open')
            return RealFile(self, self.real['open'](name, mode, *a, **k))
        return self.real['open'](name, mode, *a, **k)

    def put(self, name, data):
        with self.real['open'](name, 'wb') as f:
            f.write(data)

    def power_loss(self, keep):
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                st = os.stat(p)
                dur = self.durable.get(st.st_ino, 0)
                if st.st_size > dur:
                    n = dur + keep(st.st_size - dur)
                    fd = self.real['os_open'](p, os.O_WRONLY)
                    os.ftruncate(fd, n)
                    self.real['os_close'](fd)
                    self.durable[st.st_ino] = n

    def install(self):
        c = self.c
        self.real = dict(fdopen=os.fdopen, open=open, os_open=os.open, os_close=os.close)
        for what, f, n in (('list', os.listdir, 1), ('unlink', os.unlink, 1), ('unlink', os.remove, 1),
                           ('rename', os.rename, 2), ('rename', os.replace, 2), ('link', os.link, 2), ('open', os.open, 1), ('stat', os.path.exists, 1),
                           ('mkstemp', tempfile.mkstemp, 0), ('close', os.close, 0), ('mkdir', os.makedirs, 1), ('mkdir', os.mkdir, 1), ('isdir', os.path.isdir, 1),
                           ('stat', os.path.isfile, 1), ('stat', os.path.lexists, 1), ('stat', os.stat, 1), ('stat', os.lstat, 1), ('stat', os.access, 1),
                           ('stat', os.path.getsize, 1), ('mkstemp', tempfile.NamedTemporaryFile, 0)):
            c.replace(f, self.wrap(what, f, n))
        c.replace(os.fsync, self.fsync)
        c.replace(os.fdatasync, self.fsync)
        c.replace(os.fdopen, self.fdopen)
        c.replace(open, self.open)


class RealFile(object):
    """Real file whose unflushed data is lost on a crash."""

    def __init__(self, fs, f):
        self.fs, self.f, self.buf = fs, f, b''

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self.f, n)

    def write(self, b):
        self.buf = self.buf + b if self.buf else b
        return len(b)

    def read(self, *a):
        self.fs.step('read')
        return self.f.read(*a)

    def flush(self):
        if self.buf:
            data, self.buf = self.buf, b''
            if self.fs.hook is not None:
                n = self.fs.hook('write', len(data))
                if n is not None:
                    self.f.write(data[:n])
                    self.f.flush()
                    raise Crash()
            self.f.write(data)
        self.f.flush()

    def close(self):
        if not self.f.closed:
            try:
                self.flush()
            finally:
                self.f.close()


def make(c):
    """A file system, installed; .root is the store's directory."""
    fs = FakeFS(c) if c.symbolic else RealFS(c)
    fs.install()
    if c.symbolic:
        fs.root = ROOT
    return fs
