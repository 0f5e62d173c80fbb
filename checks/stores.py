"""The stores under test."""
import sys
import types
from checks import fakefs, fakesql


def make(c, kind):
    if kind == 'mem':
        return c.mod('openid.store.memstore').MemoryStore()
    if kind == 'file':
        fs = fakefs.make(c)
        s = c.mod('openid.store.filestore').FileOpenIDStore(fs.root)
        s.symx_fs = fs
        return s
    Q = c.mod('openid.store.sqlstore')
    if kind == 'sqlite':
        s = Q.SQLiteStore(fakesql.sqlite(c))
    elif kind == 'mysql':
        s = Q.MySQLStore(fakesql.Connection(c))
    else:
        if 'psycopg2' not in sys.modules:
            m = types.ModuleType('psycopg2')
            m.Binary = lambda b: b
            sys.modules['psycopg2'] = m
        s = Q.PostgreSQLStore(fakesql.Connection(c))
    s.createTables()
    return s
