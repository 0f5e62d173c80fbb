"""DB-API connection over a small SQL interpreter (the statements the stores
use and their obvious variants) on possibly symbolic values."""
import re

TOK = re.compile(r"\s*(%s|\?|<=|>=|<>|!=|=|<|>|\(|\)|,|;|\+|-|\*|'[^']*'|[A-Za-z_][A-Za-z_0-9]*|\d+)")


class Unsupported(Exception):
    pass


class SQLError(Exception):
    pass


class IntegrityError(SQLError):
    pass


class OperationalError(SQLError):
    pass


def tokens(sql):
    out, i = [], 0
    sql = sql.strip()
    while i < len(sql):
        m = TOK.match(sql, i)
        if m is None:
            raise Unsupported(sql)
        out.append(m.group(1))
        i = m.end()
    return [t for t in out if t != ';']


class Table(object):
    def __init__(self, cols, unique):
        self.cols, self.unique, self.rows = cols, unique, []


class Parser(object):
    def __init__(self, toks, args, sql):
        self.t, self.i, self.args, self.k, self.sql = toks, 0, list(args), 0, sql

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def word(self, *ws):
        """Consume the words if they come next."""
        for j, w in enumerate(ws):
            if self.i + j >= len(self.t) or self.t[self.i + j].upper() != w:
                return False
        self.i += len(ws)
        return True

    def need(self, *ws):
        if not self.word(*ws):
            raise Unsupported(self.sql)

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def column(self):
        if self.word('COUNT', '('):
            while not self.word(')'):
                self.next()
            return 'COUNT(*)'
        t = self.next()
        return int(t) if t.isdigit() else t

    def atom(self):
        t = self.next()
        if t in ('?', '%s'):
            v = self.args[self.k]
            self.k += 1
            return lambda row: v
        if t.isdigit():
            n = int(t)
            return lambda row: n
        if t.startswith("'"):
            s = t[1:-1]
            return lambda row: s
        if t == '(':
            e = self.expr()
            self.need(')')
            return e
        if t == '-':
            e = self.atom()
            return lambda row: -e(row)
        if re.match('[A-Za-z_]', t):
            return lambda row: row[t]
        raise Unsupported(self.sql)

    def expr(self):
        e = self.atom()
        while self.peek() in ('+', '-'):
            op, a, b = self.next(), e, self.atom()
            e = (lambda a, b: lambda row: a(row) + b(row))(a, b) if op == '+' else (lambda a, b: lambda row: a(row) - b(row))(a, b)
        return e

    def where(self, c):
        if not self.word('WHERE'):
            return lambda row: True
        return self.disj(c)

    def disj(self, c):
        cs = [self.conj(c)]
        while self.word('OR'):
            cs.append(self.conj(c))
        return lambda row: c.Or([f(row) for f in cs]) if len(cs) > 1 else cs[0](row)

    def conj(self, c):
        cs = [self.cond(c)]
        while self.word('AND'):
            cs.append(self.cond(c))
        return lambda row: c.And([f(row) for f in cs]) if len(cs) > 1 else cs[0](row)

    def cond(self, c):
        a = self.expr()
        op = self.next()
        b = self.expr()

        def f(row):
            x, y = a(row), b(row)
            if op in ('=', '=='):
                return c.eq(x, y)
            if op in ('<>', '!='):
                return c.Not(c.eq(x, y))
            if op == '<':
                return x < y
            if op == '<=':
                return x <= y
            if op == '>':
                return x > y
            if op == '>=':
                return x >= y
            raise Unsupported(op)
        return f


class Cursor(object):
    def __init__(self, conn):
        self.conn, self.result, self.rowcount = conn, [], -1

    def close(self):
        pass

    def fetchall(self):
        r, self.result = self.result, []
        return r

    def fetchone(self):
        return self.result.pop(0) if self.result else None

    def execute(self, sql, args=()):
        self.conn.step(sql)
        c, tabs = self.conn.c, self.conn.tables
        p = Parser(tokens(sql), args, sql)
        self.rowcount, self.result = -1, []
        if p.word('CREATE', 'TABLE'):
            p.word('IF', 'NOT', 'EXISTS')
            name = p.next()
            p.need('(')
            cols, unique, depth = [], [], 0
            while True:
                if p.word('UNIQUE') or p.word('PRIMARY', 'KEY'):
                    p.need('(')
                    us = []
                    while not p.word(')'):
                        t = p.next()
                        if t == '(':            # key prefix length: name(255)
                            p.next()
                            p.need(')')
                        elif t != ',':
                            us.append(t)
                    unique.append(us)
                elif p.word('CONSTRAINT'):
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        t = p.next()
                        depth += (t == '(') - (t == ')')
                else:
                    cols.append(p.next())
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        if p.word('PRIMARY', 'KEY') or p.word('UNIQUE'):
                            unique.append([cols[-1]])
                            continue
                        t = p.next()
                        depth += (t == '(') - (t == ')')
                if p.next() == ')':
                    break
            tabs[name] = Table(cols, unique)
            return
        if p.word('INSERT', 'OR', 'REPLACE', 'INTO') or p.word('REPLACE', 'INTO'):
            return self.insert(p, 'replace')
        if p.word('INSERT', 'OR', 'IGNORE', 'INTO'):
            return self.insert(p, 'ignore')
        if p.word('INSERT', 'INTO'):
            return self.insert(p, 'fail')
        if p.word('SELECT'):
            p.word('DISTINCT')
            cols = [p.column()]
            while p.word(','):
                cols.append(p.column())
            p.need('FROM')
            t = self.table(p)
            w = p.where(c)
            rows = [r for r in t.rows if w(r)]
            if p.word('ORDER', 'BY'):
                e = p.expr()
                desc = p.word('DESC')
                p.word('ASC')
                rows = sorted(rows, key=e, reverse=desc)
            if p.word('LIMIT'):
                rows = rows[:p.atom()(None)]
            self.done(p)
            if cols == ['COUNT(*)']:
                self.result = [(len(rows),)]
                return
            self.result = [tuple(r[k] if isinstance(k, str) else k for k in (t.cols if cols == ['*'] else cols)) for r in rows]
            return
        if p.word('DELETE', 'FROM'):
            t = self.table(p)
            w = p.where(c)
            self.done(p)
            keep = [r for r in t.rows if not w(r)]
            self.rowcount = len(t.rows) - len(keep)
            t.rows = keep
            return
        if p.word('UPDATE'):
            t = self.table(p)
            p.need('SET')
            sets = []
            while True:
                k = p.next()
                p.need('=')
                sets.append((k, p.expr()))
                if not p.word(','):
                    break
            w = p.where(c)
            self.done(p)
            n = 0
            for r in t.rows:
                if w(r):
                    n += 1
                    for k, e in sets:
                        r[k] = e(r)
            self.rowcount = n
            return
        raise Unsupported(sql)

    def table(self, p):
        n = p.next()
        if n not in self.conn.tables:
            raise OperationalError('no such table: %s' % n)
        return self.conn.tables[n]

    def done(self, p):
        if p.peek() is not None:
            raise Unsupported(p.sql)

    def insert(self, p, how):
        c = self.conn.c
        t = self.table(p)
        cols = t.cols
        if p.word('('):
            cols = [p.next()]
            while p.word(','):
                cols.append(p.next())
            p.need(')')
        p.need('VALUES')
        p.need('(')
        vals = [p.expr()]
        while p.word(','):
            vals.append(p.expr())
        p.need(')')
        self.done(p)
        row = {}
        for k in t.cols:
            row[k] = None
        for k, v in zip(cols, vals):
            row[k] = v(None)
        clash = [r for r in t.rows if any(bool(c.And([c.eq(r[k], row[k]) for k in u])) for u in t.unique)]
        if clash and how == 'fail':
            raise IntegrityError('UNIQUE constraint failed')
        if clash and how == 'ignore':
            self.rowcount = 0
            return
        t.rows = [r for r in t.rows if not any(r is x for x in clash)]
        t.rows.append(row)
        self.rowcount = 1


class Database(object):
    """State shared by the connections; `hook` runs before every statement
    outside a write transaction (a write locks the others out until commit)."""

    def __init__(self, c):
        self.c, self.tables, self.saved, self.hook = c, {}, {}, None

    def connect(self):
        return Connection(self.c, self)

    def snapshot(self):
        out = {}
        for n, t in self.tables.items():
            u = Table(t.cols, t.unique)
            u.rows = [dict(r) for r in t.rows]
            out[n] = u
        return out


class Connection(object):
    IntegrityError = IntegrityError
    OperationalError = OperationalError

    def __init__(self, c, db=None):
        self.c, self.db, self.wrote = c, db or Database(c), False

    @property
    def tables(self):
        return self.db.tables

    def step(self, sql):
        if self.db.hook is not None and not self.wrote:
            self.db.hook('sql')
        if not sql.strip().upper().startswith('SELECT'):
            self.wrote = True

    def cursor(self):
        return Cursor(self)

    def commit(self):
        self.db.saved = self.db.snapshot()
        self.wrote = False

    def rollback(self):
        if self.wrote:
            self.db.tables = self.db.saved
            self.db.saved = self.db.snapshot()
        self.wrote = False

    def close(self):
        self.rollback()

    def execute(self, sql, args=()):
        cur = self.cursor()
        cur.execute(sql, args)
        return cur


class RealDatabase(object):
    """A scratch SQLite file with the same observation points."""

    def __init__(self):
        import atexit
        import shutil
        import tempfile
        self.dir = tempfile.mkdtemp(prefix='symx-sql-')
        atexit.register(shutil.rmtree, self.dir, True)
        self.hook = None

    def connect(self):
        import sqlite3
        return RealConnection(self, sqlite3.connect(self.dir + '/db', check_same_thread=False))


class RealConnection(object):
    def __init__(self, db, conn):
        self.db, self.conn = db, conn

    def __getattr__(self, n):
        return getattr(self.conn, n)

    def cursor(self):
        return RealCursor(self, self.conn.cursor())


class RealCursor(object):
    def __init__(self, conn, cur):
        self.conn, self.cur = conn, cur

    def __getattr__(self, n):
        return getattr(self.cur, n)

    def execute(self, *a):
        if self.conn.db.hook is not None and not self.conn.conn.in_transaction:
            self.conn.db.hook('sql')
        return self.cur.execute(*a)


def database(c):
    return Database(c) if c.symbolic else RealDatabase()


def sqlite(c):
    if c.symbolic:
        return Connection(c)
    import sqlite3
    return sqlite3.connect(':memory:')
