# A database backend for the real Django ORM: tables of rows in memory behind
# a small SQL interpreter, with one transaction per connection.  The simulator
# decides which statement fails and how (see `Server.hook`).
import re

from django.db.backends.base.base import BaseDatabaseWrapper
from django.db.backends.base.client import BaseDatabaseClient
from django.db.backends.base.creation import BaseDatabaseCreation
from django.db.backends.base.features import BaseDatabaseFeatures
from django.db.backends.base.introspection import BaseDatabaseIntrospection
from django.db.backends.base.operations import BaseDatabaseOperations
from django.db.backends.base.validation import BaseDatabaseValidation


class Database(object):
    """The PEP-249 module as Django sees it."""
    class Error(Exception):
        pass

    class InterfaceError(Error):
        pass

    class DatabaseError(Error):
        pass

    class DataError(DatabaseError):
        pass

    class OperationalError(DatabaseError):
        pass

    class IntegrityError(DatabaseError):
        pass

    class InternalError(DatabaseError):
        pass

    class ProgrammingError(DatabaseError):
        pass

    class NotSupportedError(DatabaseError):
        pass


class Server(object):
    """The database server: survives connections; committed rows only."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.tables = {}        # name -> list of dicts (insertion order)
        self.serial = {}
        self.log = []           # statements that were executed
        self.hook = None        # called before every statement, may raise
        self.pks = {}           # table -> auto primary key column

    def rows(self, table):
        return self.tables.setdefault(table, [])

    def snapshot(self):
        return dict((t, [dict(r) for r in rows])
                    for t, rows in self.tables.items())

    def insert(self, table, row):
        pk = self.pks.get(table)
        if pk is not None and row.get(pk) is None:
            row[pk] = self.serial.get(table, 0) + 1
        if pk is not None:
            self.serial[table] = max(self.serial.get(table, 0), row[pk])
            for r in self.rows(table):
                if r[pk] == row[pk]:
                    raise Database.IntegrityError('duplicate key')
        self.rows(table).append(row)
        return row.get(pk)


SERVER = Server()

_Q = r'"(\w+)"'
_COL = r'"?(\w+)"?\."(\w+)"'


class Cursor(object):
    def __init__(self, conn):
        self.conn = conn
        self.result = []
        self.rowcount = -1
        self.lastrowid = None
        self.arraysize = 100

    def close(self):
        pass

    def execute(self, sql, params=()):
        s = self.conn.server
        if self.conn.broken:
            raise Database.OperationalError('server closed the connection')
        if s.hook is not None:
            s.hook(self.conn, sql, params)
        self.result = []
        self.conn.touch(sql)
        self._run(sql, list(params or ()))
        s.log.append((sql, tuple(params or ()), list(self.result)))

    def _run(self, sql, params):
        m = re.match(r'SELECT (.*?) FROM (.*)$', sql)
        if m:
            return self._select(m.group(1), m.group(2), params,)
        m = re.match(r'INSERT INTO %s \((.*?)\) VALUES (.*)$' % _Q, sql)
        if m:
            cols = re.findall(_Q, m.group(2))
            n = m.group(3).count('(')
            for i in range(n):
                row = dict(zip(cols, params[i * len(cols):]))
                self.lastrowid = self.conn.server.insert(m.group(1), row)
            self.rowcount = n
            return
        if re.match(r'INSERT INTO %s DEFAULT VALUES' % _Q, sql):
            t = re.match(r'INSERT INTO %s' % _Q, sql).group(1)
            self.lastrowid = self.conn.server.insert(t, {})
            return
        m = re.match(r'DELETE FROM %s(?: WHERE (.*))?$' % _Q, sql)
        if m:
            rows = self.conn.server.rows(m.group(1))
            f = self._where(m.group(2), params)
            keep = [r for r in rows if not f({m.group(1): r})]
            self.rowcount = len(rows) - len(keep)
            rows[:] = keep
            return
        m = re.match(r'UPDATE %s SET (.*?)(?: WHERE (.*))?$' % _Q, sql)
        if m:
            cols = re.findall(r'"(\w+)" = %s', m.group(2))
            vals = dict(zip(cols, params))
            f = self._where(m.group(3), params[len(cols):])
            self.rowcount = 0
            for r in self.conn.server.rows(m.group(1)):
                if f({m.group(1): r}):
                    r.update(vals)
                    self.rowcount += 1
            return
        raise Database.NotSupportedError('simdb: ' + sql)

    def _where(self, text, params):
        """A predicate over {table: row}; consumes `params` in order."""
        if not text:
            return lambda env: True
        text = text.strip()
        tests = []
        pos = [0]

        def param():
            pos[0] += 1
            return params[pos[0] - 1]
        if text.startswith('(') and text.endswith(')') and \
                ' AND ' in text:
            text = text[1:-1]
        for part in text.split(' AND '):
            part = part.strip()
            while part.startswith('(') and part.endswith(')'):
                part = part[1:-1]
            m = re.match(r'(?:"?(\w+)"?\.)?"(\w+)" (?:IN \((.*)\)|(=) %s|'
                         r'(IS NULL))$', part)
            if not m:
                raise Database.NotSupportedError('simdb: ' + text)
            t, c = m.group(1), m.group(2)
            if m.group(4):
                vals = [param()]
            elif m.group(5):
                vals = [None]
            else:
                vals = [param() for _ in range(m.group(3).count('%s'))]
            tests.append((t, c, vals))

        def ok(env):
            for t, c, vals in tests:
                row = env[t] if t else env.values()[0]
                v = row.get(c)
                if not any(_same(v, x) for x in vals):
                    return False
            return True
        ok.used = pos
        return ok

    def _select(self, what, rest, params):
        s = self.conn.server
        limit = None
        m = re.match(r'(.*) LIMIT (\d+)$', rest)
        if m:
            rest, limit = m.group(1), int(m.group(2))
        order = []
        m = re.match(r'(.*) ORDER BY (.*)$', rest)
        if m:
            rest = m.group(1)
            order = re.findall(_COL + r' (ASC|DESC)', m.group(2))
        where = None
        m = re.match(r'(.*?) WHERE (.*)$', rest)
        if m:
            rest, where = m.group(1), m.group(2)
        table = re.match(_Q, rest).group(1)
        envs = [{table: r} for r in s.rows(table)]
        joins = re.findall(r'(INNER|LEFT OUTER) JOIN %s(?: (T\d+))? '
                           r'ON \( %s = %s \)' % (_Q, _COL, _COL), rest)
        if rest.count('JOIN') != len(joins):
            raise Database.NotSupportedError('simdb: ' + rest)
        for kind, t2, as_, ta, ca, tb, cb in joins:
            out = []
            for env in envs:
                hit = False
                for r in s.rows(t2):
                    e = dict(env)
                    e[as_ or t2] = r
                    if _same(e[ta].get(ca), e[tb].get(cb)):
                        out.append(e)
                        hit = True
                if not hit and kind != 'INNER':
                    e = dict(env)
                    e[as_ or t2] = {}
                    out.append(e)
            envs = out
        f = self._where(where, params)
        envs = [e for e in envs if f(e)]
        for t, c, way in reversed(order):
            envs.sort(key=lambda e: e[t].get(c), reverse=(way == 'DESC'))
        if limit is not None:
            envs = envs[:limit]
        if what.startswith('COUNT('):
            self.result = [(len(envs),)]
            return
        cols = re.findall(_COL, what)
        if what.startswith('(1)'):
            self.result = [(1,) for e in envs]
        else:
            self.result = [tuple(e[t].get(c) for t, c in cols) for e in envs]

    def executemany(self, sql, many):
        for p in many:
            self.execute(sql, p)

    def fetchone(self):
        return self.result.pop(0) if self.result else None

    def fetchmany(self, size=None):
        size = size or self.arraysize
        if self.conn.server.hook is not None:
            self.conn.server.hook(self.conn, 'FETCH', ())
        out, self.result = self.result[:size], self.result[size:]
        return out

    def fetchall(self):
        out, self.result = self.result, []
        return out


def _same(a, b):
    if a is None or b is None:
        return a is b
    try:
        return a == b or (
            isinstance(a, (int, long)) and isinstance(b, basestring) and
            str(a) == b)
    except Exception:
        return False


class Connection(object):
    def __init__(self, server):
        self.server = server
        self.auto = True
        self.before = None      # committed tables while in a transaction
        self.broken = False

    def touch(self, sql):
        if not self.auto and self.before is None:
            self.before = self.server.snapshot()

    def commit(self):
        if self.broken:
            raise Database.OperationalError('server closed the connection')
        if self.server.hook is not None and self.before is not None:
            self.server.hook(self, 'COMMIT', ())
        self.before = None

    def rollback(self):
        if self.before is not None:
            self.server.tables = self.before
            self.before = None
        if self.broken:
            raise Database.OperationalError('server closed the connection')

    def drop(self):
        """The connection is lost: the server rolls back."""
        if self.before is not None:
            self.server.tables = self.before
            self.before = None
        self.broken = True

    def close(self):
        if self.before is not None:
            self.server.tables = self.before
            self.before = None
        self.broken = True

    def cursor(self):
        if self.broken:
            raise Database.OperationalError('server closed the connection')
        return Cursor(self)


class DatabaseFeatures(BaseDatabaseFeatures):
    uses_savepoints = False
    has_bulk_insert = True
    supports_transactions = True
    can_return_id_from_insert = False
    autocommits_when_autocommit_is_off = False


class DatabaseOperations(BaseDatabaseOperations):
    def quote_name(self, name):
        return name if name.startswith('"') else '"%s"' % name

    def bulk_insert_sql(self, fields, num_values):
        return 'VALUES ' + ', '.join(
            ['(' + ', '.join(['%s'] * len(fields)) + ')'] * num_values)

    def no_limit_value(self):
        return None

    def last_insert_id(self, cursor, table_name, pk_name):
        return cursor.lastrowid

    def value_to_db_date(self, value):
        return value

    def value_to_db_datetime(self, value):
        return value

    def value_to_db_time(self, value):
        return value


class DatabaseWrapper(BaseDatabaseWrapper):
    vendor = 'simdb'
    Database = Database
    operators = {'exact': '= %s', 'iexact': '= %s'}

    def __init__(self, *args, **kwargs):
        super(DatabaseWrapper, self).__init__(*args, **kwargs)
        self.features = DatabaseFeatures(self)
        self.ops = DatabaseOperations(self)
        self.client = BaseDatabaseClient(self)
        self.creation = BaseDatabaseCreation(self)
        self.introspection = BaseDatabaseIntrospection(self)
        self.validation = BaseDatabaseValidation(self)

    def get_connection_params(self):
        return {}

    def get_new_connection(self, params):
        if SERVER.hook is not None:
            SERVER.hook(None, 'CONNECT', ())
        return Connection(SERVER)

    def init_connection_state(self):
        pass

    def create_cursor(self):
        return self.connection.cursor()

    def _set_autocommit(self, autocommit):
        self.connection.auto = autocommit
        if autocommit:
            self.connection.before = None

    def is_usable(self):
        return not self.connection.broken

    def schema_editor(self, *args, **kwargs):
        raise NotImplementedError
