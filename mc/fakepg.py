"""A small PostgreSQL: what dp/server sees of its database, under the explorer's control.

The real code runs unchanged against `connect()`, `Connection` and `Cursor` (the psycopg2 interface).  Statements are evaluated
by sqlite on a snapshot (committed rows plus the transaction's own), translated from PostgreSQL's dialect; transactions,
row locks, read-committed re-checks, SKIP LOCKED, unique keys, aborted transactions, savepoints and LISTEN/NOTIFY are modelled here.
Every statement is a scheduling point, a crash point and a place where a failure can be injected.
"""
import functools
import json
import re
import sqlite3
from decimal import Decimal

import psycopg2
import psycopg2.errors as pge

CHANNEL = 'dp_queue_update'

QUEUE = ['id', 'priority', 'student_id', 'area_catalog', 'area_code', 'input_data', 'run', 'expires_at', 'link_only', 'ts']
RESULT = ['id', 'student_id', 'area_code', 'catalog', 'run', 'input_data', 'expires_at', 'link_only', 'result_version', 'iterations', 'duration',
          'per_iteration', 'rank', 'max_rank', 'result', 'ok', 'ts', 'gpa', 'claimed_courses', 'status', 'is_active', 'revision',
          'student_classification', 'student_class', 'student_name', 'student_name_sort']
SCHEMA = {
    'queue': dict(cols=QUEUE, unique=[('student_id', 'area_code')], json={'input_data'}, default={'priority': 1, 'link_only': 0},
                  not_null=['student_id', 'area_catalog', 'area_code', 'input_data']),
    'result': dict(cols=RESULT, unique=[], json={'input_data', 'result', 'claimed_courses'}, default={'link_only': 0, 'is_active': 1},
                   not_null=['student_id', 'area_code', 'catalog', 'input_data', 'result', 'revision']),
    'queue_block': dict(cols=['id', 'student_id', 'area_code', 'added_by', 'added_at'], unique=[], json=set(), default={}, not_null=[]),
    'potential_clbids': dict(cols=['id', 'result_id', 'clause_hash', 'clbid'], unique=[], json=set(), default={}, not_null=[]),
}
BOOLS = {'link_only', 'is_active', 'ok'}


def pg_key_order(x):
    if isinstance(x, dict):
        return {k: pg_key_order(x[k]) for k in sorted(x, key=lambda k: (len(k.encode()), k.encode()))}
    if isinstance(x, list):
        return [pg_key_order(v) for v in x]
    return x


class NotJson(Exception):
    pass


@functools.lru_cache(maxsize=4096)
def jsonb(text):
    if text is None:
        return None

    def bad(c):
        raise NotJson(c)

    def num(s):
        # jsonb keeps numerics; 1.0 and 1 are equal
        d = Decimal(s)
        return int(d) if d == d.to_integral_value() else float(d)
    try:
        v = json.loads(text, parse_constant=bad, parse_float=num)
    except (ValueError, TypeError) as e:
        raise NotJson(str(e))
    out = json.dumps(pg_key_order(v))
    if '\\u0000' in out:
        raise NotJson('unsupported Unicode escape sequence')
    return out


class Crash(BaseException):
    """the process is killed here"""


class Stop(BaseException):
    """the simulation is over"""


def translate(sql):
    s = re.sub(r'--[^\n]*', ' ', sql)
    s = s.strip().rstrip(';').strip()
    lock = None
    m = re.search(r'\bFOR\s+(NO\s+KEY\s+)?UPDATE(\s+OF\s+\w+)?(\s+SKIP\s+LOCKED|\s+NOWAIT)?', s, re.I)
    if m:
        lock = re.sub(r'\s+', ' ', m.group(3) or '').strip().lower() or 'wait'
        s = s[:m.start()] + ' ' + s[m.end():]
    atom = r"(%\(\w+\)s|%s|'[^']*'|\w+)"
    s = re.sub(atom + r'\s*::\s*jsonb\b', r'jsonb_(\1)', s, flags=re.I)
    s = re.sub(r'\bcast\s*\(\s*' + atom + r'\s+as\s+jsonb\s*\)', r'jsonb_(\1)', s, flags=re.I)
    s = re.sub(r'\bcast\s*\(\s*' + atom + r'\s+as\s+\w+\s*\)', r'\1', s, flags=re.I)
    s = re.sub(r'::\s*\w+(\[\])?', '', s)
    s = re.sub(r'\bat\s+time\s+zone\s+\'[^\']*\'', '', s, flags=re.I)
    s = re.sub(r'\binterval\s+(?=%|\')', '', s, flags=re.I)
    s = re.sub(r'\bpublic\.', '', s, flags=re.I)
    s = re.sub(r'\b(CURRENT_TIMESTAMP|LOCALTIMESTAMP)\b', 'now()', s, flags=re.I)
    s = re.sub(r'\bgreatest\s*\(', 'max(', s, flags=re.I)
    s = re.sub(r'\b(DELETE\s+FROM|UPDATE)\s+(\w+)\s+(?!WHERE\b|SET\b|AS\b|RETURNING\b|USING\b)(\w+)', r'\1 \2 AS \3', s, flags=re.I)
    s = re.sub(r'=\s*ANY\s*\(\s*(%\(\w+\)s|%s)\s*\)', r'IN (SELECT value FROM json_each(\1))', s, flags=re.I)
    s = re.sub(r'%\((\w+)\)s', r':\1', s)
    s = re.sub(r'%s', '?', s)
    s = s.replace('%%', '%')
    return s, lock


_translated = {}


class Row(tuple):
    names = ()

    def __getitem__(self, k):
        return tuple.__getitem__(self, self.names.index(k) if isinstance(k, str) else k)

    def get(self, k, d=None):
        return self[k] if k in self.names else d

    def keys(self):
        return list(self.names)

    def __contains__(self, k):
        return k in self.names if isinstance(k, str) else tuple.__contains__(self, k)


def row_class(names):
    return type('Row', (Row,), {'names': tuple(names)})


class Tx:
    def __init__(self, conn, start):
        self.conn = conn
        self.start = start
        self.rows = {}          # (table, id) -> row or None: written, not yet committed
        self.locks = set()      # (table, id) locked by SELECT .. FOR UPDATE
        self.savepoints = []
        self.failed = False
        self.explicit = False
        self.notify = False
        self.notes = []         # what the statements of this transaction did, for the monitors

    def held(self):
        return self.locks | set(self.rows)

    def abort(self):
        """an error: what the innermost savepoint saw is all that is kept, and locked, until it is rolled back"""
        self.failed = True
        if self.savepoints:
            _n, rows, locks, notify, notes = self.savepoints[-1]
            self.rows, self.locks, self.notify, self.notes = dict(rows), set(locks), notify, list(notes)
        else:
            self.rows, self.locks, self.notify, self.notes = {}, set(), False, []


class Server:
    def __init__(self, sim, schema=SCHEMA):
        self.sim = sim
        self.schema = schema
        self.data = {t: {} for t in schema}
        self.next_id = {t: 1 for t in schema}
        self.clock = 1000
        self.txs = []
        self.conns = []
        self.changes = 0
        self.on_commit = []     # monitors: f(server, tx, {table: {id: (old, new)}})
        self.on_write = []      # monitors: f(server, conn, verb, changed, before view, locked-by-others)
        self.fail = None        # f(conn, verb, table, params) -> Exception or None
        self.log = []
        self.waits = []
        db = self.db = sqlite3.connect(':memory:', check_same_thread=False, isolation_level=None)
        db.create_function('jsonb_', 1, self._jsonb, deterministic=True)
        db.create_function('now', 0, lambda: self._now)
        db.create_function('clock_timestamp', 0, self.tick)
        self._now = 0
        self._error = None
        for t, s in schema.items():
            cols = ', '.join('id INTEGER PRIMARY KEY' if c == 'id' else f'"{c}"' for c in s['cols'])
            db.execute(f'CREATE TABLE {t} ({cols})')
            for u in s['unique']:
                db.execute(f'CREATE UNIQUE INDEX u_{t} ON {t} ({", ".join(u)})')

    def tick(self):
        self.clock += 1
        return self.clock

    def _jsonb(self, text):
        try:
            return jsonb(text)
        except NotJson as e:
            self._error = pge.InvalidTextRepresentation(f'invalid input syntax for type json: {e}')
            raise

    def seed(self, table, **row):
        s = self.schema[table]
        full = {c: s['default'].get(c) for c in s['cols']}
        full.update(row)
        for c in s['json']:
            full[c] = jsonb(full[c])
        full['id'] = self.next_id[table]
        self.next_id[table] += 1
        if 'ts' in full and full['ts'] is None:
            full['ts'] = self.tick()
        self.data[table][full['id']] = full
        return full['id']

    def view(self, tx, snap=None):
        data = snap or self.data
        out = {t: dict(rows) for t, rows in data.items()}
        for (t, i), row in tx.rows.items():
            if row is None:
                out[t].pop(i, None)
            else:
                out[t][i] = row
        return out

    def locked_by_others(self, tx):
        out = {}
        for o in self.txs:
            if o is not tx:
                for k in o.held():
                    out[k] = o
        return out

    # -- one statement, evaluated by sqlite on a view --------------------------------------------
    def evaluate(self, tx, sql, lock, params, view, tables):
        db = self.db
        loaded = {}
        for t in tables:
            cols = self.schema[t]['cols']
            db.execute(f'DELETE FROM {t}')
            loaded[t] = view[t]
            if view[t]:
                db.executemany(f'INSERT INTO {t} VALUES ({",".join("?" * len(cols))})', [tuple(r[c] for c in cols) for r in view[t].values()])
        self._now = tx.start
        self._error = None
        if isinstance(params, dict):
            names = set(re.findall(r'(?<![:\w]):(\w+)', sql))
            bound = {k: self.bind(params[k]) for k in names}
        else:
            bound = [self.bind(p) for p in params or ()]
        try:
            cur = db.execute(sql, bound)
            rows = cur.fetchall()
            names = [d[0] for d in cur.description] if cur.description else None
        except sqlite3.IntegrityError as e:
            raise pge.UniqueViolation(str(e))
        except sqlite3.Error as e:
            if self._error:
                raise self._error
            raise pge.SyntaxError(f'{e}: {sql[:200]}')
        changed = {}
        for t in tables:
            cols = self.schema[t]['cols']
            now = {r[0]: dict(zip(cols, r)) for r in db.execute(f'SELECT {",".join(cols)} FROM {t}')}
            for i in loaded[t].keys() | now.keys():
                if loaded[t].get(i) != now.get(i):
                    changed[t, i] = now.get(i)
        return rows, names, changed

    def bind(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, str):
            if v[:1] in '{[':
                try:
                    return jsonb(v)
                except NotJson:
                    return v
            if '\0' in v:
                raise ValueError('A string literal cannot contain NUL (0x00) characters.')
            return v
        if v is None or isinstance(v, (int, float)):
            return v
        if isinstance(v, Decimal):
            return str(v)
        if isinstance(v, (list, tuple, set)):
            return json.dumps(list(v))
        if hasattr(v, 'adapted'):
            return jsonb(json.dumps(v.adapted))
        if isinstance(v, dict):
            raise psycopg2.ProgrammingError("can't adapt type 'dict'")
        return str(v)

    def complete(self, tx, sql, changed, view):
        """fill in what PostgreSQL would have: ids from the sequence, defaults, jsonb normal form, constraints"""
        out = {}
        renames = {}
        for (t, i), row in changed.items():
            s = self.schema[t]
            if row is not None:
                row = dict(row)
                if i not in view[t]:
                    named = self.insert_columns(sql)
                    for c, d in s['default'].items():
                        if row[c] is None and c not in named:
                            row[c] = d
                    if 'ts' in row and row['ts'] is None and 'ts' not in named:
                        row['ts'] = tx.start
                    new = self.next_id[t]
                    self.next_id[t] += 1
                    renames[t, i] = new
                    row['id'] = new
                for c in s['json']:
                    if isinstance(row[c], str):
                        try:
                            row[c] = jsonb(row[c])
                        except NotJson as e:
                            raise pge.InvalidTextRepresentation(f'invalid input syntax for type json: {e}')
                for c in s['not_null']:
                    if row[c] is None:
                        raise pge.NotNullViolation(f'null value in column "{c}" of relation "{t}"')
            out[t, renames.get((t, i), i)] = row
        return out, renames

    def insert_columns(self, sql):
        m = re.search(r'insert\s+into\s+\w+\s*\(([^)]*)\)', sql, re.I)
        return {c.strip().strip('"').lower() for c in m.group(1).split(',')} if m else set()

    def unique_conflict(self, tx, changed):
        for (t, i), row in changed.items():
            if row is None:
                continue
            for u in self.schema[t]['unique']:
                key = tuple(row[c] for c in u)
                # a committed row that another transaction is deleting, or another transaction's new row: wait
                for o in self.txs:
                    if o is tx:
                        continue
                    for (t2, j), r in o.rows.items():
                        if t2 != t or j == i:
                            continue
                        old = self.data[t].get(j)
                        if any(x is not None and tuple(x[c] for c in u) == key for x in (r, old)):
                            return o
                for j, r in self.data[t].items():
                    if j != i and (t, j) not in tx.rows and tuple(r[c] for c in u) == key:
                        raise pge.UniqueViolation(f'duplicate key value violates unique constraint on {t}')
        return None

    def execute(self, conn, raw, params):
        """returns (rows, names, rowcount)"""
        tx = conn.tx
        if raw not in _translated:
            sql, lock = translate(raw)
            tables = [t for t in self.schema if re.search(rf'\b{t}\b', sql)]
            verb = sql.split(None, 1)[0].lower()
            target = (re.search(r'\b(?:from|into|update)\s+(\w+)', sql, re.I) or [None, None])[1]
            _translated[raw] = sql, lock, tables, verb, target
        sql, lock, tables, verb, target = _translated[raw]
        if self.fail:
            e = self.fail(conn, verb, target, params)
            if e:
                raise e
        snap = None
        initial = None
        while True:
            view = self.view(tx, snap)
            others = self.locked_by_others(tx)
            seen = view
            if lock == 'skip locked':
                seen = {t: ({i: r for i, r in rows.items() if (t, i) not in others}) for t, rows in view.items()}
            rows, names, changed = self.evaluate(tx, sql, lock, params, seen, tables)
            targets = {k for k in changed if k[1] in seen[k[0]]}
            picked = set()
            if lock and verb in ('select', 'with') and names and 'id' in names and target:
                picked = {(target, r[names.index('id')]) for r in rows}
            if initial is not None and lock is None and not targets <= initial:
                # read committed re-checks only the rows it was going to change
                changed, rows, targets = {}, [], set()
            clash = [others[k] for k in sorted(targets | picked) if k in others]
            if clash and lock == 'nowait':
                raise pge.LockNotAvailable('could not obtain lock on row')
            if not clash and changed:
                full, renames = self.complete(tx, raw, changed, seen)
                o = self.unique_conflict(tx, full)
                if o is not None and re.search(r'on\s+conflict\s+do\s+nothing', sql, re.I) is None:
                    clash = [o]
                if renames and names and 'id' in names and rows:
                    t0 = next(iter(renames))[0]
                    back = {i: n for (t, i), n in renames.items() if t == t0}
                    k = names.index('id')
                    rows = [r[:k] + (back.get(r[k], r[k]),) + r[k + 1:] for r in rows]
            elif not clash:
                full = {}
            if not clash:
                break
            if initial is None:
                initial = set(targets)
                snap = {t: dict(rows) for t, rows in self.data.items()}
            self.waits.append((conn, clash[0].conn, sorted(targets), params))
            self.sim.wait_for_tx(conn, clash[0])
            for t, i in targets | picked:
                if i in self.data[t]:
                    snap[t][i] = self.data[t][i]
                else:
                    snap[t].pop(i, None)
        for f in self.on_write:
            f(self, conn, verb, full, seen, view, others)
        tx.rows.update(full)
        tx.locks |= picked
        tx.notes.append((verb, target, dict(full)))
        for (t, i), row in full.items():
            if t == 'queue' and row is not None and i not in view['queue']:
                tx.notify = True
        conv = [tuple(bool(v) if n in BOOLS and v is not None else v for n, v in zip(names, r)) for r in rows] if names else []
        return conv, names, len(full) if verb in ('insert', 'update', 'delete') else len(conv)

    # -- transactions ------------------------------------------------------------------------------
    def begin(self, conn, explicit):
        if conn.tx is None:
            conn.tx = Tx(conn, self.tick())
            locked = self.locked_by_others(conn.tx)
            conn.tx.present = {i for i in self.data['queue'] if ('queue', i) not in locked}
            self.txs.append(conn.tx)
        conn.tx.explicit = conn.tx.explicit or explicit

    def end(self, conn, commit):
        tx = conn.tx
        if tx is None:
            return
        conn.tx = None
        self.txs.remove(tx)
        changed = {}
        if commit and not tx.failed:
            for (t, i), row in tx.rows.items():
                old = self.data[t].get(i)
                if row is None:
                    self.data[t].pop(i, None)
                else:
                    self.data[t][i] = row
                if old != row:
                    changed.setdefault(t, {})[i] = (old, row)
            if changed:
                self.changes += 1
            if tx.notify:
                for c in self.conns:
                    if CHANNEL in c.listening and not c.dead:
                        c.incoming += 1
            for f in self.on_commit:
                f(self, tx, changed)
        self.sim.tx_ended(tx)
        return changed

    def kill(self, conn):
        if not conn.dead:
            conn.dead = True
            self.end(conn, False)


class Notify:
    def __init__(self):
        self.pid, self.channel, self.payload = 1, CHANNEL, ''


class Connection:
    def __init__(self, server, cursor_factory=None, name=''):
        self.server = server
        self.name = name
        self.tx = None
        self.autocommit_ = False
        self.listening = set()
        self.incoming = 0       # notifications the server has for this session
        self.notifies = []
        self.dead = False
        self.closed = 0
        self.dict_rows = cursor_factory is not None
        server.conns.append(self)

    # settings
    def set_isolation_level(self, level):
        self.autocommit_ = level == 0

    def set_session(self, isolation_level=None, readonly=None, deferrable=None, autocommit=None):
        if autocommit is not None:
            self.autocommit_ = autocommit

    @property
    def autocommit(self):
        return self.autocommit_

    @autocommit.setter
    def autocommit(self, v):
        self.autocommit_ = v

    def fileno(self):
        return 3

    def cursor(self, *a, **kw):
        self.check()
        return Cursor(self, self.dict_rows or kw.get('cursor_factory') is not None)

    def check(self):
        if self.dead or self.closed:
            raise psycopg2.InterfaceError('connection already closed')

    def drain(self):
        # notifications only reach a session between its transactions
        if self.tx is None and self.incoming:
            self.notifies += [Notify() for _ in range(self.incoming)]
            self.incoming = 0

    def readable(self):
        return self.tx is None and self.incoming > 0

    def poll(self):
        self.check()
        self.drain()
        return 0

    def commit(self):
        Cursor(self, False).execute('COMMIT')

    def rollback(self):
        Cursor(self, False).execute('ROLLBACK')

    def close(self):
        self.server.end(self, False)
        self.closed = 1

    def __enter__(self):
        self.check()
        return self

    def __exit__(self, t, e, tb):
        if t is None:
            self.commit()
        elif not self.dead:
            self.rollback()


class Cursor:
    def __init__(self, conn, dict_rows):
        self.connection = conn
        self.dict_rows = dict_rows
        self.rows = None
        self.rowcount = -1
        self.description = None
        self.pos = 0
        self.query = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def execute(self, sql, params=None):
        conn, server = self.connection, self.connection.server
        conn.check()
        self.rows, self.description, self.rowcount, self.pos = None, None, -1, 0
        words = re.sub(r'[;\s]+', ' ', sql).strip().lower()
        if not words:
            raise psycopg2.ProgrammingError("can't execute an empty query")
        local = re.match(r'(begin|start transaction|savepoint|release|set|commit|rollback|end|abort)\b', words)
        commit = words in ('commit', 'end', 'commit transaction', 'commit work', 'end transaction')
        server.sim.point(conn, words, local=bool(local) and not commit)
        try:
            self._run(conn, server, sql, params, words, commit)
        except (psycopg2.Error, ValueError):
            if conn.tx is not None:
                conn.tx.abort()
                server.sim.tx_ended(conn.tx)
            conn.drain()
            raise
        conn.drain()

    def _run(self, conn, server, sql, params, words, commit):
        tx = conn.tx
        if commit:
            if server.fail:
                e = server.fail(conn, 'commit', None, None)
                if e:
                    server.end(conn, False)
                    raise e
            server.end(conn, True)
            return
        if re.match(r'rollback( (work|transaction))?$|abort', words):
            server.end(conn, False)
            return
        m = re.match(r'rollback (?:work |transaction )?to (?:savepoint )?(\w+)$', words)
        if m:
            if tx is None:
                raise pge.NoActiveSqlTransaction('ROLLBACK TO SAVEPOINT can only be used in transaction blocks')
            k = next((k for k in range(len(tx.savepoints) - 1, -1, -1) if tx.savepoints[k][0] == m.group(1)), None)
            if k is None:
                raise pge.InvalidSavepointSpecification(f'savepoint "{m.group(1)}" does not exist')
            _n, rows, locks, notify, notes = tx.savepoints[k]
            tx.rows, tx.locks, tx.notify, tx.notes = dict(rows), set(locks), notify, list(notes)
            del tx.savepoints[k + 1:]
            tx.failed = False
            server.sim.tx_ended(tx)
            return
        if tx is not None and tx.failed:
            raise pge.InFailedSqlTransaction('current transaction is aborted, commands ignored until end of transaction block')
        if re.match(r'begin|start transaction', words):
            server.begin(conn, True)
            return
        if not conn.autocommit_:
            server.begin(conn, True)
            tx = conn.tx
        m = re.match(r'savepoint (\w+)$', words)
        if m:
            if tx is None:
                raise pge.NoActiveSqlTransaction('SAVEPOINT can only be used in transaction blocks')
            tx.savepoints.append((m.group(1), dict(tx.rows), set(tx.locks), tx.notify, list(tx.notes)))
            return
        m = re.match(r'release (?:savepoint )?(\w+)$', words)
        if m:
            k = next((k for k in range(len(tx.savepoints) - 1, -1, -1) if tx.savepoints[k][0] == m.group(1)), None) if tx else None
            if k is None:
                raise pge.InvalidSavepointSpecification(f'savepoint "{m.group(1)}" does not exist')
            del tx.savepoints[k:]
            return
        m = re.match(r'(un)?listen "?([\w*]+)"?$', words)
        if m:
            if m.group(1):
                conn.listening.clear()
            else:
                conn.listening.add(m.group(2))
            return
        if words.startswith('set '):
            return
        single = conn.tx is None
        if single:
            server.begin(conn, False)
        try:
            rows, names, n = server.execute(conn, sql, params)
        except BaseException:
            if single and conn.tx is not None:
                server.end(conn, False)
            raise
        if single:
            server.end(conn, True)
        self.rowcount = n
        if names is not None:
            self.description = [(x,) for x in names]
            cls = row_class(names) if self.dict_rows else tuple
            self.rows = [cls(r) for r in rows]

    def executemany(self, sql, seq):
        for p in seq:
            self.execute(sql, p)

    def mogrify(self, sql, params=None):
        return sql.encode()

    def _need(self):
        if self.rows is None:
            raise psycopg2.ProgrammingError('no results to fetch')

    def fetchone(self):
        self._need()
        if self.pos < len(self.rows):
            self.pos += 1
            return self.rows[self.pos - 1]
        return None

    def fetchall(self):
        self._need()
        out, self.pos = self.rows[self.pos:], len(self.rows)
        return out

    def fetchmany(self, n=1):
        self._need()
        out = self.rows[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def __iter__(self):
        self._need()
        while self.pos < len(self.rows):
            self.pos += 1
            yield self.rows[self.pos - 1]
