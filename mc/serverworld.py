"""Closed worlds for dp.server: the real worker, batch and what-if code around the model database, under the explorer's scheduler."""
import atexit
import concurrent.futures
import copy
import importlib
import json
import os
import pathlib
import select
import shutil
import sys
import tempfile
import threading

import psycopg2
import psycopg2.errors as pge
import yaml

from mc import env  # noqa: F401
from mc import fakepg, sim as simmod
from mc.gen import q, subj
from mc.world import area, course, ip, student

real_select = select.select
current = None          # the running simulation


def fake_connect(*a, cursor_factory=None, application_name='', **kw):
    conn = fakepg.Connection(current.server, cursor_factory=cursor_factory, name=application_name)
    t = current.me()
    if t is not None:
        t.conns.append(conn)
    return conn


def fake_select(r, w, x, timeout=None):
    if current is not None and current.me() is not None:
        return current.select(r, w, x, timeout)
    return real_select(r, w, x, timeout)


class Future:
    def __init__(self):
        self.state, self.value, self.error = 'pending', None, None

    def done(self):
        return self.state == 'done'

    def result(self, timeout=None):
        me = current.me()
        if not self.done():
            current.wait(me, 'waiting', self.done)
        if self.error:
            raise self.error
        return self.value

    def exception(self, timeout=None):
        try:
            self.result()
        except Exception as e:
            return e


class Pool:
    """ThreadPoolExecutor whose threads are the scheduler's"""

    def __init__(self, max_workers=None, *a, **kw):
        self.max = min(max_workers or 2, current.pool_size)
        self.todo, self.threads, self.closed = [], [], False

    def submit(self, fn, *a, **kw):
        f = Future()
        self.todo.append((f, fn, a, kw))
        if len(self.threads) < self.max:
            self.threads.append(current.spawn(f'pool{len(self.threads)}', self.work))
        return f

    def map(self, fn, *its, **kw):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def work(self):
        while True:
            if not self.todo:
                if self.closed:
                    return
                current.wait(current.me(), 'waiting', lambda: self.todo or self.closed)
                continue
            f, fn, a, kw = self.todo.pop(0)
            try:
                f.value = fn(*a, **kw)
            except Exception as e:
                f.error = e
            f.state = 'done'

    def shutdown(self, wait=True, **kw):
        self.closed = True
        me = current.me()
        if wait and any(t.state != 'done' for t in self.threads):
            current.wait(me, 'waiting', lambda: all(t.state == 'done' for t in self.threads))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def as_completed(fs, timeout=None):
    left = list(fs)
    while left:
        if not any(f.done() for f in left):
            current.wait(current.me(), 'waiting', lambda: any(f.done() for f in left))
        f = next(f for f in left if f.done())
        left.remove(f)
        yield f


def wait_futures(fs, timeout=None, return_when=None):
    fs = list(fs)
    if not all(f.done() for f in fs):
        current.wait(current.me(), 'waiting', lambda: all(f.done() for f in fs))
    return set(fs), set()


class Response:
    def __init__(self, data, status=200):
        self.data, self.status = data, status


class Http:
    def __init__(self, *a, **kw):
        pass

    def request(self, method, url, fields=None, **kw):
        current.point(None, f'http {(fields or {}).get("stnum", "")}')
        out = current.http(url, fields)
        if isinstance(out, Exception):
            raise out
        return Response(out.encode('utf-8'))


class Bar:
    def __init__(self, it=(), *a, **kw):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __getattr__(self, name):
        return lambda *a, **kw: None


_mods = {}
_memo = {}


def memo_key(x):
    return json.dumps(x, default=str)


def modules():
    """dp.server's modules, bound to the model instead of psycopg2, urllib3, select and the thread pool"""
    if _mods:
        return _mods
    import dp.run
    real_run = dp.run.run

    def run(args, *, student, area_spec):
        k = memo_key([student, area_spec])
        if k not in _memo:
            try:
                _memo[k] = (list(real_run(args, student=copy.deepcopy(student), area_spec=copy.deepcopy(area_spec))), None)
            except Exception as e:
                _memo[k] = ([], e)
        msgs, err = _memo[k]
        yield from msgs
        if err:
            raise err

    real_load = yaml.load

    def load(stream, Loader):
        text = stream if isinstance(stream, (str, bytes)) else stream.read()
        if text not in _memo:
            try:
                _memo[text] = (real_load(text, Loader), None)
            except Exception as e:
                _memo[text] = (None, e)
        v, err = _memo[text]
        if err:
            raise err
        return copy.deepcopy(v)

    yaml.load = load

    import tqdm
    import urllib3
    saved = [(dp.run, 'run', dp.run.run), (threading, 'Lock', threading.Lock), (threading, 'RLock', threading.RLock),
             (concurrent.futures, 'ThreadPoolExecutor', concurrent.futures.ThreadPoolExecutor),
             (concurrent.futures, 'as_completed', concurrent.futures.as_completed), (concurrent.futures, 'wait', concurrent.futures.wait),
             (urllib3, 'PoolManager', urllib3.PoolManager), (tqdm, 'tqdm', tqdm.tqdm)]
    os.environ['DP_BATCH_URL'] = 'batch'
    os.environ['DP_SINGLE_URL'] = 'single'
    psycopg2.connect = fake_connect
    select.select = fake_select
    urllib3.PoolManager = Http
    tqdm.tqdm = Bar
    dp.run.run = run
    concurrent.futures.ThreadPoolExecutor, concurrent.futures.as_completed, concurrent.futures.wait = Pool, as_completed, wait_futures
    # import what the modules need first, so that only their own locks are the scheduler's
    for name in ('worker', 'audit', 'whatif', 'cli', 'clear_expired'):
        _mods[name] = importlib.import_module(f'dp.server.{name}')
    threading.Lock, threading.RLock = simmod.Lock, simmod.RLock
    try:
        _mods['batch'] = importlib.import_module('dp.server.batch')
    finally:
        for m, n, v in saved:
            setattr(m, n, v)
    return _mods


def launcher():
    modules()
    return importlib.import_module('dp.server.__main__')


# -- the files ---------------------------------------------------------------------------------------------
A, B, C = {'course': 'AAA 101'}, {'course': 'BBB 101'}, {'course': 'CCC 101'}
AREAS = {
    '100': {2016: area({'all': [A]}, code='100', name='Old'), 2018: area({'all': [A, B]}, code='100', name='Hundred'), 2019: area({'all': [C]}, code='100', name='New')},
    '200': {2018: area({'all': [q(1, subj('BBB'))]}, code='200', name='Two Hundred')},
    '300': {2018: area({'all': [{'course': 'AAA 101', 'bogus': 1}]}, code='300', name='Broken')},
    # 400 is missing
    '500': {2018: ''},
    '600': {2018: 'name: [unclosed'},
}


def cat(year):
    return f'{year}-{str(year + 1)[2:]}'


_root = None


def area_root():
    global _root
    if _root is None:
        _root = tempfile.mkdtemp(prefix='mc-areas-')
        me, path = os.getpid(), _root

        def clean():
            if os.getpid() == me:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
        for code, years in AREAS.items():
            for year, spec in years.items():
                d = pathlib.Path(_root) / cat(year)
                d.mkdir(exist_ok=True)
                (d / f'{code}.yaml').write_text(spec if isinstance(spec, str) else yaml.safe_dump(spec))
    return pathlib.Path(_root)


def who(stnum, courses, **kw):
    d = student(courses, stnum=stnum, name=f'Student {stnum}', name_sort=f'{stnum}, Student', classification='SO', **{'class': '2022'})
    d.update(kw)
    return d


def without(d, *keys):
    return {k: v for k, v in d.items() if k not in keys}


CA, CB, CBip = course('AAA 101', '1'), course('BBB 101', '2', grade='A'), ip('BBB 101', '2')
STUDENTS = {
    's1': who('001', [CA, CB]), 's1b': who('001', [CA]), 's1c': who('001', [CA, CBip]), 's2': who('002', [CB]), 's3': who('003', [CA], **{'class': 'None'}, name='', name_sort=''),
    'nameless': without(who('004', [CA, CB]), 'name'), 'classless': without(who('001', [CA, CB]), 'classification', 'class'), 'nostnum': without(who('005', [CA, CB]), 'stnum'),
    's1w': who('001', [CA], exceptions=[dict(type='override', path=['$', '.count'], area_code='100')]),
    'nul': who('001', [CA, CB], name='a\0b'), 'noterm': without(who('001', [CA]), 'matriculation', 'courses'),
}
# the student the queue row is about
STNUM = {k: s.get('stnum', '005') for k, s in STUDENTS.items()}


def expected(sname, catalog, code):
    """what the audit of this item is: (kind, result tree, claims) -- the area file being the newest one at or before the catalog"""
    modules()
    from dp.audit import Arguments, ResultMsg
    import dp.run
    try:
        year = int(catalog.split('-')[0])
    except ValueError:
        return 'failed', None, None
    years = [y for y in AREAS.get(code, {}) if y <= year]
    if not years:
        return 'failed', None, None
    spec = AREAS[code][max(years)]
    s = STUDENTS[sname]
    if isinstance(spec, str) or any(k not in s for k in ('name', 'name_sort', 'classification', 'class', 'stnum')) or '\0' in s['name']:
        return 'failed', None, None
    k = ('expected', sname, catalog, code)
    if k not in _memo:
        try:
            spec = yaml.safe_load(yaml.safe_dump(spec))
            stu = json.loads(fakepg.jsonb(json.dumps(s)))
            msgs = list(dp.run.run(Arguments(), student=stu, area_spec=spec))
            m = [m for m in msgs if isinstance(m, ResultMsg)][0]
            _memo[k] = ('stored', json.loads(json.dumps(m.result.to_dict())), json.loads(json.dumps(m.result.keyed_claims())))
        except Exception:
            _memo[k] = ('failed', None, None)
    return _memo[k]


def item(s='s1', code='100', catalog='2018-19', priority=1, run=7, link_only=False, expires_at=None):
    return dict(s=s, code=code, catalog=catalog, priority=priority, run=run, link_only=link_only, expires_at=expires_at)


def queue_row(it):
    return dict(priority=it['priority'], student_id=STNUM[it['s']], area_catalog=it['catalog'], area_code=it['code'], input_data=json.dumps(STUDENTS[it['s']]),
                run=it['run'], expires_at=it['expires_at'], link_only=int(it['link_only']))


COLUMNS = 'priority, student_id, area_catalog, area_code, input_data, run, expires_at, link_only'


def put(it):
    """someone queues an item, in a transaction of its own; returns whether it is accepted: the student and area may already be waiting"""
    row = queue_row(it)
    conn = fake_connect('')
    try:
        put_row(conn, row)
    except pge.UniqueViolation:
        return False
    current.queued.append(it)
    return True


def put_row(conn, row):
    with conn, conn.cursor() as curs:
        curs.execute(f'INSERT INTO queue ({COLUMNS}) VALUES ({", ".join(f"%({c.strip()})s" for c in COLUMNS.split(","))})', row)


class Run:
    """one execution of a scenario along one schedule"""

    def __init__(self, case, ch):
        global current
        self.case = case
        self.bad = []
        self.stored = []        # (queue rows taken, result rows added) of every commit that did either
        s = current = simmod.Sim(ch, max_ops=case.get('max_ops', 500))
        simmod.Lock.current = s
        srv = self.server = s.server = fakepg.Server(s)
        self.sim = s
        s.http = None
        s.queued = []
        s.pool_size = case.get('pool', 2)
        srv.on_commit.append(self.committed)
        srv.on_write.append(self.wrote)
        self.items = {}
        self.taken_order = []

    def complain(self, msg):
        if msg not in self.bad:
            self.bad.append(msg)

    # -- monitors -----------------------------------------------------------------------------------------
    def wrote(self, server, conn, verb, changed, seen, view, others):
        gone = [view['queue'][i] for (t, i), row in changed.items() if t == 'queue' and row is None and i in view['queue']]
        for row in gone:
            # what could have been taken when this transaction began
            better = [r for r in view['queue'].values() if ('queue', r['id']) not in others and r['id'] in conn.tx.present
                      and (-r['priority'], r['ts']) < (-row['priority'], row['ts'])]
            if better:
                b = better[0]
                self.complain(f'takes item {row["id"]} (priority {row["priority"]}, queued at {row["ts"]}) although item {b["id"]} (priority {b["priority"]}, queued at {b["ts"]}) is waiting')
            self.taken_order.append(row['id'])
            # a crash may cost only the audit which is being done
            before = [r for _v, t, rows in conn.tx.notes if t == 'result' for r in rows.values() if r is not None]
            if before:
                self.complain(f'takes item {row["id"]} before the result of the last item is committed')

    def committed(self, server, tx, changed):
        taken = [old for old, new in changed.get('queue', {}).values() if new is None]
        added = [new for old, new in changed.get('result', {}).values() if old is None]
        if taken or added:
            self.stored.append((taken, added))
        self.check_store(changed)

    def check_store(self, changed):
        """what a reader of the result table relies on, after every commit"""
        rows = self.server.data['result']
        keys = {(r['student_id'], r['area_code']) for old, new in changed.get('result', {}).values() for r in (old, new) if r}
        for key in sorted(keys):
            mine = [r for r in rows.values() if (r['student_id'], r['area_code']) == key]
            active = [r for r in mine if r['is_active']]
            real = [r for r in mine if not r['link_only']]
            ever = key in self.ever_active or any(new and new['is_active'] for old, new in changed['result'].values() if (new or old)['student_id'] == key[0] and (new or old)['area_code'] == key[1])
            if ever:
                self.ever_active.add(key)
            if len(active) > 1:
                self.complain(f'{key} has {len(active)} active results: {[r["id"] for r in active]}')
            if not active and (ever or real):
                self.complain(f'{key} has no active result any more')
            if any(r['link_only'] for r in active):
                self.complain(f'a link-only result of {key} is active')

    def start_store(self, rows=()):
        self.ever_active = set()
        for r in rows:
            self.server.seed('result', **r)
            if r.get('is_active', 1):
                self.ever_active.add((r['student_id'], r['area_code']))

    def seed_items(self, items):
        for it in items:
            i = self.server.seed('queue', **queue_row(it))
            self.items[i] = it
            self.sim.queued.append(it)

    # -- actors ---------------------------------------------------------------------------------------------
    def worker(self):
        modules()['worker'].wrapper(area_root=str(area_root()))

    def launch(self, *args, cpus=None):
        """dp.server itself: its processes are the scheduler's threads; returns how many there are"""
        m = launcher()
        started = []
        run = self

        class Process:
            def __init__(self, target=None, args=(), kwargs=None, **kw):
                self.work = lambda: target(*args, **(kwargs or {}))

            def start(self):
                started.append(run.sim.spawn(f'w{len(started)}', self.work))

            def join(self, timeout=None):
                pass
        saved = [(m.multiprocessing, 'Process', m.multiprocessing.Process), (os, 'sched_getaffinity', os.sched_getaffinity), (sys, 'argv', sys.argv)]
        m.multiprocessing.Process = Process
        if cpus:
            os.sched_getaffinity = lambda pid: set(range(cpus))
        sys.argv = ['dp.server', *args]
        os.environ['AREA_ROOT'] = str(area_root())
        os.environ.pop('DP_REPORT_BIN', None)
        try:
            m.main()
        finally:
            for o, n, v in saved:
                setattr(o, n, v)
        return started

    def spawn_worker(self, name):
        return self.sim.spawn(name, self.worker)

    def finish(self):
        self.sim.stop()

    def outcome(self):
        return sorted((r['student_id'], r['area_code'], r['catalog'], r['revision'], bool(r['is_active']), r['status']) for r in self.server.data['result'].values())


def queue_item_of(run, row):
    """the scenario's item behind a queue row (seeded, or put by a producer)"""
    want = {k: v for k, v in row.items() if k not in ('id', 'ts')}
    for it in run.case['items'] + run.case.get('late', []):
        w = queue_row(it)
        w['input_data'] = fakepg.jsonb(w['input_data'])
        if w == want:
            return it
    return None


def check_row(run, it, row):
    """a stored result is the audit of this item, in every column"""
    kind, tree, claims = expected(it['s'], it['catalog'], it['code'])
    label = f'{STNUM[it["s"]]}::{it["catalog"]}/{it["code"]}'
    if kind != 'stored':
        run.complain(f'{label}: a result is stored for an item which cannot be audited')
        return
    s = STUDENTS[it['s']]
    got_tree = json.loads(row['result'])
    if got_tree != json.loads(fakepg.jsonb(json.dumps(tree))):
        run.complain(f'{label}: the stored result is not the result of this audit (stored {got_tree.get("name")} {got_tree.get("status")}, audit {tree["name"]} {tree["status"]})')
    want = dict(student_id=s['stnum'], area_code=it['code'], catalog=it['catalog'], run=it['run'], expires_at=it['expires_at'], link_only=bool(it['link_only']),
                result_version=tree['version'], rank=tree['rank'], max_rank=tree['max_rank'], ok=tree['ok'], gpa=tree['gpa'], status=tree['status'],
                student_classification=s['classification'], student_class=None if s['class'] == 'None' else s['class'], student_name=s['name'] or None,
                student_name_sort=s['name_sort'] or None, is_active=not it['link_only'])
    for k, v in want.items():
        g = row[k]
        if k in fakepg.BOOLS:
            g = bool(g)
        if k in ('rank', 'max_rank', 'gpa'):
            g, v = float(g), float(v)
        if g != v:
            run.complain(f'{label}: column {k} is {g!r}, should be {v!r}')
    if json.loads(row['claimed_courses']) != claims:
        run.complain(f'{label}: the stored claims are not the claims of this audit')
    if json.loads(row['input_data']) != json.loads(fakepg.jsonb(json.dumps(s))):
        run.complain(f'{label}: the stored student record is not the one of this item')


class Fault:
    """a statement that fails: once, at the nth chance, or whenever it is about a given student"""

    def __init__(self, spec):
        self.spec = spec
        self.fired = []
        self.n = 0

    def __call__(self, conn, verb, table, params):
        f = self.spec
        if f.get('student'):
            if table == f['table'] and verb == f['verb'] and isinstance(params, dict) and params.get('student_id') == f['student']:
                self.fired.append(conn)
                return pge.DiskFull('injected')
            return None
        if f.get('conn') is not None and conn.server.conns.index(conn) != f['conn']:
            return None
        self.n += 1
        if self.n == f['at']:
            self.fired.append(conn)
            if f.get('lost'):
                conn.server.kill(conn)
                return psycopg2.OperationalError('server closed the connection unexpectedly')
            return pge.DiskFull('injected')
        return None


assert sys
