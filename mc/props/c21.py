"""The queue: each queued audit is done once, and its result kept, whatever the workers' interleaving, crashes and failures."""
import psycopg2.errors as pge

from mc.core import Property, explore, digest
from mc import serverworld as sw
from mc.serverworld import Fault, Run, STNUM, check_row, expected, item, put, queue_item_of

I, J, K = item(), item('s2', '200', run=8), item('s3', '100', '2019-20', expires_at='2030-01-01')
HI = item('s2', '100', '2021-22', priority=100, run=-1, link_only=True)
BADS = {
    'missing': item('s2', '400'), 'old': item('s2', '100', '2014-15'), 'broken': item('s2', '300'), 'empty': item('s2', '500'), 'yaml': item('s2', '600'),
    'catalog': item('s2', '100', 'none'), 'nameless': item('nameless', '100'), 'nostnum': item('nostnum', '100'), 'noterm': item('noterm', '200'),
}
OLD = dict(student_id='001', area_code='100', catalog='2018-19', run=1, input_data='{}', result='{"old": 1}', claimed_courses='{}', revision=3, status='pending', ok=0)
STATEMENTS = [('delete', 'result'), ('update', 'result'), ('insert', 'result')]


def label(c):
    return c


def simulate(case, ch):
    r = Run(case, ch)
    s = r.sim
    r.start_store([OLD] if case.get('old') else [])
    r.seed_items(case['items'])
    fault = r.server.fail = Fault(case['fault']) if case.get('fault') else None
    if case.get('launch'):
        # the processes dp.server starts
        workers = r.launch(*(['--workers', str(case['workers'])] if case['launch'] == 'asked' else []), cpus=case.get('cpus'))
        most = case['workers'] if case['launch'] == 'asked' else case['cpus']
        if len(workers) > most or (case['launch'] == 'asked' and len(workers) != most):
            r.complain(f'{len(workers)} workers are started, {most} were asked for')
    else:
        workers = [r.spawn_worker(f'w{k}') for k in range(case['workers'])]
    for k, it in enumerate(case.get('late', [])):
        s.spawn(f'p{k}', lambda it=it: put(it))
    if case.get('crash'):
        w, at = case['crash']
        workers[w].crash_at = at
    s.run()
    dead = [w for w in workers if w.state == 'done']
    excused = set()
    for w in dead:
        lost = fault and case['fault'].get('lost') and fault.fired and any(c in fault.fired for c in w.conns)
        if w.crashed or lost or isinstance(w.error, pge.DiskFull):
            excused.add(w)
        elif not s.broken:
            r.complain(f'{w.name} stops working: {w.error!r}')
    if excused and not s.broken:
        r.spawn_worker('fresh')
        s.run()
    if s.broken:
        r.complain('the workers never come to rest')
    else:
        judge(r, case, fault)
    for p in s.threads:
        if p.name.startswith('p') and p.error:
            r.complain(f'queueing an item fails: {p.error!r}')
    r.finish()
    return r


def judge(r, case, fault):
    srv = r.server
    s = r.sim
    for row in srv.data['queue'].values():
        r.complain(f'an item is left in the queue while every worker waits: {row["student_id"]}::{row["area_catalog"]}/{row["area_code"]}')
    for c in srv.conns:
        if c.tx is not None:
            r.complain('a worker waits for news inside a transaction')
    # distinct items never wait for each other
    if not case.get('late'):
        for me, other, rows, params in srv.waits:
            r.complain(f'a worker is held up by the audit of another item (on {rows[:2]})')
    done = {}
    for taken, added in r.stored:
        its = [queue_item_of(r, t) for t in taken]
        if None in its:
            r.complain(f'an item nobody queued is taken: {taken}')
            continue
        left = list(its)
        for row in added:
            it = next((i for i in left if STNUM[i['s']] == row['student_id'] and i['code'] == row['area_code']), None)
            if it is None:
                r.complain(f'a result of {row["student_id"]}::{row["catalog"]}/{row["area_code"]} is stored {"apart from" if not taken else "without"} its queue item')
                continue
            left.remove(it)
            check_row(r, it, row)
            done[sw.memo_key(it)] = done.get(sw.memo_key(it), 0) + 1
    hit = bool(fault and fault.fired)
    for it in s.queued:
        n = done.get(sw.memo_key(it), 0)
        copies = s.queued.count(it)
        kind = expected(it['s'], it['catalog'], it['code'])[0]
        name = f'{STNUM[it["s"]]}::{it["catalog"]}/{it["code"]}'
        if n > copies:
            r.complain(f'{name} is stored {n} times')
        may_fail = kind == 'failed' or (hit and not case['fault'].get('student')) or (hit and case['fault'].get('student') == STNUM[it['s']])
        waiting = any(queue_item_of(r, x) == it for x in srv.data['queue'].values())
        if n < copies and not may_fail and not waiting:
            r.complain(f'{name} is taken from the queue and its result is lost')
    # one failure costs one item at most
    if hit and not case['fault'].get('student'):
        lost = sum(1 for it in case['items'] if expected(it['s'], it['catalog'], it['code'])[0] == 'stored' and not done.get(sw.memo_key(it)))
        if lost > 1:
            r.complain(f'one failed statement costs {lost} items')
    if case.get('old') and not case.get('fault') and not any(x['s'].startswith('s1') and not x['link_only'] and x['code'] == '100' for x in case['items'] + case.get('late', [])):
        if [x for x in srv.data['result'].values() if x['is_active'] and x['run'] == 1] == []:
            r.complain('an unrelated active result is gone')


class P(Property):
    ID = 'C21'
    RULE = 'every item leaves the queue with exactly its result stored, exactly once; failures cost their own item only; at rest the queue is empty'
    CASE_TIMEOUT = 1500
    BUDGET = {'quick': 240, 'thorough': 3000}
    ASSUMPTIONS = [
        'PostgreSQL is modelled (mc/fakepg.py): read committed, row locks, SKIP LOCKED, unique keys, aborted transactions, savepoints, LISTEN/NOTIFY',
        'the queue holds at most one row per student and area (unique key), and a trigger notifies dp_queue_update when a row is inserted',
        'a crash ends the connection, whose transaction is rolled back',
    ]

    def __init__(self):
        self.extra = {'schedules': 0, 'scheduling_points': 0}

    def worker_extra(self):
        return dict(self.extra)

    def prepare(self, tier):
        sw.modules()
        sw.area_root()

    def cases(self, tier):
        deep = tier != 'quick'
        b = 3 if deep else 2
        out = []

        def add(name, items, workers, bound, shards=1, **kw):
            for k in range(shards):
                out.append(dict(name=name, items=items, workers=workers, bound=bound, shard=[k, shards], **kw))
        # nobody interferes: every kind of item, alone and between good ones
        for name, bad in BADS.items():
            add('alone', [bad], 1, None)
            add('between', [I, bad, K], 1, None)
            add('two bad', [bad, item('s1', '300')], 1, None)
            add('shared', [bad, I], 2, b)
        # the processes of dp.server
        for n in (1, 2, 3):
            add('launched', [I, HI], n, 1 if n < 3 else 0, launch='asked', single=n == 3)
        for n in range(1, 17):
            add('launched', [I, J], None, 0, launch='default', cpus=n, single=True)
        # interleavings
        add('one item, two workers', [I], 2, None if deep else 4, 8)
        add('two items, two workers', [I, J], 2, b, 8)
        add('three items, two workers', [I, J, HI], 2, b, 8)
        if deep:
            add('three items, three workers', [I, J, K], 3, 2, 16)
            add('four items, two workers', [I, J, K, HI], 2, 3, 16)
        # items that come in while the workers are busy, or just starting
        for late in ([I], [J, K], [HI]):
            few = len(late) == 1
            add('late', [], 1, (3 if few else 2) + deep, 16 if deep else 4, late=late)
            add('late', [K] if K not in late else [I], 1, (3 if few else 2) + deep, 16 if deep else 4, late=late)
            add('late', [], 2, b if few else b - 1, 16 if deep else 4, late=late)
        # the same student and area again, while the first is being audited
        add('again', [I], 1, 4 if deep else 3, 4, late=[item('s1b', '100')], old=True)
        add('again', [I], 2, b, 8, late=[item('s1b', '100')])
        add('again', [I, J], 2, b if deep else 1, 8, late=[item('s1c', '100', '2019-20')], old=True)
        # crashes
        for at in range(1, 26 if deep else 20):
            add('crash', [I, J], 1, None, crash=[0, at], old=True)
            add('crash', [I, J], 2, b if deep else 1, crash=[0, at], old=True)
            if deep:
                add('crash', [I, HI, BADS['nameless']], 2, 2, crash=[1, at])
        # one failed statement, on either connection; or a connection that is lost
        for at in range(1, 18):
            for lost in (False, True):
                add('fail', [I, J], 1, None, fault=dict(conn=0, at=at, lost=lost), old=True)
                add('fail', [I, J], 2, b - 1, fault=dict(conn=0, at=at, lost=lost), old=True)
        # an item whose statement always fails
        for verb, table in STATEMENTS:
            add('poison', [I, J, K], 1, None, fault=dict(student='001', verb=verb, table=table), old=True)
            add('poison', [I, J, K], 2, b, fault=dict(student='001', verb=verb, table=table), old=True)
            add('poison', [BADS['missing'], I, K], 1, None, fault=dict(student='001', verb=verb, table=table), old=True)
        for c in out:
            yield c, 1

    def bounds(self, tier):
        return ('1 to 4 items, 1 to 3 workers (quick: 3 and 2), up to 2 producers; every schedule up to 2 (thorough: 3, or all) pre-emptions between database operations; '
                'the processes dp.server starts when asked for 1 to 3, and on 1 to 16 processors; a crash before each operation; a failure of each statement, once or always; a lost connection at each statement')

    def run_case(self, case):
        outcomes = set()
        bad = []
        n = 0
        for r, edges in explore(lambda ch: simulate(case, ch), bound=case['bound'], shard=case.get('shard', (0, 1))):
            n += 1
            self.extra['schedules'] += 1
            self.extra['scheduling_points'] += r.sim.ops
            outcomes.add(digest(r.outcome()))
            for m in r.bad:
                bad.append(f'{m} [schedule: {"; ".join(r.sim.trace) or "undisturbed"}]')
            if bad or case.get('single'):
                break
        return bad[:4], sorted(outcomes), n


PROP = P()
