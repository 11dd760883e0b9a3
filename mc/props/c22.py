"""The result store: after every history of audits, what-ifs, links and clean-ups, one active result per student and area, and nothing lost."""
import contextlib
import io
import itertools
import json
import sys

from mc import serverworld as sw
from mc.core import Property, digest
from mc.serverworld import Run, STUDENTS, check_row, expected, fake_connect, item, put_row, queue_row

PAST, FUTURE = 10, 10**9


@contextlib.contextmanager
def argv(*a):
    old, sys.argv = sys.argv, ['prog', *a]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.argv = old


def files():
    """student files, next to the area files"""
    d = sw.area_root() / 'students'
    if not d.exists():
        d.mkdir()
        for k, s in STUDENTS.items():
            (d / f'{k}.json').write_text(json.dumps(s))
    return d


def op(name, s='s1', code='100', year=2018, link=False, expires=None, how='queue'):
    return dict(name=name, how=how, s=s, code=code, year=year, link=link, expires=expires)


OPS = [
    op('audit'), op('less', 's1b'), op('progress', 's1c'), op('later', year=2019), op('less-later', 's1b', year=2019), op('link', link=True, expires=PAST),
    op('link-less', 's1b', link=True), op('area', code='200'), op('waived', 's1w'), op('other', 's2'), op('unnamed', 's3', year=2019), op('fails', 'classless'), op('what-if', 's1b', year=2021, how='whatif'),
    op('link-cli', 's1c', link=True, how='cli'), op('expiring', expires=PAST), op('keeps', 's1b', expires=FUTURE), op('clear', how='clear'),
]
# once more with a statement that fails for this student
OPS += [op('broken-' + v, how='queue') for v in ('delete', 'update', 'insert')]


def step(r, o, run):
    """perform one operation; returns the item it audits, if any"""
    m = sw.modules()
    it = item(o['s'], o['code'], sw.cat(o['year']), run=run, link_only=o['link'], expires_at=o['expires'])
    if o['how'] == 'queue':
        put_row(fake_connect(''), queue_row(it))
    elif o['how'] == 'whatif':
        it['run'] = -1
        with argv('--student', str(files() / f'{o["s"]}.json'), '--code', o['code'], '--catalog', str(o['year'])):
            m['whatif'].main()
    elif o['how'] == 'cli':
        it['expires_at'] = None
        with argv('--area', str(sw.area_root() / sw.cat(o['year']) / f'{o["code"]}.yaml'), '--student', str(files() / f'{o["s"]}.json'), '--run', str(run), '--link-only'):
            m['cli'].main()
        return it
    else:
        with argv():
            m['clear_expired'].main()
        return None
    conn = fake_connect('')
    conn.set_isolation_level(0)
    with conn.cursor() as curs:
        m['worker'].process_queue(curs=curs, area_root=sw.area_root())
    if conn.tx is not None:
        r.complain('the queue is processed and the transaction left open')
    return it


def play(r, ops):
    for n, o in enumerate(ops):
        srv = r.server
        before = {i: dict(x) for i, x in srv.data['result'].items()}
        if o['name'].startswith('broken-'):
            srv.fail = sw.Fault(dict(student='001', verb=o['name'][7:], table='result'))
        it = step(r, o, 100 + n)
        srv.fail = None
        after = srv.data['result']
        where = f'after {[x["name"] for x in ops[:n + 1]]}: '
        compare(r, o, it, before, after, where)
        if srv.data['queue']:
            r.complain(where + 'the queue is not empty')
            break


def compare(r, o, it, before, after, where):
    new = [x for i, x in after.items() if i not in before]
    gone = [x for i, x in before.items() if i not in after]
    if it is None:
        # clearing
        if new:
            r.complain(where + 'clearing adds results')
        for i, x in before.items():
            latest = max(y['ts'] for y in before.values() if (y['student_id'], y['catalog'], y['area_code']) == (x['student_id'], x['catalog'], x['area_code']))
            expired = x['expires_at'] is not None and x['expires_at'] <= r.server.clock
            must_go = expired and x['ts'] != latest and not x['is_active']
            if must_go and i in after:
                r.complain(where + f'the expired result of run {x["run"]} is kept')
            if not must_go and i not in after:
                r.complain(where + f'clearing removes the result of run {x["run"]}, which is {"the active one" if x["is_active"] else "the latest of its catalog" if expired else "not expired"}')
            if i in after and after[i] != x:
                r.complain(where + 'clearing changes a result')
        return
    kind = expected(it['s'], it['catalog'], it['code'])[0]
    ok = kind == 'stored' and not (o['name'].startswith('broken-') and o['name'] != 'broken-none')
    if not ok:
        if before != after:
            r.complain(where + 'an audit that fails changes the stored results')
        return
    if len(new) != 1:
        r.complain(where + f'{len(new)} results are stored')
        return
    row = new[0]
    check_row(r, it, row)
    if row['ts'] is None or row['iterations'] is None or row['duration'] is None or row['per_iteration'] is None:
        r.complain(where + 'a result without its time')
    key = (row['student_id'], row['area_code'])
    mine = [x for x in after.values() if (x['student_id'], x['area_code']) == key and x is not row]
    if any(x['revision'] >= row['revision'] for x in mine):
        r.complain(where + f'the new revision {row["revision"]} is not above {[x["revision"] for x in mine]}')
    if not any(True for x in before.values() if (x['student_id'], x['area_code']) == key) and row['revision'] != 1:
        r.complain(where + f'the first revision is {row["revision"]}')
    for x in gone:
        same = (x['student_id'], x['area_code'], x['catalog'], x['result']) == (row['student_id'], row['area_code'], row['catalog'], row['result'])
        if not same or it['link_only']:
            r.complain(where + f'the result of run {x["run"]} is lost')
    for i, x in after.items():
        if i not in before:
            continue
        b = dict(before[i])
        if (x['student_id'], x['area_code']) == key and not it['link_only']:
            b['is_active'] = x['is_active']
            if x['is_active']:
                r.complain(where + f'the result of run {x["run"]} is still active')
            if not x['link_only'] and (x['catalog'], x['result']) == (row['catalog'], row['result']):
                r.complain(where + f'the same result is stored twice, by runs {x["run"]} and {row["run"]}')
        if b != x:
            r.complain(where + f'the result of run {x["run"]} is changed')


class P(Property):
    ID = 'C22'
    RULE = 'after every operation of every history the result table is what the reference store says'
    BUDGET = {'quick': 240, 'thorough': 3000}
    ASSUMPTIONS = [
        'PostgreSQL is modelled (mc/fakepg.py)',
        'whether a link-only copy of a result survives when the same result is stored again is left open',
    ]

    def prepare(self, tier):
        sw.modules()
        files()

    def cases(self, tier):
        depth = 3 if tier == 'quick' else 4
        # the last two operations of a history are enumerated inside one case
        for n in range(depth - 1):
            for head in itertools.product(range(len(OPS)), repeat=n):
                yield dict(head=list(head), items=[]), 1

    def bounds(self, tier):
        return f'all histories of up to {3 if tier == "quick" else 4} operations out of {len(OPS)}'

    def run_case(self, case):
        head = [OPS[k] for k in case['head']]
        outcomes = set()
        n = 0
        bad = []
        for a in OPS:
            for b in OPS:
                n += 1
                r = Run(dict(items=[]), lambda name, options, free=False: options[0])
                r.start_store()
                play(r, head + [a, b])
                outcomes.add(digest(r.outcome()))
                bad += r.bad
                if len(bad) > 5:
                    return bad, 'violation', n
        return bad, sorted(outcomes), n


PROP = P()
