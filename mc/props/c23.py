"""Queueing a batch: every audit which is due is queued once, one student's trouble is not another's; and the area files that are meant are found."""
import contextlib
import io
import itertools
import json
import os
import pathlib
import shutil
import sys
import tempfile

import psycopg2.errors as pge

from mc import serverworld as sw
from mc.core import Property, digest, explore
from mc.props.c22 import argv
from mc.serverworld import Run


def ptr(code, kind='concentration', **kw):
    return {'code': code, 'kind': kind, 'name': code, 'degree': 'B.A.', 'status': 'declared', 'dept': None, 'gpa': 0, **kw}


def kid(stnum, areas, catalog='2018', **kw):
    return {'stnum': stnum, 'catalog': catalog, 'areas': areas, 'name': f'Ünïcode "{stnum}" % \\', **kw}


KIDS = {
    'one': kid('001', [ptr('100')]), 'two': kid('002', [ptr('100'), ptr('200', 'major', catalog='2019')]), 'emph': kid('003', [ptr('100'), ptr('901', 'emphasis')]),
    'none': kid('004', []), 'nocat': kid('005', [ptr('100')], catalog='None'), 'century': kid('006', [ptr('100', catalog='1999'), ptr('200')], catalog='2008'),
    'twice': kid('007', [ptr('100'), ptr('100')]), 'three': kid('008', [ptr('100'), ptr('200'), ptr('300', 'degree')]),
    'alike': kid('011', [ptr('1001'), ptr('100', 'major'), ptr('10')]),
    'noareas': {k: v for k, v in kid('009', []).items() if k != 'areas'}, 'garbage': 'not json', 'down': IOError('connection refused'), 'badarea': kid('010', [ptr('100', catalog='x')]),
}


def due(k):
    """(student, catalog, area) of every audit of this student; None if the record is unusable"""
    s = KIDS[k]
    if not isinstance(s, dict) or 'areas' not in s:
        return None
    if not s['catalog'].isdigit():
        return []
    out = set()
    for a in s['areas']:
        if a['kind'] == 'emphasis':
            continue
        y = a.get('catalog', s['catalog'])
        if not y.isdigit():
            return None
        out.add((s['stnum'], f'{int(y)}-{(int(y) + 1) % 100:02d}', a['code']))
    return sorted(out)


def batch(case, ch):
    r = Run(case, ch)
    srv = r.server
    names = case['kids']
    ids = {KIDS[k]['stnum'] if isinstance(KIDS[k], dict) else f'x-{k}': k for k in names}

    def http(url, fields):
        if url == 'batch':
            return ' '.join(sorted(ids))
        k = ids.get(fields['stnum'])
        if k is None:
            return '<html>404'
        v = KIDS[k]
        return v if not isinstance(v, dict) else json.dumps(v)
    r.sim.http = http
    for student, code in case.get('queued', []):
        srv.seed('queue', student_id=student, area_code=code, area_catalog='2000-01', input_data='{}', run=1)
    for student, code in case.get('blocked', []):
        srv.seed('queue_block', student_id=student, area_code=code, added_by='me', added_at=1)
    srv.seed('result', student_id='009', area_code='100', catalog='2018-19', run=41, input_data='{}', result='{}', revision=1)
    before = {i: dict(x) for i, x in srv.data['queue'].items()}
    fired = []

    def fail(conn, verb, table, params):
        if verb == 'insert' and isinstance(params, dict):
            if [params.get('stnum') or params.get('student_id'), params.get('code') or params.get('area_code')] == case.get('poison'):
                fired.append(1)
                return pge.DiskFull('injected')
    srv.fail = fail

    def main():
        with argv(*case.get('args', [])):
            sw.modules()['batch'].main()
    t = r.sim.spawn('main', main)
    if case.get('late'):
        # someone asks for a what-if meanwhile
        def late():
            try:
                sw.put_row(sw.fake_connect(''), dict(priority=100, student_id=case['late'][0], area_catalog='2018-19', area_code=case['late'][1], input_data='{}', run=-1, expires_at=None, link_only=0))
            except pge.UniqueViolation:
                pass
        r.sim.spawn('p0', late)
    r.sim.run()
    if r.sim.broken or t.state != 'done':
        r.complain('the batch does not end')
    elif t.error:
        r.complain(f'the batch fails: {t.error!r}')
    else:
        check(r, case, before)
    r.finish()
    return r


def check(r, case, before):
    rows = r.server.data['queue']
    skip = {tuple(x) for x in case.get('queued', [])} | {tuple(x) for x in case.get('blocked', [])}
    only = case['args'][case['args'].index('--code') + 1] if '--code' in case.get('args', []) else None
    run = int(case['args'][case['args'].index('--run') + 1]) if '--run' in case.get('args', []) else 42
    for i, x in before.items():
        if rows.get(i) != x:
            r.complain(f'the waiting item {x["student_id"]}/{x["area_code"]} is changed')
    new = {i: x for i, x in rows.items() if i not in before and x['run'] != -1}
    want = {}
    for k in case['kids']:
        items = due(k)
        if items is None:
            continue
        trouble = case.get('poison') and case['poison'][0] == KIDS[k]['stnum'] or case.get('late') and case['late'][0] == KIDS[k]['stnum']
        for st, cat, code in items:
            if (st, code) in skip or only not in (None, code):
                continue
            want[st, cat, code] = (k, 'may' if trouble else 'must')
    seen = {}
    for x in new.values():
        key = (x['student_id'], x['area_catalog'], x['area_code'])
        if key not in want:
            r.complain(f'{key} is queued but not due')
            continue
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1:
            r.complain(f'{key} is queued {seen[key]} times')
        k = want[key][0]
        if json.loads(x['input_data']) != KIDS[k]:
            r.complain(f'{key} is queued with another record')
        if x['run'] != run or x['priority'] != 1 or x['link_only'] or x['expires_at'] is not None:
            r.complain(f'{key} is queued as run {x["run"]}, priority {x["priority"]}')
    for key, (k, must) in want.items():
        if must == 'must' and key not in seen:
            r.complain(f'{key} is not queued')
    for c in r.server.conns:
        if c.tx is not None and c.tx.rows:
            r.complain('rows are left uncommitted')


# -- which file ---------------------------------------------------------------------------------------------------
YEARS = [1999, 2009, 2017, 2018, 2019]


def find_file(case):
    from dp.run import find_area, load_area
    d = tempfile.mkdtemp(prefix='mc-find-')
    bad = []
    try:
        root = pathlib.Path(d)
        for y, codes in case['files'].items():
            (root / sw.cat(int(y))).mkdir()
            for code in codes:
                (root / sw.cat(int(y)) / f'{code}.yaml').write_text(f'name: "{code} of {y}"\n')
        (root / 'notes').mkdir()
        (root / 'notes' / '100.yaml').write_text('name: not this\n')
        for code in ('100', '10', '200'):
            for year in range(1998, 2022):
                fits = [int(y) for y, codes in case['files'].items() if int(y) <= year and code in codes]
                f = find_area(root=root, area_catalog=year, area_code=code)
                want = root / sw.cat(max(fits)) / f'{code}.yaml' if fits else None
                if (f and pathlib.Path(f)) != want:
                    bad.append(f'the area file of {code} in {year} is {f}, should be {want}')
                if f and load_area(f) != {'name': f'{code} of {max(fits)}'}:
                    bad.append(f'{f} is not read as it is written')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad[:3], len(bad)


def expand_cli(case):
    """`dp.bin.expand`: the pairs of files to audit"""
    from dp.bin import expand
    d = tempfile.mkdtemp(prefix='mc-expand-')
    old_env, old_in = os.environ.get('AREA_ROOT'), sys.stdin
    bad = []
    try:
        root = pathlib.Path(d)
        names = []
        for k in case['kids']:
            p = root / f'{k}.json'
            p.write_text(json.dumps(KIDS[k]))
            names.append(str(p))
        os.environ['AREA_ROOT'] = str(root / 'areas')
        args = (['-'] if case['stdin'] else [names[0]]) + ([case['code']] if case['code'] else [])
        sys.stdin = io.StringIO('\n'.join(names) + '\n\n')
        out = io.StringIO()
        with argv(*args), contextlib.redirect_stdout(out):
            expand.cli()
        got = sorted(out.getvalue().split('\n')[:-1])
        want = []
        for k, n in list(zip(case['kids'], names))[:None if case['stdin'] else 1]:
            s = KIDS[k]
            if not s['catalog'].isdigit():
                continue
            items = due(k)
            if case['code']:
                p = next((a for a in s['areas'] if a['code'] == case['code']), {})
                y = int(p.get('catalog', s['catalog']))
                items = [(s['stnum'], sw.cat(y), case['code'])]
            want += [f'{n} {root}/areas/{cat}/{code}.yaml' for _, cat, code in items]
        if got != sorted(want):
            bad.append(f'expand {args} prints {got}, should print {sorted(want)}')
    except SystemExit as e:
        bad.append(f'expand {args} exits with {e}')
    finally:
        sys.stdin = old_in
        os.environ.pop('AREA_ROOT', None)
        if old_env is not None:
            os.environ['AREA_ROOT'] = old_env
        shutil.rmtree(d, ignore_errors=True)
    return bad, sorted(case['kids'])


class P(Property):
    ID = 'C23'
    RULE = 'after a batch the queue holds each audit that is due, once, with the record it was fetched with; area files are the newest at or before the catalog'
    BUDGET = {'quick': 240, 'thorough': 3000}
    CASE_TIMEOUT = 1500
    ASSUMPTIONS = [
        'PostgreSQL is modelled (mc/fakepg.py); the student service answers with a record, with garbage, or not at all',
        'the queue holds at most one row per student and area',
        'the pool of threads is the scheduler\'s; threads are interleaved at database and service calls',
    ]

    def __init__(self):
        self.extra = {'schedules': 0, 'scheduling_points': 0}

    def worker_extra(self):
        return dict(self.extra)

    def prepare(self, tier):
        sw.modules()

    def cases(self, tier):
        deep = tier != 'quick'
        out = []

        def add(kids, bound=0, **kw):
            out.append(dict(kind='batch', kids=kids, items=[], bound=bound, **kw))
        names = list(KIDS)
        # every pair of students, and some triples, undisturbed: the order of the threads is the scheduler's default
        for n in (0, 1, 2):
            for ks in itertools.permutations(names, n):
                add(list(ks), pool=1)
        for ks in itertools.combinations(names, 3):
            add(list(ks), pool=1 if not deep else 2, bound=0 if not deep else 1)
        some = ['one', 'two', 'three', 'emph']
        for k in some:
            for st, cat, code in due(k):
                for how in ('queued', 'blocked'):
                    add(some, pool=2, **{how: [[st, code]]})
                    add(some, pool=2, **{how: [[st, code], ['999', code]] + [['002', '200']] * ([st, code] != ['002', '200'])})
                for other in ('one', 'two', 'three'):
                    ks = [k] + [other] * (other != k)
                    add(ks, pool=2, bound=3 if deep else 2 if len(ks) == 1 or k == 'two' else 1, poison=[st, code])
                    add(ks, pool=1, poison=[st, code])
                    add(ks, pool=2, bound=2 - len(ks) + deep, late=[st, code])
        for args in (['--run', '7'], ['--run', '0'], ['--code', '200'], ['--code', '900'], ['--run', '7', '--code', '100']):
            add(names, pool=2, args=args)
        for code in ('100', '10', '1001', '200'):
            for st, c2 in (('011', '100'), ('011', '1001'), ('002', '100'), ('002', '200')):
                for how in ('queued', 'blocked'):
                    add(['alike', 'two'], pool=1, args=['--code', code], **{how: [[st, c2]]})
        for ks in itertools.combinations(['one', 'two', 'three', 'down'], 2):
            add(list(ks), pool=2, bound=3 if deep else 2)
        if deep:
            for ks in itertools.combinations(['one', 'two', 'emph', 'garbage'], 3):
                add(list(ks), pool=3, bound=2)
        for yrs in itertools.chain.from_iterable(itertools.combinations(YEARS, n) for n in range(len(YEARS) + 1)):
            for split in range(3):
                out.append(dict(kind='find', files={str(y): [['100'], ['100', '200'], ['100', '10'] if y != 2017 else ['10']][split] for y in yrs}))
        for k in names:
            if isinstance(KIDS[k], dict) and k not in ('noareas', 'badarea'):
                for code in (None, '100', '200', '777') + (('10', '1001') if k == 'alike' else ()):
                    out.append(dict(kind='expand', kids=[k], stdin=False, code=code))
                    out.append(dict(kind='expand', kids=[k, 'two', 'none'], stdin=True, code=code))
        for c in out:
            yield c, 1

    def bounds(self, tier):
        return 'up to 4 students out of 13 kinds, 1 to 3 threads, every schedule up to 1 to 3 pre-emptions, one failing insert or one concurrent what-if; all sets of 5 catalogs'

    def run_case(self, case):
        if case['kind'] == 'find':
            bad, o = find_file(case)
            return bad, str(o), 1
        if case['kind'] == 'expand':
            bad, o = expand_cli(case)
            return bad, o, 1
        outcomes, bad, n = set(), [], 0
        for r, _e in explore(lambda ch: batch(case, ch), bound=case['bound']):
            n += 1
            self.extra['schedules'] += 1
            self.extra['scheduling_points'] += r.sim.ops
            outcomes.add(digest(sorted((x['student_id'], x['area_catalog'], x['area_code']) for x in r.server.data['queue'].values())))
            bad += [f'{m} [schedule: {"; ".join(r.sim.trace) or "undisturbed"}]' for m in r.bad]
            if bad:
                break
        return bad[:4], sorted(outcomes), n


PROP = P()
