"""A folder of student files: dp.bin.index lists the declared areas, dp.bin.batch audits them, each as it is audited alone."""
import contextlib
import io
import json
import os
import sys
import tempfile

from mc.core import Property, explore
from mc.gen import q, req, subj
from mc.world import area, course, student

AREAS = {
    'none': [],
    'maj': [dict(code='100', kind='major', name='One', status='declared', degree='B.A.', dept='ABC')],
    'maj, own catalog': [dict(code='100', kind='major', name='One', status='declared', degree='B.A.', catalog='2019-20')],
    'maj, long catalog': [dict(code='100', kind='major', name='One', status='declared', degree='B.A.', catalog='2017-2018')],
    'two': [dict(code='200', kind='degree', name='Bee Ay', status='declared', degree='B.A.', catalog='2018-19'), dict(code='100', kind='major', name='One', status='certified', degree='B.M.', catalog='2016-17')],
    'twice': [dict(code='100', kind='major', name='One', status='declared', degree='B.A.'), dict(code='100', kind='major', name='One', status='declared', degree='B.M.')],
}
STNUMS = ['100001', '100002', '99']
CATALOGS = ['2018-19', '2019-20', '2016-17']
QUERIES = {
    '1=1': lambda s, a: True,
    "code = '100'": lambda s, a: a['code'] == '100',
    "type = 'major' and status = 'declared'": lambda s, a: a['kind'] == 'major' and a['status'] == 'declared',
    "catalog >= '2018'": lambda s, a: year(s, a) >= '2018',
    "degree = 'B.M.' or stnum = '99'": lambda s, a: a['degree'] == 'B.M.' or s['stnum'] == '99',
    "dept = 'ABC'": lambda s, a: a.get('dept') == 'ABC',
    "name = 'Bee Ay'": lambda s, a: a['name'] == 'Bee Ay',
}
RULES = {
    '2017-18/100': {'all': [{'course': 'AAA 101'}]},
    '2018-19/100': {'all': [{'course': 'AAA 101'}, {'course': 'BBB 101'}]},
    '2019-20/100': {'all': [{'course': 'AAA 101'}, q(2), req('R', q(1, subj('BBB')))]},
    '2017-18/200': {'any': [q(3), {'course': 'CCC 101'}]},
    '2018-19/200': {'all': [req('S', {'any': [q(2), {'course': 'CCC 101'}]})]},
    '2018-19/300': {'all': [{'course': 'CCC 101'}]},
}
RECORDS = [['AAA 101', 'BBB 101'], ['CCC 101'], ['AAA 101', 'AAA 201', 'CCC 101']]
CODES = {'100': 'concentration', '200': 'degree', '300': 'major'}


def year(s, a):
    return a.get('catalog', s['catalog']).split('-')[0]


def listed(s, a):
    y = year(s, a)
    return [s['stnum'], f'{y}-{str(int(y) + 1)[2:]}', a['code']]


def record(i, areas, catalog):
    rows = [course(ident, str(10 * i + j), year='2018', term='1', grade='ABC'[j]) for j, ident in enumerate(RECORDS[i % 3])]
    s = student(rows)
    s.update(stnum=STNUMS[i], areas=[dict(a) for a in areas], catalog=catalog)
    return s


class P(Property):
    ID = 'C30'
    RULE = ('a case fails when dp.bin.index does not list exactly the declared areas asked for of the student files there are, each declaration once; or when dp.bin.batch does not audit every line it is given once, '
            'against the newest area file at or before the catalog, with the result of a single audit')
    ASSUMPTIONS = ['the student files have the name of the student number', 'a student file which was indexed does not change, unless the index is made anew', 'the order of the areas of one student is left open']

    def cases(self, tier):
        yield from explore(lambda ch: self.index(ch, tier), 3 if tier == 'quick' else 5)
        yield from explore(lambda ch: self.batch(ch, tier), 3 if tier == 'quick' else 4)

    def index(self, ch, tier):
        n = ch('students', [2, 1, 3, 0])
        people = [[ch(f'areas{i}', [list(AREAS)[(i + k + 1) % len(AREAS)] for k in range(len(AREAS))]), ch(f'catalog{i}', CATALOGS), ch(f'when{i}', ['before', 'later', 'broken at first'])] for i in range(n)]
        ops = [ch(f'op{k}', ['index', 'end', 'clean', 'again']) for k in range(2)]
        return {'what': 'index', 'people': people, 'ops': ops, 'query': ch('query', list(QUERIES)), 'more': ch('more', [False, True]), 'pipe': ch('pipe', [False, True])}

    def batch(self, ch, tier):
        n = ch('lines', [2, 1, 3, 4])
        lines = [[ch(f'student{i}', [0, 1, 2][i % 3:] + [0, 1, 2][:i % 3]), ch(f'catalog{i}', ['2018-19', '2017-18', '2019-20', '2025-26', '2018-2019']), ch(f'code{i}', ['100', '200', '300'])] for i in range(n)]
        form = ch('form', [['--table'], [], ['--quiet'], ['--table', '-n', '2'], ['--no-paths', '--quiet'], ['--no-ranks'], ['--invocation']])
        return {'what': 'batch', 'lines': lines, 'form': form, 'space': ch('space', [False, True])}

    # --- running the programs ---
    def program(self, module, argv, text=''):
        import importlib
        mod = importlib.import_module(module)
        old = sys.argv, sys.stdin
        out, err = io.StringIO(), io.StringIO()
        try:
            sys.argv = [module, *argv]
            sys.stdin = io.StringIO(text)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    code = mod.main()
                except SystemExit as e:
                    code = e.code
        finally:
            sys.argv, sys.stdin = old
        return code, out.getvalue(), err.getvalue()

    def folder(self, d, code_catalogs=RULES):
        import yaml
        for name, result in code_catalogs.items():
            p = os.path.join(d, 'areas', name + '.yaml')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            code = name.split('/')[1]
            with open(p, 'w') as f:
                yaml.safe_dump(area(result, type=CODES[code], name=f'Area {name}', code=code), f)

    def put(self, d, s):
        with open(os.path.join(d, 'students', s['stnum'] + '.json'), 'w') as f:
            json.dump(s, f)

    def run_case(self, case):
        env = os.environ.pop('DP_STUDENT_DIR', None)
        with tempfile.TemporaryDirectory() as d:
            os.mkdir(os.path.join(d, 'students'))
            try:
                return getattr(self, 'run_' + case['what'])(case, d)
            finally:
                if env is not None:
                    os.environ['DP_STUDENT_DIR'] = env

    def run_index(self, case, d):
        people = [(record(i, AREAS[a], c), when) for i, (a, c, when) in enumerate(case['people'])]
        there = []
        for s, when in people:
            if when == 'before':
                self.put(d, s)
                there.append(s)
            elif when == 'broken at first':
                with open(os.path.join(d, 'students', s['stnum'] + '.json'), 'w') as f:
                    f.write('{"stnum": "')
        v, seen = [], []

        def go(*flags):
            return self.program('dp.bin.index', ['--dir', os.path.join(d, 'students'), *flags, case['query']])
        broken = any(w == 'broken at first' for _, w in people)
        if broken:
            try:
                go()
                v.append('a file which is not JSON is passed over')
            except ValueError:
                pass
        for k, op in enumerate(['index', *case['ops']]):
            if op == 'end':
                break
            if k == 1 or broken:
                for s, when in people:
                    if when == 'broken at first' or (when == 'later' and k == 1):
                        if s not in there:
                            self.put(d, s)
                            there.append(s)
                broken = False
            flags = (['--clean'] if op == 'clean' else []) + (['--more'] if case['more'] else [])
            code, out, err = go(*flags)
            want = sorted(listed(s, a) + ([a['name'], a['kind']] if case['more'] else []) for s in there for a in s['areas'] if QUERIES[case['query']](s, a))
            got = [x.split(' ') for x in out.splitlines()]
            if case['more']:
                got = [[*x[:3], ' '.join(x[3:-1]), x[-1]] for x in got]
            if code:
                v.append(f'dp.bin.index exits with {code!r}')
            if sorted(got) != want:
                v.append(f'step {k} ({op}) lists {got} for {want}')
            if [x[0] for x in got] != sorted(x[0] for x in got):
                v.append(f'not in the order of the students: {got}')
            seen.append(got)
        if case['pipe'] and not case['more'] and not v:
            v += self.piped(case, d, there, out)
        return v, seen, len(seen)

    def piped(self, case, d, there, text):
        self.folder(d)
        want = sorted({tuple(listed(s, a)) for s in there for a in s['areas'] if QUERIES[case['query']](s, a)})
        found = [(s, c, code) for s, c, code in want if self.newest(c, code)]
        code, out, err = self.program('dp.bin.batch', ['--dir', os.path.join(d, 'students'), '--areas-dir', os.path.join(d, 'areas'), '--table'], text)
        if not want:
            return [] if code else ['nothing to audit is not an error']
        if len(found) < len(want):
            return [] if code else [f'an audit without an area file is not an error: {out}']
        rows = [x.split(',')[:3] for x in out.splitlines()[1:]]
        if code or [tuple(r) for r in rows] != want:
            return [f'the audits of {want} are {rows} (exit {code!r}) {err[:200]}']
        return []

    @staticmethod
    def newest(catalog, code):
        y = int(catalog.split('-')[0])
        there = [n for n in RULES if n.endswith('/' + code) and int(n.split('-')[0]) <= y]
        return max(there) if there else None

    def run_batch(self, case, d):
        self.folder(d)
        people = [record(i, [], '2018-19') for i in range(3)]
        for s in people:
            self.put(d, s)
        lines = [(STNUMS[i], c, code) for i, c, code in case['lines']]
        sep = '  ' if case['space'] else ' '
        text = ''.join(sep.join(x) + (' \n' if case['space'] else '\n') for x in lines)
        code, out, err = self.program('dp.bin.batch', ['--dir', os.path.join(d, 'students'), '--areas-dir', os.path.join(d, 'areas'), *case['form']], text)
        todo = sorted(set(lines)) * (2 if '-n' in case['form'] else 1)
        done = []
        for x in todo:
            if not self.newest(*x[1:]):
                break
            done.append(x)
        v = []
        if bool(code) != (len(done) < len(todo)):
            v.append(f'exit {code!r} for {todo}: {err[:300]}')
        if '--invocation' in case['form']:
            want = [f"python3 dp.py --student '{os.path.join(d, 'students', s)}.json' --area '{os.path.join(d, 'areas', self.newest(c, a))}.yaml'" for s, c, a in done]
            if [x for x in out.splitlines() if x.startswith('python3')] != want:
                v.append(f'{out} for {want}')
        elif '--table' in case['form']:
            want = ['stnum,catalog,area_code,gpa,rank,max'] + [self.row(people, x) for x in done]
            got = out.splitlines()[:len(done) + 1]
            if got != want or (not code and len(out.splitlines()) != len(want)):
                v.append(f'table is {out.splitlines()} for {want}')
        else:
            want = ''.join(self.text(people, x, case['form']) for x in done)
            # the line with the counts and times, and empty lines, aside
            got = [x for x in out.splitlines() if x.strip() and not x.startswith('could not find') and ' checked' not in x]
            want = [x for x in want.splitlines() if x.strip() and ' checked' not in x]
            if got != want:
                v.append(f'report is {got} for {want}')
        return v, [out if '--table' in case['form'] else None, code], 1 + len(done)

    def alone(self, people, x):
        from dp.run import run
        from dp.audit import Arguments, ResultMsg
        s = next(p for p in people if p['stnum'] == x[0])
        n = self.newest(*x[1:])
        spec = area(RULES[n], type=CODES[x[2]], name=f'Area {n}', code=x[2])
        return [m for m in run(Arguments(), student=json.loads(json.dumps(s)), area_spec=spec) if isinstance(m, ResultMsg)][-1]

    def row(self, people, x):
        r = json.loads(json.dumps(self.alone(people, x).result.to_dict()))
        return ','.join([*x, str(round(float(r['gpa']), 2)), str(round(float(r['rank']), 2)), str(round(float(r['max_rank'])))])

    def text(self, people, x, form):
        from dp.__main__ import result_str
        m = self.alone(people, x)
        t = result_str(m, as_json=False, as_json_and_transcript=False, gpa_only=False, show_paths='--no-paths' not in form, show_ranks='--no-ranks' not in form, claimed=False)
        return t + '\n'

    def bounds(self, tier):
        k = 3 if tier == 'quick' else 5
        return (f'0-3 students of {len(AREAS)} lists of areas and {len(CATALOGS)} catalogs, there from the start, added later or broken at first, 1-3 runs of dp.bin.index with {len(QUERIES)} queries, up to {k} deviations, piped to dp.bin.batch or not; '
                f'1-4 lines of 3 students x 5 catalogs x 3 areas in 7 forms, up to {3 if tier == "quick" else 4} deviations')


PROP = P()
