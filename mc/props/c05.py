"""Determinism: the same record and area file give the same answer, whatever order the rows, keys and hash tables happen to be in."""
import copy
import itertools
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from mc.core import Property, digest, explore
from mc.exworlds import SPECS, places
from mc.gen import LEAVES, q, qs, req, subj
from mc.hashrun import observe
from mc.world import area, course, exc, ip, student

ROWS = [
    course('AAA 101', '1', grade='B', attributes=['x', 'y', 'math_perspective_a', 'math_perspective_b'], gereqs=['X', 'Y']),
    course('AAA 201', '2', grade='C', year='2018', term='3', gereqs=['Y'], attributes=['y', 'math_perspective_a', 'intlr_region_i', 'rel_tradition_r']),
    course('BBB 101', '3', grade='A', year='2019', attributes=['x'], credits='0.50'),
    course('CCC 201', '4', grade='S', grade_option='s/u', flag_gpa=False, year='2019'),
    ip('AAA 101', '1'), ip('BBB 201', '2', future=True), course('AAA 101', '3', sub_type='lab', credits='0.25', grade='A-'), course('BBB 101', '4', grade='B-'),
    course('AAA 201', '4', grade='F'),
    # one course four times
    *[course('AAA 101', str(i), grade=g, year=y, term=t) for i, g, y, t in [(1, 'B', '2016', '1'), (2, 'A', '2017', '1'), (3, 'C', '2017', '1'), (4, 'B', '2017', '3')]],
]
SETS = [(0, 1, 2, 3), (4, 5, 6, 7), (0, 5, 6, 3), (9, 10, 11, 12), (0, 1, 2, 8), (0, 1, 6, 7), (4, 1, 2, 3)]
MORE = {
    'terms': {'all': [q(3, key='count(terms)'), q(2, allow_claimed=True, key='count(subjects)')]},
    'years': {'all': [q(3, allow_claimed=True, key='count(years)'), q(1)]},
    'best': {'all': [req('R', {'any': [LEAVES['A1'], LEAVES['A2'], LEAVES['B1']], 'audit': {'all': [{'assert': {'sum(credits)': {'$gte': 2}}}, {'assert': {'average(grades)': {'$gte': 3}}}, {'assert': {'count(terms_from_most_common_course)': {'$gte': 2}}}]}})]},
    'claimed': {'all': [q(1, subj('AAA')), q(1), {'from': 'claimed', 'all': [{'assert': {'count(courses)': {'$gte': 2}}}, {'assert': {'sum(credits)': {'$gte': 2}}}]}, {'course': 'AAA 101', 'from_claimed': True}]},
    'most': {'all': [q(2, key='sum(credits_from_single_subject)'), q(2, key='count(math_perspectives)', allow_claimed=True)]},
    'int': {'all': [q(2, key='count(intlr_regions)'), q(2, key='count(religion_traditions)', allow_claimed=True)]},
    'dist': {'all': [q(4, key='count(distinct_courses)'), q(3, key='count(math_perspectives)', allow_claimed=True)]},
    'ties': {'any': [q(2, subj('AAA')), q(2, subj('BBB')), q('1.75', key='sum(credits)'), {'course': 'ZZZ 101'}]},
    'ge': {'all': [req(f'G{g}', q(1, {'gereqs': {'$eq': g}})) for g in 'XY'] + [req('A', q(2, {'attributes': {'$in': ['x', 'y']}}))]},
    'lq': {'all': [q(1, limit=[{'at_most': 1, 'where': {'number': {'$eq': '101'}}}]), q(2, limit=[{'at_most': 1, 'where': subj('AAA')}, {'at_most': '1 credit', 'where': {'level': {'$eq': 100}}}])]},
    'lq2': {'any': [q(2, limit=[{'at_most': '2 credits', 'where': subj('AAA')}]), q(2, limit=[{'at_most': 2, 'where': {'grade': {'$gte': 'C'}}}]), {'course': 'ZZZ 101'}]},
    'lim': {'all': [q(3), q(1, allow_claimed=True)]},
    'multi2': {'all': [req('R', {'course': 'AAA 101'}), req('S', q(2)), req('T', {'course': 'AAA 101'})]},
}
EXTRA = {'lim': {'limit': [{'where': subj('AAA'), 'at_most': 1}, {'where': {'level': {'$lt': 300}}, 'at_most': '2 credits'}]},
         'multi2': {'multicountable': {'AAA 101': [['R'], ['S'], ['T']]}}}
KINDS = [{}, {'type': 'major', 'degree': 'B.A.'}, {'type': 'degree', 'degree': 'B.A.'}]


def find_seeds():
    """the fewest hash seeds under which a set of the course ids 1..4 is walked in every possible order"""
    def f(s):
        env = {'PYTHONHASHSEED': str(s), 'PATH': os.environ.get('PATH', '')}
        return s, subprocess.run([sys.executable, '-S', '-E' if False else '-B', '-c', "print(''.join({str(i) for i in range(1, 5)}))"], env=env, capture_output=True, text=True).stdout.strip()
    seen = {}
    with ThreadPoolExecutor(8) as ex:
        for s, o in ex.map(f, range(400)):
            seen.setdefault(o, s)
    return sorted(seen.values())


def under_seed(seed, cases, full=False):
    env = {**os.environ, 'PYTHONHASHSEED': str(seed)}
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.hashrun'] + (['full'] if full else []), env=env, text=True, capture_output=True,
                       input=''.join(json.dumps({'student': c['student'], 'spec': c['spec']}) + '\n' for c in cases))
    out = [json.loads(x) for x in p.stdout.splitlines()]
    if len(out) != len(cases):
        raise RuntimeError(f'seed {seed}: {len(out)} answers for {len(cases)} cases: {p.stderr[-500:]}')
    return out


def first_difference(a, b):
    a, b = json.dumps(a), json.dumps(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'...{a[max(0, i - 60):i + 60]!r} / ...{b[max(0, i - 60):i + 60]!r}'


class P(Property):
    ID = 'C05'
    RULE = ('a case fails when the answer (every byte of the reported result, which solution it is, how many were tried) changes with the order of the transcript rows, of the '
            'exceptions at different places, of the keys of the area file or of string hash tables')
    ASSUMPTIONS = ['hash orders are controlled through PYTHONHASHSEED; the seeds are chosen so that a set of four course ids is walked in each of its 24 orders',
                   'rows with the same clbid are not permuted: the first of them keeps its id, by design']

    def cases(self, tier):
        yield from explore(lambda ch: self.world(ch, tier))

    def world(self, ch, tier):
        name = ch('spec', list(SPECS) + list(MORE))
        kind = ch('kind', KINDS)
        rows = [copy.deepcopy(ROWS[i]) for i in ch('rows', SETS if tier != 'quick' else SETS[:5] if name in MORE else SETS[:3])]
        stu = student(rows, areas=[{'code': '000', 'kind': 'major', 'name': 'Test', 'degree': 'B.A.', 'status': 'declared', 'dept': 'AAA', 'gpa': 0, 'terms': ['20181']},
                                   {'code': '111', 'kind': 'concentration', 'name': 'Other', 'degree': 'B.A.', 'status': 'declared', 'dept': 'AAA', 'gpa': 0, 'terms': ['20181']}])
        spec = area(copy.deepcopy(SPECS.get(name) or MORE[name]), **copy.deepcopy(EXTRA.get(name, {})), **kind)
        if ch('exceptions', [0, 1] if tier != 'quick' or not kind else [0]):
            at = [p for k, p in places(stu, spec) if k in ('query', 'course', 'count')]
            for (i, c), p in zip([(0, '1'), (1, '2'), (2, '3')], at):
                stu['exceptions'].append(exc(['insert', 'force-insert', 'override'][i], p, **({'clbid': c} if i < 2 else {})))
        return {'student': stu, 'spec': spec}

    SEEDS = None
    DIGESTS = {}

    def prepare(self, tier):
        P.SEEDS = find_seeds()
        if len(P.SEEDS) < 24:
            raise RuntimeError('the seeds do not reach every order of a set of four ids')
        if tier == 'thorough':
            P.SEEDS = sorted(set(P.SEEDS) | set(range(120)))
        cases = [c for c, _ in self.cases(tier)]
        with ThreadPoolExecutor(8) as ex:
            for s, out in zip(P.SEEDS, ex.map(lambda s: under_seed(s, cases), P.SEEDS)):
                for c, x in zip(cases, out):
                    P.DIGESTS.setdefault(digest(c), {})[s] = x[0]

    def run_case(self, case):
        bad, runs = [], 0
        k = digest(case)
        if k not in P.DIGESTS:
            P.DIGESTS[k] = {s: under_seed(s, [case])[0][0] for s in P.SEEDS}
        by = P.DIGESTS[k]
        runs += len(by)
        if len(set(by.values())) > 1:
            s0 = P.SEEDS[0]
            s1 = next(s for s in P.SEEDS if by[s] != by[s0])
            a, b = under_seed(s0, [case], True)[0][1], under_seed(s1, [case], True)[0][1]
            bad.append(f'the answer depends on the hash seed ({s0}, {s1}): {first_difference(a, b)}')
        base = observe(case['student'], case['spec'])
        if isinstance(base, str):
            return bad + [base], 'crash', runs
        for perm in itertools.permutations(range(len(case['student']['courses']))):
            stu = {**case['student'], 'courses': [case['student']['courses'][i] for i in perm]}
            x = observe(stu, case['spec'])
            runs += 1
            if self.norm(x) != self.norm(base):
                bad.append(f'the answer depends on the order of the rows {perm}: {first_difference(self.norm(base), self.norm(x))}')
                break
        ex = case['student']['exceptions']
        for perm in itertools.permutations(ex) if len(ex) > 1 else []:
            x = observe({**case['student'], 'exceptions': list(perm)}, case['spec'])
            runs += 1
            if x != base:
                bad.append(f'the answer depends on the order of the exceptions: {first_difference(base, x)}')
                break
        for f in (lambda items: list(reversed(items)), lambda items: sorted(items, key=lambda kv: kv[0])):
            x = observe({**reorder(case['student'], f)}, reorder(case['spec'], f))
            runs += 1
            if x != base:
                bad.append(f'the answer depends on the order of keys: {first_difference(base, x)}')
                break
        return bad, digest(base), runs

    @staticmethod
    def norm(x):
        # the transcript which is sent along lists the rows in the order of the record
        return [[*m[:4], sorted(m[4])] if isinstance(m, list) else m for m in x] if not isinstance(x, str) else x

    def bounds(self, tier):
        return (f'{len(SPECS) + len(MORE)} area files x major/degree/concentration x 3-5 (thorough 7) transcripts of 4 rows x with and without exceptions; each under every order of the rows, '
                f'of the exceptions, two further key orders, and the hash seeds {P.SEEDS}')


def reorder(x, f):
    if isinstance(x, dict):
        return {k: reorder(v, f) for k, v in f(list(x.items()))}
    if isinstance(x, list):
        return [reorder(v, f) for v in x]
    return x


PROP = P()
