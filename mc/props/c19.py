"""The shortcut is invisible: solving unrelated requirements on their own gives the answer of solving everything together."""
import copy
import json
import os
import subprocess
import sys

from mc.core import Property, explore
from mc.exworlds import SETS, SPECS, places
from mc.gen import LEAVES, q, qs, req, rows, subj
from mc.hashrun import brief
from mc.world import area, exc, student

A, B, Z = {'course': 'AAA 101'}, {'course': 'BBB 101'}, {'course': 'ZZZ 101'}
PARTS = {
    'A1': A, 'A2': LEAVES['A2'], 'B1': B, 'Z': Z, 'A1g': LEAVES['A1g'], 'A2opt': LEAVES['A2opt'], 'free': LEAVES['A1free'],
    'q1': q(1), 'q2': q(2), 'qA': q(1, subj('AAA')), 'qA2': q(2, subj('AAA')), 'qB': q(1, subj('BBB')), 'qB2': q(2, subj('BBB')), 'sum': q('1.5', key='sum(credits)'), 'gpa': q('2.5', subj('AAA'), key='average(grades)'),
    'look': q(2, claim=False, allow_claimed=True), 'low': q(1, subj('BBB'), op='$lte'),
    'any': {'any': [A, B]}, 'both': {'both': [LEAVES['A2'], q(1, subj('BBB'))]}, 'most': {'count': 1, 'at_most': True, 'of': [A, LEAVES['A2']]},
    'audit': {'any': [A, B], 'audit': {'assert': {'count(courses)': {'$gte': 1}}}},
    'R-A': req('P', {'all': [A, q(1, subj('AAA'))]}), 'R-B': req('Q', q(1, subj('BBB'))), 'R-dis': req('V', q(2, claim=False, allow_claimed=True), disjoint=True), 'R-nodis': req('W', B, disjoint=False),
    'dept': {'name': 'D', 'department_audited': True, 'message': 'm'}, 'contract': req('K', B, contract=True),
    'if': {'$if': {'has-course': 'AAA 101'}, '$then': LEAVES['A2'], '$else': B}, 'then': {'$if': {'has-course': 'ZZZ 101'}, '$then': A},
    'prof': {'proficiency': 'Guitar', 'course': A},
    'qwhen': qs([{'count(courses)': {'$gte': 1}}, {'$when': {'query-has-course-with-attribute': 'att_x'}, '$then': {'assert': {'count(subjects)': {'$gte': 2}}}}]),
}
# rules over what the others claimed
CLAIMED = {
    'claimed1': {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 1}}}, 'claimed3': {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 3}}}, 'claimedA': {'from': 'claimed', 'where': subj('AAA'), 'assert': {'count(courses)': {'$gte': 1}}},
    'takesA': {'course': 'AAA 101', 'from_claimed': True}, 'R-takes': req('X', {'all': [A, {'course': 'AAA 101', 'from_claimed': True}]}),
}
PENDING = {'pending-current', 'pending-registered'}
LOOSE = {'exceptions'}
# ... in every place
INSIDE = {'plain': lambda r: r, 'then': lambda r: {'$if': {'has-course': 'AAA 101'}, '$then': r}, 'else': lambda r: {'$if': {'has-course': 'ZZZ 101'}, '$then': A, '$else': r},
          'beside': lambda r: {'all': [r, B]}, 'req': lambda r: req('Y', r), 'inner': lambda r: req('Y', {'all': [r, q(1, {'subject': {'$eq': 'CCC'}})]}), 'alone': lambda r: {'any': [r]},
          'second': lambda r: {'any': [q(3, subj('BBB')), r]}}
# rules which can be met in only one way by two courses of either subject
FIXED = {'qA2': PARTS['qA2'], 'qB2': PARTS['qB2'], 'R-A2': req('P', PARTS['qA2']), 'B-any': {'any': [B, {'course': 'ZZZ 101'}]}, 'look': PARTS['look'], 'Z': Z, 'if': {'$if': {'has-course': 'AAA 101'}, '$then': PARTS['qB2']}, 'A-sum': q('2', subj('AAA'), key='sum(credits)')}
OVER = {k: v for k, v in CLAIMED.items() if k != 'R-takes'}
OVER['claimedB'] = {'from': 'claimed', 'where': subj('BBB'), 'assert': {'count(courses)': {'$gte': 2}}}
OVER['most'] = {'from': 'claimed', 'assert': {'count(courses)': {'$lte': 1}}}
OVER['free'] = {'from': 'claimed', 'claim': False, 'assert': {'count(courses)': {'$gte': 2}}}
TAKEN = ['abcd', 'abp', 'acf', 'pfi', 'ab', 'cp', '']


def group(names, k):
    out = []
    for i, n in enumerate(names):
        d = copy.deepcopy(PARTS.get(n) or CLAIMED[n])
        if 'name' in d:
            d['name'] += str(i)
        out.append(d)
    return {'all': out} if k == 'all' else {'any': out} if k == 'any' else {'count': k, 'of': out}


def world(ch, tier):
    kind = ch('kind', ['two', 'three', 'claimed', 'fixed', 'audited', 'choice', 'exceptions', 'bounds', 'major', 'finding'])
    kw, names = {}, None
    parts = list(PARTS)
    if kind == 'finding':
        names, taken, how = ch('which', [
            (['q1', 'claimed1', 'claimed3'], 'acf', 'all'), (['q1', 'claimed3', 'claimed3'], 'abcd', 'all'), (['q1', 'claimedA', 'takesA'], 'cp', 'all'),
            (['B1', 'A1'], 'cp', 'any'), (['qB2', 'qA'], 'acf', 'any'), (['qA2', 'A1', 'qB'], 'acf', 2),
        ])
        return dict(kind=kind, student=student(rows(taken)), spec=area(group(names, how)), names='+'.join(names))
    elif kind == 'two':
        names = [ch('a', parts), ch('b', parts)]
    elif kind == 'three':
        few = ['A1', 'qA', 'qB', 'q2', 'R-A', 'R-B', 'both', 'most', 'look', 'A2opt', 'dept', 'if'] + ([] if tier == 'quick' else ['sum', 'gpa', 'any', 'audit', 'R-dis', 'R-nodis', 'contract', 'low', 'Z'])
        a = ch('a', few)
        b = ch('b', few[few.index(a):])
        names = [a, b, ch('c', few[few.index(b):])]
    elif kind == 'claimed':
        a = ch('a', ['A1', 'q1', 'qA', 'qB', 'R-A', 'any', 'most', 'A2opt', 'B1', 'look'])
        names = [a, ch('b', [None, 'A1', 'qB', 'q2', 'R-B', *CLAIMED]), ch('c', list(CLAIMED))]
        names = [n for n in names if n]
    elif kind == 'fixed':
        one, two = ch('a', list(FIXED)), ch('b', [None, *FIXED])
        last = INSIDE[ch('place', list(INSIDE))](copy.deepcopy(OVER[ch('over', list(OVER))]))
        items = [copy.deepcopy(FIXED[n]) for n in (one, two) if n]
        for n, d in enumerate(items):
            if 'name' in d:
                d['name'] += str(n)
        items.append(last)  # (rules see what is claimed before them)
        return dict(kind=kind, student=student(rows(ch('taken', ['abcd', 'acd', 'ab'] + (['cd', ''] if tier == 'thorough' else [])))), spec=area({'all': items}))
    elif kind == 'audited':
        names = [ch('a', ['A1', 'qA', 'q1', 'R-A', 'any', 'A2opt']), ch('b', ['qB', 'B1', 'R-B', 'q2', 'look'])]
        kw['audit'] = ch('audit', [('count(courses)', '$gte', 3), ('sum(credits)', '$gte', '2'), ('average(grades)', '$gte', '3.50'), ('average(grades)', '$lte', '3.00'), ('count(subjects)', '$gte', 2)])
    elif kind == 'choice':
        # (an optional course is waived where it is not used, which settles a choice)
        names = [ch('a', [p for p in parts if p != 'A2opt']), ch('b', ['A1', 'B1', 'qA', 'qB', 'R-A', 'Z'])]
        third = ch('c', [None, 'A2', 'qB', 'q2'])
        names += [third] if third else []
        kw['count'] = ch('count', ['any'] + [2] * (len(names) > 2))
    elif kind == 'exceptions':
        base = ch('spec', list(SPECS))
        spec = area(copy.deepcopy(SPECS[base]))
        stu = student(rows(ch('taken', ['abcd', 'acf', 'pfi', ''])))
        k, path = ch('place', places(stu, spec))
        types = ['override'] + {'course': ['insert', 'block', 'force-insert'], 'query': ['insert', 'block', 'force-insert']}.get(k, []) + (['value'] if k == 'assert' else [])
        t = ch('type', types)
        if t in ('insert', 'block', 'force-insert') and not stu['courses']:
            return None
        stu['exceptions'] = [exc(t, path, clbid=ch('which', [c['clbid'] for c in stu['courses'][::2]])) if t in ('insert', 'block', 'force-insert') else exc(t, path, value='1') if t == 'value' else exc(t, path)]
        return dict(kind={'deep': 'choice', 'claim': 'claimed'}.get(base, kind), student=stu, spec=spec)
    elif kind == 'bounds':
        names = [ch('a', ['A1', 'qA', 'q1', 'R-A', 'q2', 'sum']), ch('b', ['qA2', 'qB2', 'q2', 'sum', 'both', 'R-B', 'R-A']), ch('c', ['qB', 'A1', 'qA'])]
        kw['limit'] = ch('limit', [None, [{'where': subj('AAA'), 'at_most': 1}], [{'where': subj('BBB'), 'at_most': 1}, {'where': {'level': {'$eq': 100}}, 'at_most': '1 credit'}]])
        kw['multicountable'] = ch('multi', [None, 'yes'])
    elif kind == 'major':
        names = [ch('a', ['A1', 'qA', 'R-A', 'q2', 'dept', 'any']), ch('b', ['qB', 'R-B', 'B1', 'sum', 'look'])]
        kw['major'] = ch('degree', ['B.A.', 'B.M.'])
    taken = ch('taken', TAKEN)
    extra = {}
    if kw.get('limit'):
        extra['limit'] = kw['limit']
    if kw.get('multicountable'):
        paths = [[f'{PARTS[n]["name"]}{i}'] if 'name' in PARTS[n] else [f'R{i}'] for i, n in enumerate(names)]
        spec = area({'all': [d if 'name' in d else req(f'R{i}', d) for i, d in enumerate(group(names, 'all')['all'])]}, **extra)
        spec['multicountable'] = {'AAA 101': paths}
    else:
        spec = area(group(names, kw.get('count', 'all')), **extra)
    if kw.get('audit'):
        key, op, n = kw['audit']
        spec['result']['audit'] = {'assert': {key: {op: n}}}
    if kw.get('major'):
        spec.update(type='major', degree=kw['major'])
    return dict(kind=kind, student=student(rows(taken), proficiencies={'guitar': 'N'}), spec=spec)


class P(Property):
    ID = 'C19'
    RULE = 'the audit with independent solving and the audit without it report the same status; and the same rank if nothing is chosen between'
    BUDGET = {'quick': 400, 'thorough': 3000}
    ASSUMPTIONS = ['solving everything together is what DP_INDEPENDENT=0 does']

    # the rank is left alone: a choice below the top stops at the first done alternative when solved on its own, and
    # goes on while the area is not done when solved together, which may count one more alternative
    def cases(self, tier):
        yield from ((c, n) for c, n in explore(lambda ch: world(ch, tier)) if c)

    def bounds(self, tier):
        return '2 or 3 rules out of 32 kinds at the top, all-of, any-of and counted; limits, multicountables, one exception anywhere, majors; up to 4 courses'

    proc = None

    def together(self, case):
        if self.proc is None:
            env = {**os.environ, 'DP_INDEPENDENT': '0'}
            self.proc = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'mc.hashrun', 'serve'], env=env, text=True, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.proc.stdin.write(json.dumps({'student': case['student'], 'spec': case['spec']}) + '\n')
        self.proc.stdin.flush()
        return json.loads(self.proc.stdout.readline())

    def run_case(self, case):
        a = brief(case['student'], case['spec'])
        b = self.together(case)
        if isinstance(a, str) or isinstance(b, str):
            return ([f'crash: solved apart {a}, together {b}'] if a != b or isinstance(a, str) else []), 'crash', 2
        bad = []
        if case['kind'] in ('claimed', 'choice'):
            # the first best way of an independent rule is kept, which may not be the one the others need; and an
            # alternative solved on its own is kept beside the one which settles the choice
            if a[3] and not b[3]:
                bad.append(f'{case["kind"]}: solved apart the area is done, {a}, and solved together it is not, {b}')
        elif case['kind'] in LOOSE and a[0] in PENDING and b[0] in PENDING:
            # which of two alternatives a choice takes is seen in which courses the area waits for
            pass
        elif a[0] != b[0]:
            bad.append(f'{case.get("names") or case["kind"]}: solved apart the area is {a[0]}, solved together {b[0]}')
        return bad, [case['kind'], a], 2

    def worker_extra(self):
        if self.proc:
            self.proc.stdin.close()
            self.proc.wait(5)
        return {}


PROP = P()
