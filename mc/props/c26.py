"""Emphases and templates: what a student's declarations and department plans add to an area."""
import copy
import json

from mc import ref
from mc.auditprop import AuditProp
from mc.gen import q, req, subj
from mc.world import area, course, exc, ip, run_audit, student

A, B, C, Z = {'course': 'AAA 101'}, {'course': 'BBB 101'}, {'course': 'CCC 101'}, {'course': 'ZZZ 101'}

# emphases, each with what it stands for: the requirements which are added, by name
EMPHASES = {
    'inline': ({'result': {'all': [req('X', B), req('Y', q(1, subj('CCC')))]}}, {' → X': {'result': B}, ' → Y': {'result': q(1, subj('CCC'))}}),
    'refs': ({'result': {'all': [{'requirement': 'X'}, {'requirement': 'Y'}]}, 'requirements': {'X': {'result': B}, 'Y': {'result': C, 'message': 'm'}}},
             {' → X': {'result': B}, ' → Y': {'result': C, 'message': 'm'}}),
    'mixed': ({'result': {'all': [{'requirement': 'X'}, req('Y', C)]}, 'requirements': {'X': {'result': B}}}, {' → X': {'result': B}, ' → Y': {'result': C}}),
    'nested': ({'result': {'all': [{'requirement': 'X'}]}, 'requirements': {'X': {'result': {'all': [{'requirement': 'I'}, C]}, 'requirements': {'I': {'result': B}}}}},
               {' → X': {'result': {'all': [{'requirement': 'I'}, C]}, 'requirements': {'I': {'result': B}}}}),
    'courses': ({'result': {'all': [B, C]}}, {'': {'result': {'all': [B, C]}}}),
    'course': ({'result': {'all': [B]}}, {'': {'result': {'all': [B]}}}),
    'any': ({'result': {'any': [B, req('X', C)]}}, {'': {'result': {'any': [B, req('X', C)]}}}),
    'count': ({'result': {'count': 1, 'of': [{'requirement': 'X'}, C]}, 'requirements': {'X': {'result': B}}},
              {'': {'result': {'count': 1, 'of': [{'requirement': 'X'}, C]}, 'requirements': {'X': {'result': B}}}}),
    'query': ({'result': q(1, subj('BBB'))}, {'': {'result': q(1, subj('BBB'))}}),
    'single': ({'result': B}, {'': {'result': B}}),
    'audit': ({'result': {'all': [req('X', q(1, subj('BBB')))], 'audit': {'assert': {'count(courses)': {'$gte': 2}}}}},
              {'': {'result': {'all': [req('X', q(1, subj('BBB')))], 'audit': {'assert': {'count(courses)': {'$gte': 2}}}}}}),
    'if': ({'result': {'$if': {'has-course': 'AAA 101'}, '$then': B, '$else': C}}, {'': {'result': {'$if': {'has-course': 'AAA 101'}, '$then': B, '$else': C}}}),
    'dept': ({'result': {'all': [{'name': 'X', 'department_audited': True}]}}, {' → X': {'department_audited': True}}),
}
SECOND = ({'result': {'all': [req('X', q(1, {'level': {'$eq': 200}}))]}}, {' → X': {'result': q(1, {'level': {'$eq': 200}})}})
TOPS = {'flat': [A], 'query': [q(1, subj('BBB')), A], 'two': [A, req('R', q(2, {'level': {'$eq': 100}}))], 'same': [A, req('X', C)]}

# department plans: label -> the fields it stands for
LABELS = {
    'AAA 101': {'subject': 'AAA', 'num': '101'}, 'AAA 101A': {'subject': 'AAA', 'num': '101', 'section': 'A'}, 'AAA 101.L': {'subject': 'AAA', 'num': '101', 'sub_type': 'L'},
    'AAA 101.F': {'subject': 'AAA', 'num': '101', 'sub_type': 'F'}, 'AAA 101.D': {'subject': 'AAA', 'num': '101', 'sub_type': 'D'},
    'MUS 101.E': {'subject': 'MUS', 'num': '101', 'sub_type': 'E'}, 'AAA 101 2018-3': {'subject': 'AAA', 'num': '101', 'year': '2018', 'term': '3'},
    'AAA 101A 2018-1': {'subject': 'AAA', 'num': '101', 'section': 'A', 'year': '2018', 'term': '1'},
    'AAA 101 [CARL]': {'subject': 'AAA', 'num': '101', 'institution': 'CARL'}, 'AAA 101 2018-1 [CARL]': {'subject': 'AAA', 'num': '101', 'institution': 'CARL', 'year': '2018', 'term': '1'},
    'CH/BI 125': {'subject': 'CH/BI', 'num': '125'}, 'AAA 101A.L': {'subject': 'AAA', 'num': '101', 'section': 'A', 'sub_type': 'L'},
    'name=Seminar III': {'name': 'Seminar III'}, 'name=Seminar III [CARL]': {'name': 'Seminar III', 'institution': 'CARL'}, 'a note': None,
}
TAKEN = {
    'plain': lambda: course('AAA 101', '1'), 'A': lambda: course('AAA 101', '2', section='A'), 'lab': lambda: course('AAA 101', '3', sub_type='lab'),
    'labA': lambda: course('AAA 101', '4', sub_type='lab', section='A'), 'flac': lambda: course('AAA 101', '5', sub_type='flac'), 'disc': lambda: course('AAA 101', '6', sub_type='discussion'),
    'ens': lambda: course('MUS 101', '7', sub_type='ensemble'), 'mus': lambda: course('MUS 101', '8'), 'spring': lambda: course('AAA 101', '9', term='3'),
    'carl': lambda: course('AAA 101', '10', flag_stolaf=False, institution_short='CARL'), 'sem': lambda: course('BBB 301', '11', name='Seminar III'),
    'semcarl': lambda: course('BBB 302', '12', name='Seminar III', flag_stolaf=False, institution_short='CARL'), 'chbi': lambda: course('CH/BI 125', '13'),
    'failed': lambda: course('AAA 101', '14', grade='F', year='2017'), 'ip': lambda: ip('AAA 101', '15'), 'early': lambda: course('AAA 101', '16', year='2017'),
}
FIELDS = ['subject', 'num', 'section', 'sub_type', 'year', 'term', 'institution', 'name', 'clbid']


def declared(code, status='declared'):
    return {'code': code, 'kind': 'emphasis', 'name': 'E', 'degree': 'B.A.', 'status': status, 'dept': None, 'gpa': 0}


def expand(labels, env):
    """the course rules a template stands for, in their order"""
    out = set()
    for label in labels:
        f = LABELS[label]
        if f is None:
            continue
        ident = f"{f['subject']} {f['num']}" + (f".{f['sub_type']}" if f.get('sub_type') in ('L', 'F', 'D') else '') if 'subject' in f else None

        def hit(c):
            if 'name' in f:
                return c.name == f['name'] and f.get('institution') in (None, c.inst)
            rule = {'course': ident, **{k: f[k] for k in ('section', 'sub_type', 'institution') if k in f}}
            if 'year' in f:
                rule.update(year=int(f['year']), term=f['term'])
            return ref.matches(rule, c)
        got = next((c for c in env.all if hit(c)), None)
        g = dict(f)
        if got is not None:
            g['clbid'] = got.clbid
            if 'name' in f:
                g.update(subject=got.subject, num=got.ident.split(' ')[1])
        out.add(tuple(g.get(k, '') for k in FIELDS))
    rules = []
    for t in sorted(out):
        g = dict(zip(FIELDS, t))
        r = {}
        if g['clbid']:
            r['clbid'] = g['clbid']
        if g['subject']:
            r['course'] = f"{g['subject']} {g['num']}"
        for k in ('section', 'sub_type', 'institution'):
            if g[k]:
                r[k] = g[k]
        if g['name']:
            r['ap'] = g['name']
        if g['year']:
            r.update(year=int(g['year']), term=g['term'])
        rules.append(r)
    return rules


def kind_of(spec):
    top = spec['result']
    return 'all' if 'both' in top or top.get('count') == 'all' else 'any'


class P(AuditProp):
    ID = 'C26'
    TOPICS = None
    RULE = ('a case fails when an area with declared emphases, or with a template, is audited other than the area in which the requirements, or courses, which they stand for are written out')
    ASSUMPTIONS = ['the written-out area is judged by C02 and C03 (and here as well)']

    def worlds(self, tier):
        return [lambda ch: self.emphases(ch, tier), lambda ch: self.any_top(ch), lambda ch: self.template(ch, tier)]

    def emphases(self, ch, tier):
        top = ch('top', list(TOPS))
        e = ch('emphasis', list(EMPHASES))
        status = ch('status', ['declared', None, 'what-if', 'what-if-drop', 'certified'])
        second = ch('second', [None, 'declared', 'undeclared', 'sorts first'])
        codes = ch('codes', ['text', 'number'] if top == 'flat' and not second else ['text'])
        with_requirements = ch('requirements', [0, 1] if top != 'query' and (tier == 'thorough' or second != 'undeclared') else [0])
        rows = [f() for f in ch('rows', [
            [], [lambda: course('AAA 101', '1')], [lambda: course('AAA 101', '1'), lambda: course('BBB 101', '2')],
            [lambda: course('AAA 101', '1'), lambda: course('BBB 101', '2'), lambda: course('CCC 101', '3')],
            [lambda: course('AAA 101', '1'), lambda: course('BBB 101', '2'), lambda: course('CCC 101', '3'), lambda: course('BBB 201', '4'), lambda: course('CCC 102', '5')],
            [lambda: course('AAA 101', '1'), lambda: ip('BBB 101', '2'), lambda: ip('CCC 101', '3', future=True), lambda: course('BBB 201', '4')],
        ])]
        ex = None
        if status == 'declared' and second != 'undeclared' and top == 'flat' and codes == 'text':
            names = EMPHASES[e][1]
            places = [['$', '.count', '.emphasis', f'%Emphasis: One{n}'] for n in names]
            ex = ch('exception', [None] + [exc('override', p) for p in places] + [exc('block', p + x, clbid='2') for p in places for x in (['*BBB 101'], ['.query'], ['.count', '[0]', '*BBB 101'])])
        items = TOPS[top]
        em = {}
        other = 'Another' if second == 'sorts first' else 'Two'
        em['901' if codes == 'text' else 901] = {'name': 'One', **EMPHASES[e][0]}
        if second:
            em['902' if codes == 'text' else 902] = {'name': other, **SECOND[0]}
        spec = area({'all': copy.deepcopy(items)}, emphases=copy.deepcopy(em))
        plain = area({'all': copy.deepcopy(items)})
        if with_requirements:
            for s in (spec, plain):
                s['requirements'] = {'Q': {'result': {'any': [copy.deepcopy(A), copy.deepcopy(B)]}}}
                s['result']['all'].append({'requirement': 'Q'})
        n = len(plain['result']['all'])
        areas = []
        if status:
            areas.append(declared('901', status))
            if status != 'what-if-drop':
                plain['result']['all'] += [{'name': 'Emphasis: One' + k, **copy.deepcopy(v)} for k, v in EMPHASES[e][1].items()]
        if second in ('declared', 'sorts first'):
            areas.append(declared('902'))
            plain['result']['all'] += [{'name': f'Emphasis: {other}' + k, **copy.deepcopy(v)} for k, v in SECOND[1].items()]
        stu = student(rows, areas=areas, exceptions=[ex] if ex else [])
        return {'student': stu, 'spec': spec, 'plain': plain, 'base': n, 'reordered': second == 'sorts first'}

    def any_top(self, ch):
        """a declared emphasis is asked for, also when the area itself lets the student choose"""
        kind = ch('kind', ['any', 'count', 'either', 'both', 'count all'])
        items = [copy.deepcopy(A), copy.deepcopy(B), copy.deepcopy(Z)]
        top = {'any': items} if kind == 'any' else {'count': 1, 'of': items} if kind == 'count' else {kind: items[:2]} if kind in ('either', 'both') else {'count': 'all', 'of': items[:2]}
        e = ch('emphasis', ['inline', 'course', 'any', 'single'])
        rows = [course('AAA 101', '1')] + ([course('CCC 101', '3')] if ch('c', [0, 1]) else []) + ([course('BBB 101', '2')] if ch('b', [0, 1]) else [])
        return {'student': student(rows, areas=[declared('901')]), 'spec': area(top, emphases={'901': {'name': 'One', **copy.deepcopy(EMPHASES[e][0])}}), 'asked': True}

    def template(self, ch, tier):
        labels = list(LABELS)
        rows = list(TAKEN)
        first = ch('label', labels)
        k = ch('row1', rows)
        k2 = ch('row2', [None] + rows[rows.index(k) + 1:])
        k3 = None
        if tier == 'thorough' and k2:
            k3 = ch('row3', [None] + rows[rows.index(k2) + 1:])
        got = [first]
        more = ch('more', [None, 'AAA 101', 'name=Seminar III', 'ZZZ 900', 'AAA 101 2018-1'] if tier == 'thorough' or not k2 else [None, 'AAA 101 2018-1'])
        if more == first:
            more = None
        if more in ('ZZZ 900', 'AAA 101 2018-1'):
            LABELS.setdefault('ZZZ 900', {'subject': 'ZZZ', 'num': '900'})
            LABELS.setdefault('AAA 101 2018-1', {'subject': 'AAA', 'num': '101', 'year': '2018', 'term': '1'})
        if more:
            got.append(more)
        kind = ch('kind', ['all', 'any', 'of', 'inner'] if tier == 'thorough' or more is None else ['all', 'of'])
        transcript = [TAKEN[x]() for x in (k, k2, k3) if x]
        stu = student(transcript, templates={'t': got, 'u': ['AAA 101']})

        def wrap(x):
            before, after = [q(1, {'level': {'$eq': 100}})], [copy.deepcopy(B)]
            if kind == 'inner':
                return {'all': [req('R', {'all': [*x, *before]})]}
            return {'all': [*before, *x]} if kind == 'all' else {'any': [*x, *after]} if kind == 'any' else {'count': 2, 'of': [*before, *x, *after]}
        return {'student': stu, 'spec': area(wrap([{'template': 't'}])), 'labels': got, 'plain': area(wrap(expand(got, ref.Env(stu, '000'))))}

    def run_case(self, case):
        stu, spec = case['student'], case['spec']
        o = run_audit(stu, spec)
        if not o.results:
            return [f'no result: {[type(m).__name__ for m in o.messages]}'], 'none', 1
        tree = o.tree()
        if case.get('asked'):
            v = []
            em = [x for x in tree['result']['items'] if '.emphasis' in x['path']]
            if not em:
                v.append('emphasis: a declared emphasis is not asked for')
            if tree['status'] in ('done', 'waived') and any(x['status'] not in ('done', 'waived') for x in em):
                v.append('emphasis: the area is done, a declared emphasis is not')
            own = [x['status'] in ('done', 'waived') for x in tree['result']['items'] if x not in em]
            want = (all(own) if kind_of(spec) == 'all' else any(own)) and all(x['status'] in ('done', 'waived') for x in em)
            if (tree['status'] in ('done', 'waived')) != want:
                v.append(f"emphasis: the area is {tree['status']}, its own parts {own}, the emphasis {[x['status'] for x in em]}")
            return v, [tree['status'], [x['status'] for x in em]], 1
        plain = case['plain']
        k = case.get('base')
        ex = stu['exceptions']
        pstu = copy.deepcopy(stu)
        if k is not None:
            for x in ex:
                p = x['path']
                i = next(i for i, it in enumerate(plain['result']['all']) if f"%{it.get('name')}" == p[3])
                next(y for y in pstu['exceptions'] if y['path'] == p)['path'] = ['$', '.count', f'[{i}]'] + p[3:]
            pstu['areas'] = []
        want = run_audit(pstu, plain).tree()
        v = self.judge({'student': pstu, 'spec': plain}, want, None)
        if k is not None:
            n = len(plain['result']['all'])

            def fix(x):
                if isinstance(x, dict):
                    return {a: fix(b) for a, b in x.items()}
                if isinstance(x, list):
                    if x[:2] == ['$', '.count'] and len(x) > 2 and x[2] in [f'[{i}]' for i in range(k, n)]:
                        return x[:2] + ['.emphasis'] + x[3:]
                    return [fix(y) for y in x]
                return x
            want = fix(want)
        if case.get('reordered'):
            # emphases come in the order of their names, so another one of several equally good solutions may come first
            done = ('done', 'waived')
            if (tree['status'] in done) != (want['status'] in done) or sorted(x['path'] for x in tree['result']['items']) != sorted(x['path'] for x in want['result']['items']):
                v.append(f"expansion: {tree['status']} {tree['rank']} / written out {want['status']} {want['rank']}")
        elif tree != want:
            a, b = json.dumps(tree), json.dumps(want)
            i = next(i for i in range(min(len(a), len(b))) if a[i] != b[i]) if a[:len(b)] != b[:len(a)] else min(len(a), len(b))
            v.append(f"expansion: {tree['status']} {tree['rank']} / written out {want['status']} {want['rank']}: …{a[max(0, i - 120):i + 80]} / …{b[max(0, i - 120):i + 80]}")
        return v, self.outcome(case, tree), 2

    def bounds(self, tier):
        return ('13 forms of emphasis x declaration x a second emphasis x 4 areas x 6 transcripts, with waivers and blocks inside; 15 forms of template label x every 1-2 (thorough 3) of 16 '
                'rows around them x 4 places of the template, alone and with a second label')


PROP = P()
