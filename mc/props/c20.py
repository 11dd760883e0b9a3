"""The requirements common to all majors: credits at C or better, S/U courses, credits outside the major."""
import copy
from decimal import Decimal as D

from mc import ref
from mc.auditprop import AuditProp
from mc.cert import TINY
from mc.gen import q, req, subj
from mc.world import area, course, exc, ip, student, walk

BASE = ['$', '%Common Requirements', '.count']
PATHS = [BASE + ['[0]', '%Credits at a C or higher'], BASE + ['[1]', '%Credits taken S/U'], BASE + ['[2]', '%Credits outside the major']]


def su(ident, clbid, **kw):
    return course(ident, clbid, grade=kw.pop('grade', 'S'), grade_option='s/u', flag_gpa=False, **kw)


# credits are large so that few rows are needed to meet, just miss and exceed each bound
INSIDE = {
    'B3': lambda: course('AAA 101', '1', credits='3.00'),
    'C299': lambda: course('AAA 102', '2', grade='C', credits='2.99'),
    'C3': lambda: course('AAA 103', '3', grade='C', credits='3.00'),
    'C-3': lambda: course('AAA 104', '4', grade='C-', credits='3.00'),
    'C-covid': lambda: course('AAA 105', '5', grade='C-', credits='3.00', year='2019', term='3'),
    'ip3': lambda: ip('AAA 106', '6', credits='3.00'),
    'reg3': lambda: ip('AAA 107', '7', future=True, credits='3.00'),
    'S1': lambda: su('AAA 108', '8'),
    'S1b': lambda: su('AAA 109', '9'),
    'S.5': lambda: su('AAA 110', '10', credits='0.50'),
    'S0': lambda: su('AAA 111', '11', credits='0.00'),
    'Sip': lambda: ip('AAA 112', '12', grade_option='s/u'),
    'Scovid': lambda: su('AAA 113', '13', year='2019', term='3', su_grade_code='C-', credits='3.00'),
    'P3': lambda: course('AAA 114', '14', grade='P', grade_option='p/n', flag_gpa=False, credits='3.00'),
}
OUTSIDE = {
    '20.99': lambda: course('BBB 101', '30', credits='20.99'),
    '21': lambda: course('BBB 101', '30', credits='21.00'),
    '20+D': lambda: [course('BBB 101', '30', credits='20.00'), course('CCC 101', '31', grade='D')],
    '20+F': lambda: [course('BBB 101', '30', credits='20.00'), course('CCC 101', '31', grade='F')],
    '20+ip': lambda: [course('BBB 101', '30', credits='20.00'), ip('CCC 101', '31')],
    '20+reg': lambda: [course('BBB 101', '30', credits='20.00'), course('REG 101', '31'), course('OFFC 101', '32')],
    '20+future': lambda: [course('BBB 101', '30', credits='20.00'), ip('CCC 101', '31', future=True), ip('CCC 102', '32', credits='0.50')],
    'music': lambda: [course('MUSIC 101', '30', credits='7.00'), course('MUSPF 101', '31', credits='7.00'), course('MUSEN 101', '32', credits='7.00'), course('BBB 101', '33', credits='14.00')],
    'art': lambda: [course('ART 101', '30', credits='1.00')] + [course(f'BBB {200 + i}', str(31 + i), credits='1.00') for i in range(18)],
    'art17': lambda: [course('ART 101', '30', credits='1.00'), course('BBB 300', '60', credits='5.00')] + [course(f'BBB {200 + i}', str(31 + i), credits='1.00') for i in range(17)],
    'trio': lambda: [course('BBB 101', '30', credits='10.00'), course('CCC 101', '31', credits='10.00'), course('DDD 101', '32', credits='10.00')],
}


def major(code, name='M', dept='AAA', **kw):
    return {'code': code, 'kind': 'major', 'name': name, 'degree': 'B.A.', 'status': 'declared', 'dept': dept, 'gpa': 0, 'terms': ['20181'], **kw}


class P(AuditProp):
    ID = 'C20'
    TOPICS = {'shape', 'status', 'common', 'rank'}
    RULE = ('a case fails when the common requirements of a major are missing, present where they do not belong, look at other courses than the ones used by the major (or, for the '
            'outside credits, the whole record), compute another total or status, or when a major is reported done although one of them is not')
    ASSUMPTIONS = ['which of several sufficient selections is shown is free; totals short of the bound are those of all eligible courses']

    def worlds(self, tier):
        return [lambda ch: self.inside(ch, tier), lambda ch: self.outside(ch, tier), lambda ch: self.shape(ch, tier), lambda ch: self.excepted(ch, tier), lambda ch: self.forced(ch, tier)]

    def spec(self, result, degree='B.A.', code='000', **kw):
        return area(result, degree=degree, **{'type': 'major', 'code': code, **kw})

    def inside(self, ch, tier):
        names = list(INSIDE)
        n = 3 if tier == 'quick' else 4
        got, k = [], -1
        for i in range(n):
            k = ch(f'row{i}', [None] + list(range(k + 1, len(names)))) if k + 1 < len(names) else None
            if k is None:
                break
            got.append(names[k])
        degree = ch('degree', ['B.A.', 'B.M.'])
        use = ch('use', ['all', 'one', 'failed'] if got else ['all'])
        rows = [INSIDE[x]() for x in got] + [course('BBB 101', '30', credits='22.00')]
        items = [q(len(got) if use != 'one' else 1, subj('AAA'))]
        if use == 'failed':
            items = [req('R', q(len(got) + 1, subj('AAA')))]
        return {'student': student(rows, areas=[major('000')]), 'spec': self.spec({'all': items}, degree)}

    def outside(self, ch, tier):
        r = OUTSIDE[ch('rows', list(OUTSIDE))]()
        rows = (r if isinstance(r, list) else [r]) + [course('AAA 101', '1', credits=ch('inside', ['6.00', '7.00']))]
        code = ch('code', ['000', '450', '140', '135'])
        dept = ch('dept', ['AAA', 'BBB', None, 'CCC'])
        others = ch('others', [[], ['135'], ['140'], ['135', '140'], ['450']])
        declared = ch('declared', [True, False])
        degree = ch('degree', ['B.A.', 'B.S.', 'B.M.'])
        areas = ([major(code, dept=dept)] if declared else []) + [major(c, dept='ART') for c in others if c != code]
        limit = ch('limit', [None, [{'where': subj('BBB'), 'at_most': 0}]])
        s = self.spec({'all': [{'course': 'AAA 101'}]}, degree, code, **({'limit': limit} if limit else {}))
        stu = student(rows, areas=areas)
        return {'student': stu, 'spec': s}

    def shape(self, ch, tier):
        """the common requirements are one more part which has to be met, whatever the area looks like; only majors have them"""
        rows = [course('AAA 101', '1', credits=ch('c1', ['1.00', '6.00'])), course('AAA 102', '2', credits='2.00'), course('BBB 101', '3', credits=ch('out', ['1.00', '21.00']))] + \
            ([su('AAA 103', '4'), su('AAA 104', '5')] if ch('su', [0, 1]) else [])
        A, B, Z = {'course': 'AAA 101'}, {'course': 'AAA 102'}, {'course': 'ZZZ 101'}
        tops = [{'all': [A]}, {'any': [A, B]}, {'any': [A, B, Z]}, {'any': [req('R', A), req('S', B), Z]}, {'count': 2, 'of': [A, B, q(1, subj('BBB'))]}, {'all': [A, Z]},
                {'count': 1, 'of': [A, q(1), q(2)]}, {'any': [q(4, subj('AAA')), q(1, subj('AAA')), q(2, subj('AAA'))]}, {'both': [A, B]}, {'either': [A, B]}]
        kind = ch('type', ['major', 'concentration', 'degree', 'emphasis'])
        top = copy.deepcopy(ch('top', tops))
        if ch('audit', [0, 1]):
            top['audit'] = {'assert': {'count(courses)': {'$gte': 1}}}
        return {'student': student(rows, areas=[major('000')]), 'spec': self.spec(top, type=kind)}

    def excepted(self, ch, tier):
        rows = [course('AAA 101', '1', credits=ch('c1', ['3.00', '6.00'])), course('AAA 102', '2', credits='3.00', grade='D'), course('BBB 101', '3', credits='18.00'),
                su('AAA 103', '4'), su('AAA 104', '5'), course('CCC 101', '6', credits='3.00')]
        p = ch('at', [PATHS[0], PATHS[0] + ['.query'], PATHS[0] + ['.query', '.assertions', '[0]', '.assert'], PATHS[1], PATHS[1] + ['.query'], PATHS[2], PATHS[2] + ['.query'], BASE[:-1], BASE])
        kind = ch('kind', ['override', 'insert', 'force-insert', 'value'])
        e = exc(kind, p)
        if kind in ('insert', 'force-insert'):
            if p[-1] != '.query' or p != PATHS[0] + ['.query']:
                e = None
            else:
                e['clbid'] = ch('course', ['2', '3', '6'])
        if kind == 'value':
            if p[-1] != '.assert':
                e = None
            else:
                e['value'] = ch('value', ['3', '6', '9'])
        use = ch('use', [q(2, subj('AAA')), q(1, {'clbid': {'$eq': '1'}}), q(4, subj('AAA'))])
        return {'student': student(rows, areas=[major('000')], exceptions=[e] if e else []), 'spec': self.spec({'all': [use]})}

    def forced(self, ch, tier):
        """several courses forced into the common requirements; courses used by parts which the GPA of the major leaves out"""
        rows = [course('AAA 101', '1', credits=ch('c1', ['2.00', '3.00'])), course('AAA 102', '2', credits='3.00', grade='D'), course('BBB 101', '3', credits='18.00', grade='C-'),
                su('AAA 103', '4'), su('AAA 104', '5'), course('CCC 101', '6', credits='3.00')]
        at = PATHS[0] + ['.query']
        ex, clbids, k = [], ['2', '3', '4', '6'], -1
        for i in range(2 if tier == 'quick' else 3):
            k = ch(f'course{i}', [None] + list(range(k + 1, len(clbids)))) if k + 1 < len(clbids) else None
            if k is None:
                break
            ex.append(exc(ch(f'kind{i}', ['insert', 'force-insert']), at, clbid=clbids[k]))
        if ch('turn', [0, 1]):
            ex.reverse()
        gpa = ch('gpa', [None, True, False])
        use = ch('use', [q(2, subj('AAA')), q(1, {'clbid': {'$eq': '1'}}), q(4, subj('AAA')), q(2, {'grade_option': {'$eq': 's/u'}})])
        items = [req('R', use, **({} if gpa is None else {'in_gpa': gpa}))]
        if ch('also', [0, 1]):
            items.append({'course': 'CCC 101'})
        return {'student': student(rows, areas=[major('000')], exceptions=ex), 'spec': self.spec({'all': items})}

    def judge(self, case, tree, o):
        v = super().judge(case, tree, o)
        spec, stu = case['spec'], case['student']
        items = tree['result']['items']
        common = [x for x in items if x['path'] == BASE[:-1]]
        if spec['type'] != 'major':
            if common or 'Common Requirements' in str([x['path'] for x in walk(tree)]):
                v.append(f"common: a {spec['type']} with common major requirements")
            return v
        if len(common) != 1 or items[-1] is not common[0]:
            return v + ['common: the common requirements are missing or misplaced']
        common = common[0]
        env = ref.Env(stu, spec['code'])
        used = {c['clbid'] for x in items[:-1] for n in walk(x) if n['type'] in ('course', 'query') for c in n['claims']}
        used = [c for c in env.all_failed if c.clbid in used]
        parts = common['result']['items']
        me = next((a for a in stu['areas'] if a['code'] == spec['code']), None)
        want = self.expected(spec, stu, env, used, me)
        if [x['path'] for x in parts] != [list(w[0]) for w in want]:
            return v + [f"common: parts {[x['path'] for x in parts]}"]
        for x, (p, pool, key, op, n) in zip(parts, want):
            v += self.part(env, x, p, pool, key, op, n, [c.clbid for c in (env.all if p == PATHS[2] else used)])
        st = ref.count_status(len(parts), [x['status'] for x in parts])
        if common['status'] != st or common['result']['status'] != st:
            v.append(f"common: status {common['status']} of parts {[x['status'] for x in parts]}")
        if abs(D(common['result']['rank']) - sum(D(x['rank']) for x in parts)) > TINY:
            v.append('common: rank')
        if tree['status'] in ('done', 'waived') and common['status'] not in ('done', 'waived'):
            v.append(f"common: the major is {tree['status']}, its common requirements {common['status']}")
        return v

    def expected(self, spec, stu, env, used, me):
        ok = {'$and': [{'$or': [{'grade': {'$gte': 'C', '$during_covid': 'C-'}}, {'is_in_progress': {'$eq': True}}]}, {'credits': {'$gt': 0}}]}
        out = [(PATHS[0], [c for c in used if ref.where(ok, c, env)], 'sum(credits)', '$gte', D(6))]
        if spec.get('degree') == 'B.M.':
            return out + [(PATHS[1], [c for c in used if c.option == 's/u'], 'count(courses)', '$eq', D(0))]
        out.append((PATHS[1], [c for c in used if c.option == 's/u' and c.credits == 1], 'count(courses)', '$lte', D(1)))
        others = {a['code'] for a in stu['areas'] if a['code'] != spec['code']}
        if not me or me['dept'] is None:
            return out + [(PATHS[2], None, None, None, None)]
        elsewhere = [c for c in env.all if c.subject not in ('REG', 'OFFC')]
        if (spec['code'], '135') == ('140', '135') and '135' in others or spec['code'] == '135' and '140' in others:
            return out + [(PATHS[2], [c for c in elsewhere if c.subject != 'ART' and c.credits == 1], 'sum(credits)', '$gte', D(18))]
        away = ('MUSIC', 'MUSPF', 'MUSEN') if spec['code'] == '450' else (me['dept'],)
        return out + [(PATHS[2], [c for c in elsewhere if c.subject not in away], 'sum(credits)', '$gte', D(21))]

    def part(self, env, x, path, pool, key, op, n, usable):
        v = []
        if pool is None:
            want = 'pending-approval'
            if env.waived(path):
                want = 'done'
            return [] if x['status'] == want else [f"common: department-audited part is {x['status']}"]
        if env.waived(path):
            return [] if x['status'] == 'waived' else [f"common: waived part {path[-1]} is {x['status']}"]
        query = x['result']
        qp = path + ['.query']
        if env.waived(qp):
            return [] if x['status'] == query['status'] == 'waived' else [f"common: waived query in {path[-1]} is {x['status']}"]
        a, = query['assertions']
        ap = qp + ['.assertions', '[0]', '.assert']
        val = env.at('value', ap)
        if val:
            n = D(val[0]['value'])
        # (a plain insertion is of the courses which the rule looks at, here those the major uses)
        ins = [env.by_clbid[e['clbid']] for e in env.inserts(qp) if e['type'] == 'force-insert' or e['clbid'] in usable]
        pool = ref.uniq(pool + ins)
        if env.waived(ap):
            return [] if x['status'] == 'waived' else [f"common: waived assertion in {path[-1]}: {x['status']}"]
        if D(a['expected']) != n:
            v.append(f"common: {path[-1]} expects {a['expected']}, should be {n}")
        full, = ref.aggregate(key, pool)
        shown = a['resolved_clbids']
        if not set(shown) <= {c.clbid for c in pool}:
            v.append(f"common: {path[-1]} counts {shown}, eligible are {pool}")
            return v
        if D(a['resolved']) != next(iter(ref.aggregate(key, [c for c in pool if c.clbid in shown]))):
            v.append(f"common: {path[-1]} total {a['resolved']} of {shown}")
        sts = ref.assertion_statuses(key, op, n, pool)
        if op == '$gte':
            if 'done' in sts or not full >= n:
                if a['status'] not in sts:
                    v.append(f"common: {path[-1]} {a['status']}, over {pool} it is {sorted(sts)}")
            elif a['status'] not in ('pending-current', 'pending-registered'):
                v.append(f"common: {path[-1]} {a['status']}, over {pool} it is {sorted(sts)}")
            if full < n and D(a['resolved']) != full:
                v.append(f"common: {path[-1]} total {a['resolved']}, over {pool} it is {full}")
        else:
            if a['status'] not in sts:
                v.append(f"common: {path[-1]} {a['status']}, over {pool} it is {sorted(sts)}")
            if D(a['resolved']) != full:
                v.append(f"common: {path[-1]} total {a['resolved']}, over {pool} it is {full}")
        if x['status'] != a['status'] or query['status'] != a['status']:
            v.append(f"common: {path[-1]} {x['status']} / {query['status']} / {a['status']}")
        return v

    def outcome(self, case, tree):
        c = tree['result']['items'][-1]
        return [tree['status'], tree['rank'], c['path'] == BASE[:-1] and [(x['status'], x['rank'], x['result'] and [a['resolved'] for a in x['result']['assertions']]) for x in c['result']['items']]]

    def bounds(self, tier):
        return ('inside: every 0-3 (thorough 4) of 14 courses around the bounds x degree x which of them are used; outside: 11 records x area code x department x other majors x degree x area '
                'limit; 10 shapes of area x kinds of area; 9 places x 4 kinds of exception; every 0-2 (3) of 4 courses inserted or forced in x order x kept out of the GPA or not')


PROP = P()
