"""Aggregates: what an assertion reports is the right number over exactly the right courses, and its status follows from it."""
import copy

from mc.auditprop import AuditProp
from mc.world import area, course, ip, student

ROWS = [
    course('AAA 101', '1', grade='B', attributes=['math_perspective_a', 'rel_tradition_x', 'intlr_region_1']),
    course('AAA 101', '2', grade='C', year='2019', attributes=['math_perspective_a', 'math_perspective_b']),
    course('BBB 201', '3', grade='A-', credits='0.50', term='3', attributes=['rel_tradition_y', 'intlr_region_1']),
    ip('BBB 301', '4', attributes=['math_perspective_c', 'rel_tradition_x']),
    ip('AAA 102', '5', future=True, credits='0.25', attributes=['intlr_region_2']),
    course('CH/BI 126', '6', grade='D', credits='0.75', year='2017', term='3'),
    course('CCC 101', '7', grade='S', grade_option='s/u', flag_gpa=False, credits='0.00', name='AAA 101'),
    ip('AAA 101', '9'),
    course('AAA 103', '8', grade='B+', crsid='x-BBB 201', name='BBB 201', year='2019', term='3'),
]
KEYS = {
    'count(courses)': [0, 1, 2, 4], 'count(terms)': [1, 2, 3], 'count(subjects)': [1, 2, 3], 'count(years)': [1, 2, 3],
    'count(distinct_courses)': [1, 2, 3], 'count(terms_from_most_common_course)': [1, 2],
    'count(terms_from_most_common_course_by_name)': [1, 2],
    'count(math_perspectives)': [1, 2, 3], 'count(religion_traditions)': [1, 2], 'count(intlr_regions)': [1, 2],
    'sum(credits)': [0, 1, '1.50', 2, '0.25'], 'sum(credits_from_single_subject)': [1, 2, '0.75'],
    'average(grades)': ['2.00', '2.50', '3.00'], 'average(credits)': ['0.50', 1],
}
OPS = ['$gte', '$gt', '$eq', '$lte', '$lt', '$neq']


class P(AuditProp):
    ID = 'C13'
    TOPICS = {'assert', 'status', 'rank', 'value', 'match'}
    RULE = 'a case fails when an assertion reports a number, a set of counted courses or a status which its recomputation from the courses does not admit'
    ASSUMPTIONS = ['where several equally frequent courses compete for "most common", each of their values is admitted']

    def worlds(self, tier):
        return [lambda ch: self.single(ch, tier), lambda ch: self.alike(ch, tier), lambda ch: self.science(ch, tier), lambda ch: self.kinds(ch, tier), lambda ch: self.pair(ch, tier), lambda ch: self.audit(ch, tier)]

    def pick(self, ch, n):
        return [copy.deepcopy(ROWS[i]) for i in range(n) if ch(f'has{i}', [True, False])]

    def single(self, ch, tier):
        key = ch('key', list(KEYS))
        op = ch('op', OPS)
        n = ch('expected', KEYS[key])
        body = {op: n}
        if ch('as_pass', [False, True] if tier == 'thorough' or op == '$gte' else [False]):
            body['treat_in_progress_as_pass'] = True
        cs = self.pick(ch, 9 if tier == 'thorough' or 'most_common' in key else 7)
        q = {'from': 'courses', 'allow_claimed': True, 'claim': False, 'assert': {key: body}}
        return {'student': student(cs), 'spec': area({'all': [{'name': 'R', 'result': q}]})}

    def alike(self, ch, tier):
        """two or three rows which differ in one or two things only"""
        key = ch('key', list(KEYS))
        other = {'ident': None, 'crsid': 'x-other', 'name': 'Other', 'year': '2019', 'term': '3', 'credits': '0.25', 'grade_code': 'C', 'section': 'B', 'course_type': 'AP', 'sub_type': 'lab', 'attributes': ['math_perspective_b', 'rel_tradition_y', 'intlr_region_2'],
                 'flag_gpa': False, 'flag_repeat': True, 'subject': 'BBB', 'institution_short': 'CARL', 'level': 300}
        base = course('AAA 101', '1', attributes=['math_perspective_a', 'rel_tradition_x', 'intlr_region_1'], credits='0.75', grade='B')
        rows = [base]
        fields = [x for x in other if x != 'ident']
        a = ch('first', fields)
        b = ch('second', [None] + fields[fields.index(a) + 1:])
        twin = copy.deepcopy({**base, 'clbid': '2', 'schedid': 's2'})
        for x in filter(None, (a, b)):
            twin[x] = copy.deepcopy(other[x])
            if x == 'grade_code':
                twin['grade_points'] = '2.00'
        rows.append(twin)
        if ch('third', [False, True]):
            rows.append(copy.deepcopy({**twin, 'clbid': '3', 'schedid': 's3'}))
        op, n = ch('bound', [('$gte', KEYS[key][-1]), ('$gte', KEYS[key][1]), ('$lte', KEYS[key][0])])
        q = {'from': 'courses', 'allow_claimed': True, 'claim': False, 'assert': {key: {op: n}}}
        return {'student': student(rows), 'spec': area({'all': [{'name': 'R', 'result': q}]})}

    def science(self, ch, tier):
        """the combined chemistry and biology courses belong to one of the two"""
        ids = ['CH/BI 125', 'CH/BI 126', 'CH/BI 127', 'CH/BI 227', 'CHEM 125', 'BIO 126']
        rows = [course(x, str(i)) for i, x in enumerate(ids) if ch(x, [True, False])]
        op, n = ch('bound', [('$gte', 2), ('$gte', 3), ('$lte', 1), ('$eq', 2)])
        q = {'from': 'courses', 'allow_claimed': True, 'claim': False, 'assert': {'count(subjects)': {op: n}}}
        return {'student': student(rows), 'spec': area({'all': [{'name': 'R', 'result': q}]})}

    def kinds(self, ch, tier):
        """finished, current, registered and incomplete courses side by side"""
        def inc(ident, clbid, **kw):
            return course(ident, clbid, grade='I', flag_in_progress=True, flag_incomplete=True, flag_gpa=False, **{'year': '2019', **kw})
        kinds = [('AAA 101', 'done'), ('AAA 201', 'incomplete'), ('BBB 101', 'current'), ('BBB 201', 'registered'), ('CCC 101', 'incomplete now')]
        if tier == 'thorough':
            kinds += [('BBB 301', 'done'), ('CCC 201', 'registered'), ('CCC 301', 'current')]
        rows = []
        for i, (x, k) in enumerate(kinds):
            if ch(x, [True, False]):
                tags = {'attributes': [f'math_perspective_{"ab"[i % 2]}', f'rel_tradition_{i}', f'intlr_region_{i % 3}']}
                rows.append(course(x, str(i), grade='B', **tags) if k == 'done' else inc(x, str(i), **tags) if k == 'incomplete' else inc(x, str(i), year='2020', term='3', **tags) if k == 'incomplete now'
                            else ip(x, str(i), future=k == 'registered', **tags))
        key = ch('key', list(KEYS))
        body = {ch('op', OPS if tier == 'thorough' else ['$gte', '$lte', '$eq']): ch('expected', KEYS[key])}
        if ch('as_pass', [False, True]):
            body['treat_in_progress_as_pass'] = True
        q = {'from': 'courses', 'allow_claimed': True, 'claim': False, 'assert': {key: body}}
        return {'student': student(rows), 'spec': area({'all': [{'name': 'R', 'result': q}]})}

    def pair(self, ch, tier):
        """two assertions with filters of their own, over a query which claims"""
        keys = ['count(courses)', 'sum(credits)', 'count(terms)', 'count(subjects)']
        a = ch('a', keys)
        b = ch('b', keys)
        w = ch('where', [None, {'subject': {'$eq': 'AAA'}}, {'level': {'$gte': 200}}])
        op = ch('op', ['$gte', '$lte', '$eq'])
        second = {'assert': {b: {op: ch('n', [0, 1, 2])}}}
        if w:
            second['where'] = w
        cs = self.pick(ch, 5 if tier == 'quick' else 6)
        q = {'from': 'courses', 'all': [{'assert': {a: {'$gte': ch('m', [1, 2])}}}, second]}
        return {'student': student(cs), 'spec': area({'all': [{'name': 'R', 'result': q}]})}

    def audit(self, ch, tier):
        """assertions over everything a group of rules claimed"""
        key = ch('key', ['count(courses)', 'sum(credits)', 'count(terms)', 'count(subjects)', 'average(grades)'])
        op = ch('op', ['$gte', '$lte', '$eq'])
        n = ch('n', [1, 2, 3])
        w = ch('where', [None, {'subject': {'$eq': 'AAA'}}])
        cs = self.pick(ch, 5 if tier == 'quick' else 7)
        clause = {'assert': {key: {op: n}}}
        if w:
            clause['where'] = w
        dup = ch('again', [False, True])
        items = [{'course': 'AAA 101'}, {'from': 'courses', 'where': {'subject': {'$neq': 'AAA'}}, 'assert': {'count(courses)': {'$gte': 1}}}]
        if dup:
            # the same course a second time, by permission
            items.append({'course': 'AAA 101', 'allow_claimed': True})
        return {'student': student(cs), 'spec': area({'all': [{'name': 'R', 'result': {'all': items, 'audit': clause}}]})}

    def bounds(self, tier):
        return ('14 aggregates x 6 operators x 2-5 bounds over every subset of 7-9 courses, and over two or three rows which differ in any one or two of 15 fields; the same over every subset of finished, current, registered and incomplete courses; pairs of 4 aggregates with filters over every subset of '
                '5-6 courses; group audits over every subset of 5-7')


PROP = P()
