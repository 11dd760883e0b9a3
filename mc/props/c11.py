"""Adjusted bounds, adjusted courses and moved paths: each exception does what it says, where it says, for its own area only."""
import copy

from mc import gen
from mc.auditprop import AuditProp
from mc.exworlds import SPECS, base, places
from mc.gen import q, qs, req, subj
from mc.world import area, course, exc, ip, run_audit, student, walk

ROWS = [
    course('AAA 101', '1', grade='B', credits='1.00'),
    course('BBB 101', '2', grade='A', credits='0.50', year='2019'),
    ip('CCC 201', '3', credits='1.00'),
    course('AAA 201', '4', grade='C-', credits='0.25', sub_type='lab'),
]
COURSE_RULES = {
    'sumA': q('1.50', subj('AAA'), key='sum(credits)'),
    'sum': q(2, key='sum(credits)'),
    'subjects': q(2, key='count(subjects)'),
    'B': {'course': 'BBB 101'},
    'A': {'any': [{'course': 'AAA 101'}, {'course': 'CCC 201'}]},
    'half': q(1, {'credits': {'$gte': 1}}),
    'gpa': q('3.00', key='average(grades)'),
    'lab': {'course': 'BBB 201.L'},
}
MOVES = [
    (['$', '.count', '[0]'], ['$', '.count', '[1]']),
    (['$', '.count', '[1]', '%Old'], ['$', '.count', '[1]', '%R']),
    (['$', '.count'], ['$', '.count']),
    (['$', '.count', '[1]', '%R', '.query'], ['$', '.count', '[0]', '*AAA 101']),
    (['$', '.count', '[9]'], ['$', '.count', '[0]']),
]


class P(AuditProp):
    ID = 'C11'
    TOPICS = None
    RULE = ('a case fails when the result differs from what the area file means with the bound replaced, the course changed, or the path moved exactly as '
            'filed; or when an exception filed for another area has any effect')
    ASSUMPTIONS = ['one replaced bound per assertion; several exceptions of one kind for one course are applied in filing order']

    def worlds(self, tier):
        return [lambda ch: self.bound(ch, tier), lambda ch: self.changed(ch, tier), lambda ch: self.moved(ch, tier), lambda ch: self.foreign(ch, tier)]

    def bound(self, ch, tier):
        name, spec, stu = base(ch, ['abcd', 'abp', 'cd', ''])
        at = [p for k, p in places(stu, spec) if k.startswith('assert')]
        if not at:
            return {'student': stu, 'spec': spec}
        i = ch('path', list(range(len(at))))
        vals = ['1', '0', '2', '3', 4]
        stu['exceptions'].append(exc('value', at[i], value=ch('value', vals)))
        j = ch('path2', [None] + list(range(i + 1, len(at))))
        if j is not None:
            stu['exceptions'].append(exc('value', at[j], value=ch('value2', vals)))
        w = ch('waived', [None, 'after', 'before'])
        if w:
            stu['exceptions'].insert(0 if w == 'before' else len(stu['exceptions']), exc('override', at[i]))
        return {'student': stu, 'spec': spec}

    def changed(self, ch, tier):
        """courses with other credits or another subject"""
        a = copy.deepcopy(COURSE_RULES[ch('a', list(COURSE_RULES))])
        b = copy.deepcopy(COURSE_RULES[ch('b', list(COURSE_RULES) if tier == 'thorough' else ['sum', 'A', 'half'])])
        ex = []
        for i in range(2):
            kind = ch(f'kind{i}', [None, 'course-credits', 'course-subject'] if i else ['course-credits', 'course-subject'])
            if kind == 'course-credits':
                ex.append(exc(kind, ['$'], clbid=ch(f'of{i}', ['1', '2', '3', '9'] if tier == 'thorough' or not i else ['1', '2']), credits=ch(f'to{i}', ['0.50', '2.00', '0.00'] if tier == 'thorough' or not i else ['2.00'])))
            elif kind:
                ex.append(exc(kind, ['$'], clbid=ch(f'of{i}', ['1', '2', '3', '4']), subject=ch(f'to{i}', ['BBB', 'AAA'])))
        if tier == 'thorough':
            spare = ch('foreign', [None, 'course-credits', 'course-subject'])
            if spare:
                ex.append(exc(spare, ['$'], clbid='1', area_code='001', credits='9.00', subject='ZZZ'))
        kw = ch('credit', [{}, {'credit': {'name=AAA 101': '0.75'}}])
        rows = [copy.deepcopy(r) for r in ROWS]
        if ch('drop', [None, 0]) == 0:
            rows = rows[1:]
        return {'student': student(rows, exceptions=ex), 'spec': area({'all': [a, req('R', b)]}, **kw)}

    def moved(self, ch, tier):
        spec = area(copy.deepcopy(SPECS['flat']))
        stu = student(gen.rows(ch('courses', ['abcd', 'bcd', 'cd'])))
        ms = []
        for i in range(2 if tier == 'quick' else 3):
            m = ch(f'move{i}', [None] + MOVES)
            if m:
                ms.append({'from-path': list(m[0]), 'to-path': list(m[1]), 'date': '2020-01-01', 'comment': 'x'})
        spec['exceptions-migrations'] = ms
        at = [p for _k, p in places(stu, spec)] + [['$', '.count', '[1]', '%Old', '.query'], ['$', '.count', '[9]', '*AAA 101']]
        kind = ch('kind', ['override', 'block', 'force-insert', 'value'])
        p = ch('path', at)
        to = list(p)
        for m in ms:
            if to[:len(m['from-path'])] == m['from-path']:
                to = m['to-path'] + to[len(m['from-path']):]
        if kind == 'block' and to[-1] not in ('.query', '.assert') and not to[-1].startswith('*'):
            kind = 'override'
        if kind == 'value' and to[-1] != '.assert':
            kind = 'override'
        if kind == 'force-insert' and to[-1] not in ('.query', '.assert', '.count') and not to[-1].startswith('*'):
            kind = 'override'
        e = exc(kind, p)
        if kind in ('block', 'force-insert'):
            e['clbid'] = stu['courses'][ch('which', [0, 1])]['clbid']
        if kind == 'value':
            e['value'] = '2'
        stu['exceptions'].append(e)
        return {'student': stu, 'spec': spec}

    def foreign(self, ch, tier):
        """exceptions of every kind, filed for another area"""
        name, spec, stu = base(ch, ['abcd', 'bcp'])
        p = ch('path', [p for _k, p in places(stu, spec)])
        kind = ch('kind', ['insert', 'force-insert', 'block', 'value', 'course-credits', 'course-subject', 'override'])
        stu['exceptions'].append(exc(kind, p, area_code=ch('code', ['001', '0001', '00', '']), clbid=stu['courses'][0]['clbid'], value='9', credits='9.00', subject='ZZZ'))
        return {'student': stu, 'spec': spec, 'foreign': True}

    def judge(self, case, tree, o):
        v = super().judge(case, tree, o)
        if case.get('foreign') and run_audit({**case['student'], 'exceptions': []}, case['spec']).tree() != tree:
            v.append('an exception for another area changed the result')
        return v

    def bounds(self, tier):
        return ('13 area files, every 1-2 assertions with every replaced bound of 5 (and waived) x 4 transcripts; every pair of 8 rules with every 1-2 course '
                'adjustments (24 each); every 2 (thorough 3) of 5 path moves with every exception at every place; every exception kind at every place for another area')


PROP = P()
