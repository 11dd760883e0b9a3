"""Course rules: which rows satisfy a reference to a course."""
import copy

from mc import ref
from mc.auditprop import AuditProp
from mc.gen import q, req, subj
from mc.world import area, course, ip, student

ROWS = [
    course('AAA 101', '1', grade='B'),
    course('AAA 101', '2', grade='A', year='2019', term='3', section='A', name='Other name'),
    course('AAA 101', '3', sub_type='lab'),
    course('AAA 101', '4', sub_type='flac', section='B'),
    course('AAA 101', '5', sub_type='discussion'),
    course('AAA 101', '6', sub_type='topic', section='A', crsid='00777'),
    course('AAA 101', '7', sub_type='ensemble', year='2018', term='3'),
    course('AAA 101', '8', institution_short='CARL', flag_stolaf=False, course_type='CA', flag_gpa=False, name='Carl one'),
    course('AAA 110', '9', institution_short='AP', flag_stolaf=False, course_type='AP', grade='NG', flag_gpa=False, year='2017', name='AP Calc'),
    course('BBB 110', '10', institution_short='AP', flag_stolaf=False, course_type='TR', grade='NG', flag_gpa=False, year='2017', name='AP Calc'),
    course('BBB 101', '11', name='AP Calc', crsid='00777'),
    ip('AAA 101', '12', section='A'),
    ip('AAA 101', '13', future=True),
    course('BBB 102', '14', institution_short='CARL', flag_stolaf=True, name='Carl one'),
    course('AAA 101', '15', grade='F'),
    course('AAA 101', '16', grade='S', grade_option='s/u', flag_gpa=False),
    course('CH/BI 125', '17'),
]
RULES = [
    {'course': 'AAA 101'}, {'course': 'AAA 101.L'}, {'course': 'AAA 101.F'}, {'course': 'AAA 101.D'}, {'course': 'AAA 101.E'},
    {'course': 'AAA 101', 'section': 'A'}, {'course': 'AAA 101', 'section': 'B'}, {'course': 'AAA 101.F', 'section': 'B'},
    {'course': 'AAA 101', 'sub_type': 'L'}, {'course': 'AAA 101.L', 'sub_type': 'L'}, {'course': 'AAA 101', 'sub_type': 'E'}, {'course': 'AAA 101.D', 'sub_type': 'D'},
    {'course': 'AAA 101', 'year': 2018, 'term': '1'}, {'course': 'AAA 101', 'year': 2019, 'term': '3'}, {'course': 'AAA 101', 'year': 2018, 'term': '3'},
    {'course': 'AAA 101', 'year': 2019, 'term': '3', 'section': 'A'},
    {'course': 'AAA 101', 'institution': 'CARL'}, {'course': 'AAA 101', 'institution': 'STOLAF'}, {'name': 'Carl one', 'institution': 'CARL', 'course': 'AAA 101'},
    {'course': 'AAA 101', 'name': 'Other name'}, {'ap': 'AP Calc'}, {'ap': 'AP Calc', 'institution': 'AP'}, {'ap': 'Carl one'}, {'ap': 'AP Calc', 'course': 'AAA 110'},
    {'crsid': '00777'}, {'crsid': '00777', 'course': 'AAA 101'}, {'crsid': 'x-AAA 101'}, {'clbid': '2'}, {'clbid': '9'}, {'clbid': '15'}, {'clbid': '99'},
    {'clbid': '8', 'course': 'AAA 101'},
    {'course': 'CH/BI 125'}, {'course': 'CHEM 125'}, {'course': 'BBB 102'}, {'course': 'BBB 102', 'institution': 'CARL'},
]
EXTRA = [{}, {'grade': 'B'}, {'grade': 'B+'}, {'grade_option': 'grade'}, {'grade_option': 's/u'}, {'optional': True}, {'hidden': True}]
GRADES = list(ref.POINTS)


class P(AuditProp):
    ID = 'C17'
    TOPICS = None
    COMPLETE = True
    ASSUMPTIONS = ['an optional course rule always uses its course, by design; so areas with one are not checked for a way to finish']
    RULE = ('a case fails when a reference to a course takes a row which is not that course (identity, section, sub-type, term, institution, AP name, crsid, clbid, '
            'minimum grade, grade option), or goes without although such a row is free')

    def judge(self, case, tree, o):
        # (an `any` at the top, and a free choice next to a look at what was chosen: see C19)
        self.COMPLETE = 'all' in case['spec']['result'] and not any(i.get('optional') for i in case['spec']['result']['all'])
        if 'from_claimed' in str(case['spec']) and "'from'" in str(case['spec']) and not case.get('forced'):
            self.COMPLETE = False
        self.PENDING = self.COMPLETE
        return super().judge(case, tree, o)

    def worlds(self, tier):
        return [lambda ch: self.identity(ch, tier), lambda ch: self.grades(ch), lambda ch: self.claimed(ch, tier), lambda ch: self.reuse(ch, tier)]

    def identity(self, ch, tier):
        r = {**ch('rule', RULES), **ch('extra', EXTRA)}
        n = len(ROWS)
        i = ch('row1', list(range(n)))
        j = ch('row2', [None] + [x for x in range(n) if x > i] if tier != 'quick' or 'hidden' not in r else [None])
        k = ch('row3', [None] + [x for x in range(n) if x > j]) if tier != 'quick' and j is not None else None
        rows = [copy.deepcopy(ROWS[x]) for x in (i, j, k) if x is not None]
        # a second rule which wants the same sort of course
        other = ch('other', [None] + ([{'course': 'AAA 101'}] if tier != 'quick' else []))
        return {'student': student(rows), 'spec': area({'all': [r] + ([other] if other else []) + [q(1)]})}

    def grades(self, ch):
        g = ch('grade', GRADES + ['S', 'P', 'IP', 'I', 'NG', 'AB', 'BC'])
        r = course('AAA 101', '1', grade=g, grade_option=ch('option', ['grade', 's/u', 'p/n', 'no grade']),
                   flag_in_progress=ch('ip', [g == 'IP', g != 'IP']), year=ch('year', ['2018', '2019']), term='3',
                   su_grade_code=ch('su', ['?', 'A-']))
        r['flag_incomplete'] = r['flag_in_progress'] and ch('incomplete', [g == 'I', g != 'I'])
        rule = {'course': 'AAA 101', 'grade': ch('want', GRADES)}
        o = ch('want option', [None, 'grade', 's/u'])
        if o:
            rule['grade_option'] = o
        return {'student': student([r]), 'spec': area({'all': [req('R', rule)]})}

    def claimed(self, ch, tier):
        """rules which look at claimed courses, or share them"""
        n = 3 if tier == 'quick' else 4
        pool = [{'course': 'AAA 101'}, {'course': 'AAA 101', 'from_claimed': True}, {'course': 'AAA 101', 'allow_claimed': True}, {'course': 'BBB 101'},
                {'course': 'BBB 101', 'from_claimed': True}, {'course': 'AAA 101', 'grade': 'B'}, {'crsid': 'x-AAA 101'}, {'clbid': '2'}, q(1)]
        items = [dict(copy.deepcopy(ch(f'rule{i}', pool))) for i in range(n)]
        ids = ch('rows', [['1'], ['2'], ['1', '2'], ['1', '12'], ['2', '12', '11'], ['11', '12'], []])
        rows = [copy.deepcopy(r) for r in ROWS if r['clbid'] in ids]
        top = ch('top', ['all', 'any'])
        return {'student': student(rows), 'spec': area({top: [req(f'R{i}', x) for i, x in enumerate(items)]})}

    def reuse(self, ch, tier):
        """rules which look at what a query claims, where the query needs every course it may take"""
        ids = ch('rows', [['1'], ['1', '2'], ['1', '11'], ['12'], ['1', '12'], ['11'], ['1', '14']])
        rows = [copy.deepcopy(r) for r in ROWS if r['clbid'] in ids]
        w = ch('where', [None, 'AAA', 'BBB'])
        n = sum(1 for r in rows if w is None or r['subject'] == w)
        if not n:
            return None
        look = copy.deepcopy(ch('look', [{'course': 'AAA 101', 'from_claimed': True}, {'course': 'BBB 101', 'from_claimed': True}, {'crsid': 'x-AAA 101', 'from_claimed': True}, {'clbid': '1', 'from_claimed': True},
                                         {'course': 'AAA 101', 'from_claimed': True, 'grade': 'B'}, {'course': 'AAA 101', 'from_claimed': True, 'section': 'A'}]))
        other = copy.deepcopy(ch('other', [None, {'course': 'BBB 101', 'optional': False}, {'course': 'AAA 101', 'from_claimed': True}, {'course': 'BBB 102', 'from_claimed': True}]))
        query = q(n, subj(w)) if w else q(n)
        items = [look, query] if ch('look first', [True, False]) else [query, look]
        items += [other] if other else []
        wrap = ch('wrap', [False, True])
        return {'student': student(rows), 'spec': area({'all': [req(f'R{i}', x) for i, x in enumerate(items)] if wrap else items}), 'forced': not (other and not other.get('from_claimed'))}

    def bounds(self, tier):
        return ('identity: 36 references x 7 conditions x every 1 or 2 of 17 rows; grades: 20 grades x 4 options x in progress or not x term x S/U grade x 13 minima x 3 '
                'options; claimed: every triple of 9 rules x 7 transcripts x 2 groups; reuse: 6 rules on claimed courses beside a query which needs all it may take; thorough: 3 rows and a competing rule, quadruples')


PROP = P()
