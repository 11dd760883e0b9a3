"""Transcript: which rows of the record count as courses at all, under which identity, in which order, in what state."""
import copy

from mc import ref
from mc.auditprop import AuditProp
from mc.gen import req
from mc.world import area, course, student, walk

GRADES = ['A+', 'A', 'A-', 'B+', 'B', 'B-', 'C+', 'C', 'C-', 'D+', 'D', 'D-', 'F', 'AB', 'BC', 'NG', 'IP', 'I', 'P', 'N', 'S', 'U', 'AU', 'UA', 'WF', 'WP', 'W']
LOOK = {'from': 'courses', 'claim': False, 'allow_claimed': True, 'assert': {'count(courses)': {'$gte': 1}}}


class P(AuditProp):
    ID = 'C16'
    TOPICS = {'match', 'status', 'assert', 'claims', 'gpa'}
    RULE = ('a case fails when a query over everything does not see exactly the creditable rows (or, when failed ones are asked for, those and the failed '
            'ones), or sees them under a wrong identity, order, or state of completion')
    ASSUMPTIONS = ['rows are as the registrar exports them: every field present, enumerated fields from their domain']

    def worlds(self, tier):
        return [lambda ch: self.codes(ch, tier), lambda ch: self.flags(ch, tier), lambda ch: self.twins(ch, tier), lambda ch: self.order(ch, tier), lambda ch: self.terms(ch, tier)]

    def spec(self):
        return area({'all': [req('Look', copy.deepcopy(LOOK)), req('Failed', {**copy.deepcopy(LOOK), 'include_failed': True}),
                             req('Some', {**copy.deepcopy(LOOK), 'include_failed': True, 'where': {'subject': {'$eq': 'AAA'}}}), req('Passed', {**copy.deepcopy(LOOK), 'where': {'subject': {'$eq': 'AAA'}}}),
                             req('Sum', {**copy.deepcopy(LOOK), 'assert': {'sum(credits)': {'$gte': 1}}}),
                             {'any': [{'course': 'AAA 101'}, {'course': 'AAA 101.L'}, {'course': 'AAA 101.D'}, {'course': 'AAA 101.F'}]}]})

    def codes(self, ch, tier):
        g = ch('grade', GRADES)
        r = course('AAA 101', '1', grade=g, grade_option=ch('option', ['grade', 's/u', 'p/n', 'audit', 'no grade']),
                   transcript_code=ch('code', ['', 'R', '#', '~', '*', '+']), sub_type=ch('sub', ['', 'lab', 'discussion', 'flac', 'topic', 'seminar', 'ensemble', 'research']))
        r['flag_in_progress'] = g in ('IP', 'I')
        r['flag_incomplete'] = g == 'I'
        return {'student': student([r, course('BBB 101', '2')]), 'spec': self.spec()}

    def flags(self, ch, tier):
        """whatever else is noted in the row"""
        g = ch('grade', ['B', 'F', 'IP', 'I', 'W', 'P'])
        r = course('AAA 101', '1', grade=g, transcript_code=ch('code', ['', 'R', '#', '~', '*', '+']), grade_option=ch('option', ['grade', 'audit', 's/u']), flag_repeat=ch('repeat', [False, True]),
                   flag_stolaf=ch('stolaf', [True, False]), flag_gpa=ch('gpa', [True, False]), course_type=ch('type', ['SE', 'AP', 'GE', 'OT']), credits=ch('credits', ['1.00', '0.00']))
        r['flag_in_progress'] = g in ('IP', 'I')
        r['flag_incomplete'] = g == 'I'
        return {'student': student([r, course('BBB 101', '2')]), 'spec': self.spec()}

    def twins(self, ch, tier):
        """enrolled under one class id more than once"""
        rows = []
        for i in range(3):
            k = ch(f'row{i}', [None, 'B', 'F', 'W', 'IP', 'audit'])
            if not k:
                continue
            r = course('AAA 101', ch(f'id{i}', ['1', '2']), grade='B' if k == 'audit' else k, schedid=f's{i}', credits=['1.00', '0.50', '0.25'][i], year=['2019', '2018', '2017'][i])
            if k == 'audit':
                r['grade_option'] = 'audit'
            rows.append(r)
        return {'student': student(rows), 'spec': self.spec()}

    def order(self, ch, tier):
        rows = []
        for i in range(3):
            t = ch(f'type{i}', ['SE', 'AP', 'TR'] if tier == 'quick' else ['SE', 'IN', 'SM', 'CA', 'OC', 'AP', 'PS', 'TR', 'GE', 'AD'])
            y, s = ch(f'when{i}', [('2018', '1'), ('2018', '3'), ('2017', '9'), ('2019', '2')])
            rows.append(course(f'AAA 10{i + 1}', ['2', '10', '1'][i], course_type=t, year=y, term=s))
        return {'student': student(rows), 'spec': self.spec()}

    def terms(self, ch, tier):
        """what is in progress now, and what is registered for later"""
        rows = []
        for i in range(2):
            g = ch(f'grade{i}', ['IP', 'I', 'B'])
            y, s = ch(f'when{i}', [('2020', '1'), ('2020', '3'), ('2019', '5'), ('2021', '1'), ('2019', '3'), ('2020', '2')])
            rows.append(course('AAA 101' if i == 0 else 'BBB 101', str(i + 1), grade=g, year=y, term=s, flag_in_progress=g != 'B', flag_incomplete=g == 'I'))
        stu = student(rows, current_term=ch('now', ['20201', '20193', '20203', '20213', '20185']))
        return {'student': stu, 'spec': self.spec()}

    def judge(self, case, tree, o):
        v = super().judge(case, tree, o)
        for name, failed, some in (('Look', False, False), ('Failed', True, False), ('Some', True, True), ('Passed', False, True)):
            want = [c.schedid for c in ref.transcript(case['student'], failed=failed) if not some or c.subject == 'AAA']
            n = next(n for n in walk(tree) if n['path'][-2:] == [f'%{name}', '.query'])
            got = [x['value'] for x in n['output']]
            if got != want and n['state'] == 'result':
                v.append(f'{name}: sees {got}, the record has {want}')
            if n['state'] != 'result' and want:
                v.append(f'{name}: saw nothing of {want}')
        return v

    def bounds(self, tier):
        return ('27 grades x 5 grade options x 6 transcript codes x 8 course kinds; 6 grades x 6 transcript codes x every combination of the other flags; every record of 3 rows sharing class ids; every order of 3 rows over 3-10 '
                'course types and 4 terms; every pair of in-progress, incomplete and finished rows over 6 terms and 5 current terms')


PROP = P()
