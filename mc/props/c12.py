"""Filters: a query considers exactly the courses its where clause describes."""
from mc import ref
from mc.auditprop import AuditProp
from mc.world import area, course, ip, student

GRADES = list(ref.GRADE_RANK)


def diverse():
    return [
        course('AAA 101', '1', grade='B', gereqs=['X'], attributes=['t1']),
        course('AAA 201', '2', grade='C-', term='3', year='2019', credits='0.50', gereqs=['X', 'Y'], attributes=['t1', 't2']),
        course('BBB 101', '3', grade='A', sub_type='lab', credits='0.25', name='Lab of it'),
        course('BBB 301', '4', grade='S', grade_option='s/u', term='3', year='2019', su_grade_code='B+'),
        course('BBB 301', '5', grade='S', grade_option='s/u', term='1', year='2019', su_grade_code='B+'),
        course('CH/BI 125', '6', grade='B+'), course('CH/BI 227', '7', grade='B-', term='2'), course('CH/BI 228', '8', grade='C'),
        course('CCC 110', '9', course_type='AP', institution_short='AP', flag_stolaf=False, name='AP Stats', grade='NG', flag_gpa=False, year='2017'),
        course('DDD 101', '10', institution_short='CARL', flag_stolaf=False, course_type='CA', grade='P', grade_option='p/n', flag_gpa=False),
        ip('AAA 301', '11'), ip('AAA 302', '12', future=True),
        course('MUS 112', '13', sub_type='ensemble', credits='0.00', term='9', section='A', name='Choir', level=100),
        course('CHEM 125', '14', sub_type='flac', term='5', crsid='00014', name='AP Stats'),
        course('BIO 101', '15', sub_type='discussion', grade='D+', term='3', year='2019'),
        course('AAA 101', '16', sub_type='topic', course_type='IN', term='2', year='2019', grade='A-', gereqs=['Y']),
    ]


def graded(term, su):
    out = []
    for i, g in enumerate(GRADES):
        out.append(course('GGG 101', str(100 + i), grade=g, year='2019', term=term, grade_option='grade'))
    for i, g in enumerate(su):
        out.append(course('SSS 101', str(200 + i), grade='S', grade_option='s/u', su_grade_code=g, year='2019', term=term))
        out.append(course('PPP 101', str(300 + i), grade='P', grade_option='p/n', su_grade_code=g, year='2019', term=term))
    for i, (given, option, su) in enumerate([('P', 's/u', 'B'), ('S', 'p/n', 'B'), ('S', 'grade', 'A'), ('C-', 's/u', 'A'), ('B', 'grade', 'D'), ('U', 's/u', 'D'), ('F', 's/u', 'B'), ('P', 'grade', 'C'), ('IP', 's/u', 'A')]):
        out.append(course('UUU 101', str(400 + i), grade=given, grade_option=option, su_grade_code=su, year='2019', term=term, flag_in_progress=given == 'IP'))
    return out


ORD, EQ, IN = ['$lt', '$lte', '$gt', '$gte'], ['$eq', '$neq'], ['$in', '$nin']
SCALAR = {
    'subject': (EQ, ['AAA', 'CHEM', 'BIO', 'CH/BI', 'ZZZ']),
    'course': (EQ, ['AAA 101', 'BBB 101.L', 'BBB 101', 'CHEM 125.F', 'BIO 101.D', 'CH/BI 125']),
    'number': (EQ + ORD, ['101', '125', '301', 101]),
    'level': (EQ + ORD, [100, 200, 300, '100']),
    'institution': (EQ, ['STOLAF', 'CARL', 'AP']),
    'ap': (EQ, ['AP Stats', 'AP Other']),
    'name': (EQ, ['AP Stats', 'Choir', '']),
    'type': (EQ, ['Normal', 'Lab', 'Topic', 'Ensemble', 'Flac', 'Discussion']),
    'course_type': (EQ, ['Semester', 'AP', 'Carleton', 'Interim']),
    'lab': (EQ, [True, False]),
    'grade_option': (EQ, ['grade', 's/u', 'p/n', 'no grade']),
    'is_stolaf': (EQ, [True, False]),
    'is_in_gpa': (EQ, [True, False]),
    'is_in_progress': (EQ, [True, False]),
    'year': (EQ + ORD, [2017, 2018, 2019, 2020, '2018', '$matriculation-year']),
    'semester': (EQ + ORD, ['1', '2', '3', '9', 1]),
    'credits': (EQ + ORD, [0, 1, '0.50', '0.25', '1.00']),
    'clbid': (EQ, ['1', '14']),
    'crsid': (EQ, ['00014', 'x-AAA 101']),
    'gereqs': (EQ, ['X', 'Y', 'Z']),
    'attributes': (EQ, ['t1', 't2', 't3']),
    'attribute': (EQ, ['t1', 't2']),
}
LISTS = {
    'subject': [['AAA', 'CHEM'], ['BIO'], ['CH/BI', 'BBB'], []],
    'course': [['AAA 101', 'BBB 101.L']],
    'level': [[100, 300], ['200']],
    'year': [[2017, 2019], ['$matriculation-year', 2020]],
    'semester': [['1', '9'], [2, 5]],
    'institution': [['CARL', 'AP']],
    'type': [['Lab', 'Topic']],
    'name': [['Choir', 'AP Stats']],
    'number': [['101', '110']],
}
TAGLISTS = {'gereqs': [['X', 'Z'], ['Y'], ['Z']], 'attributes': [['t2'], ['t1', 't3'], ['t3', 't4']]}
ATOMS = [
    {'subject': {'$eq': 'AAA'}}, {'level': {'$gte': 200}}, {'gereqs': {'$eq': 'X'}}, {'grade': {'$gte': 'B-'}},
    {'credits': {'$lt': 1}}, {'is_stolaf': {'$eq': False}}, {'semester': {'$neq': '1'}},
]
CONDS = [{'has-course': 'AAA 101'}, {'has-course': 'ZZZ 101'}]


class P(AuditProp):
    ID = 'C12'
    TOPICS = {'match', 'shape', 'status', 'assert'}
    RULE = 'a case fails when the set of courses a look-only query reports differs from the courses the clause describes (decided per course, by hand-written comparison)'
    ASSUMPTIONS = ['combinations the auditor documents as errors (ordering a list, a list against a list with anything but $in) are not generated']

    def worlds(self, tier):
        return [self.single, self.lists, self.grades, lambda ch: self.compound(ch, tier), self.counted, self.constants]

    def case(self, where, courses, **kw):
        q = {'from': 'courses', 'where': where, 'allow_claimed': True, 'claim': False, 'assert': {'count(courses)': {'$gte': 1}}, **kw}
        return {'student': student(courses), 'spec': area({'all': [{'name': 'R', 'result': q}]})}

    def single(self, ch):
        key = ch('key', list(SCALAR))
        ops, values = SCALAR[key]
        op = ch('op', ops)
        v = ch('value', values)
        return self.case({key: {op: v}}, diverse())

    def lists(self, ch):
        key = ch('key', list(LISTS) + ['grade'] + list(TAGLISTS))
        if key == 'grade':
            return self.case({key: {ch('op', IN): ch('value', [['A', 'B'], ['S'], ['B+', 'C-', 'IP']])}}, diverse())
        if key in TAGLISTS:
            return self.case({key: {'$in': ch('value', TAGLISTS[key])}}, diverse())
        return self.case({key: {ch('op', IN): ch('value', LISTS[key])}}, diverse())

    def grades(self, ch):
        term = ch('term', ['1', '3'])       # 2019 term 3 is the covid term
        op = ch('op', EQ + ORD)
        v = ch('value', GRADES)
        clause = {op: v}
        covid = ch('covid', [None, 'C-', 'B', 'S', 'P'])
        if covid:
            clause['$during_covid'] = covid
        failed = ch('failed', [False, True])
        return self.case({'grade': clause}, graded(term, ['A', 'B+', 'C-', 'D', 'F']), **({'include_failed': True} if failed else {}))

    def compound(self, ch, tier):
        atoms = ATOMS

        def tree(depth):
            kinds = ['atom', 'and', 'or', 'not', 'pair', 'if', 'ifelse']
            k = ch('kind', kinds if depth else ['atom'])
            if k == 'atom':
                return ch('atom', atoms if depth != 1 or tier == 'thorough' else atoms[:4])
            if k == 'not':
                return {'$not': tree(depth - 1)}
            if k == 'pair':
                return {**ch('p', atoms[:3]), **ch('q', atoms[3:])}
            if k in ('if', 'ifelse'):
                d = {'$if': ch('cond', CONDS), '$then': tree(0)}
                if k == 'ifelse':
                    d['$else'] = tree(0)
                return d
            return {f'${k}': [tree(depth - 1), tree(0)] + ([tree(0)] if depth == 1 and tier == 'thorough' else [])}
        return self.case(tree(2), diverse())

    def counted(self, ch):
        """the same clause as a filter of an assertion and of a claiming query"""
        where = ch('clause', ATOMS + [{'$and': ATOMS[:2]}, {'$or': ATOMS[1:3]}, {'$not': ATOMS[2]}])
        inner = ch('inner', ATOMS)
        n = ch('n', [0, 1, 2, 3])
        kw = ch('mode', [{}, {'claim': False, 'allow_claimed': True}])
        q = {'from': 'courses', 'where': where, 'all': [{'where': inner, 'assert': {'count(courses)': {'$gte': n}}}], **kw}
        return {'student': student(diverse()[:6]), 'spec': area({'all': [{'name': 'R', 'result': q}]})}

    def constants(self, ch):
        """symbolic constants, for students on whose record each of them is one thing or another"""
        const = ch('constant', ['$matriculation-year', '$terms-since-declaring-major', '$current-area-code', '$primary-performing-medium', '$current-area-code-music-exam'])
        stu = student([course('AAA 101', '1', year='2018'), course('AAA 201', '2', year='2019', term='3', name='Piano', attributes=['Exam: 100', '2018']),
                       course('BBB 100', '3', name='100', attributes=['100', '2']), course('BBB 102', '4', term='2', name='2', attributes=['Piano']), course('CCC 101', '5', term='3', name='Exam: 100', attributes=['Voice', '3'])])
        stu['matriculation'] = ch('matriculation', ['2018', '2019', None]) if const == '$matriculation-year' else '2018'
        mine = {'code': '100', 'kind': 'concentration', 'name': 'Mine', 'degree': 'B.A.', 'status': ch('status', ['declared', 'what-if-drop', 'what-if']), 'dept': None, 'gpa': 0, 'terms': []}
        if const == '$terms-since-declaring-major':
            t = ch('terms', [None, 0, 1, 2, 3])
            if t is not None:
                mine['terms_since_declaration'] = t
        other = {**mine, 'code': '200', 'status': 'declared', 'terms_since_declaration': 2}
        stu['areas'] = ch('areas', [[mine], [other, mine], [other], []])
        if const == '$primary-performing-medium':
            stu['mediums'] = ch('mediums', [{}, {'ppm': 'Piano'}, {'ppm': 'Piano, Voice'}, {'ppm': 'Violin', 'spm': 'Piano'}])
        v = ch('value', [const, [const], [const, 'Voice'], [2019, const]])
        if ch('where', ['bound', 'filter']) == 'filter':
            key = ch('key', ['number', 'name', 'attributes', 'semester', 'year'])
            op = ch('op', ['$eq', '$neq'] if isinstance(v, str) else ['$in', '$nin'])
            if key == 'attributes' and (not isinstance(v, str) or const == '$primary-performing-medium'):
                op = '$in'
            rule = self.case({key: {op: v}}, [])
        elif isinstance(v, str) and const in ('$terms-since-declaring-major',):
            rule = self.case({'level': {'$gte': 100}}, [], **{'assert': {ch('agg', ['count(courses)', 'count(terms)']): {ch('op', ['$gte', '$gt', '$lte', '$eq']): v}}})
        else:
            rule = self.case({'subject': {'$in': ['AAA', 'BBB']}, 'year': {'$neq': v}} if isinstance(v, str) else {'year': {'$in': v}}, [])
        return {'student': stu, 'spec': {**rule['spec'], 'code': '100'}}

    def bounds(self, tier):
        return ('5 constants in filters, lists and bounds, for records on which they are 3-5 things or missing; every key x operator x value over 16 courses; every grade x operator x bound in and out of the covid term with 5 covid bounds; '
                'every clause tree of depth 2 over 7 atoms')


PROP = P()
