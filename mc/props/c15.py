"""Grade point averages: exact, truncated, over exactly the right courses."""
import copy

from mc.auditprop import AuditProp
from mc.gen import q, req, subj
from mc.world import area, course, exc, ip, student

VARIANTS = {
    'A': dict(grade='A'),
    'B-': dict(grade='B-'),
    'C+half': dict(grade='C+', credits='0.50'),
    'A-quarter': dict(grade='A-', credits='0.25'),
    'F': dict(grade='F'),
    'S': dict(grade='S', grade_option='s/u', flag_gpa=False),
    'out': dict(grade='D', flag_gpa=False),
    'zero': dict(grade='B', credits='0.00'),
    'repeat': dict(grade='D+', transcript_code='R'),
    'ip': None,
    'Dthird': dict(grade='D-', credits='0.33'),
    'W': dict(grade='W', flag_gpa=False),
    'transfer': dict(grade='B+', flag_gpa=False, flag_stolaf=False, institution_short='CARL'),
}
RULES = {
    'each': lambda: [q(1, subj('AAA')), req('R', q(1, subj('BBB'))), req('S', q(1, subj('CCC')))],
    'out': lambda: [q(1, subj('AAA')), req('R', q(1, subj('BBB')), in_gpa=False), req('S', req('T', q(1, subj('CCC'))), in_gpa=False)],
    'shared': lambda: [{'course': 'AAA 101'}, req('R', q(1, subj('AAA'), allow_claimed=True), in_gpa=False), req('S', {'course': 'BBB 101'})],
    'twice': lambda: [{'course': 'AAA 101'}, {'course': 'AAA 101', 'allow_claimed': True}, q(2, {'subject': {'$neq': 'AAA'}})],
    'some': lambda: [{'any': [{'course': 'BBB 101'}, {'course': 'ZZZ 101'}]}],
    'failed': lambda: [q(1, include_failed=True), req('R', q(1, subj('CCC')))],
    'look': lambda: [q(1, claim=False), {'course': 'BBB 101'}],
    'avg': lambda: [q('2.50', key='average(grades)'), req('S', q(1, allow_claimed=True, key='sum(credits)'))],
    'avgfail': lambda: [q('2.00', key='average(grades)', include_failed=True, allow_claimed=True, claim=False)],
    'inner': lambda: [req('R', {'all': [{'course': 'AAA 101'}, req('S', {'course': 'BBB 101'}, in_gpa=False)]}), {'course': 'CCC 101'}],
    'then': lambda: [{'course': 'AAA 101'}, {'$if': {'has-course': 'AAA 101'}, '$then': {'both': [req('N', {'course': 'BBB 101'}, in_gpa=False), q(1)]}, '$else': {'any': [req('M', {'course': 'CCC 101'}, in_gpa=False), q(1)]}}],
    'else': lambda: [{'$if': {'has-course': 'BBB 101'}, '$then': req('N', {'course': 'AAA 101'}, in_gpa=False)}, {'$if': {'has-course': 'ZZZ 101'}, '$then': {'course': 'AAA 101'}, '$else': req('M', q(1), in_gpa=False)}, q(1)],
    'pick': lambda: [{'count': 2, 'of': [req('N', q(1), in_gpa=False), req('M', {'both': [{'course': 'BBB 101'}, req('O', q(1), in_gpa=False)]}), {'course': 'CCC 101'}]}],
}


def row(kind, i):
    ident = f'{"ABCD"[i] * 3} 101'
    if kind == 'ip':
        return ip(ident, str(i + 1))
    return course(ident, str(i + 1), year='2018', term='1', **copy.deepcopy(VARIANTS[kind]))


class P(AuditProp):
    ID = 'C15'
    TOPICS = {'gpa', 'assert', 'status', 'value'}
    RULE = 'a case fails when the reported average is not the truncated quotient of the truncated grade points over the credits of exactly the courses it covers'
    ASSUMPTIONS = ['a degree averages the whole transcript including failed courses, every other area the courses claimed by requirements which count toward it']

    def worlds(self, tier):
        return [lambda ch: self.some(ch, tier)]

    def some(self, ch, tier):
        rule = ch('rules', list(RULES))
        kind = ch('type', ['concentration', 'degree', 'minor'])
        vs = list(VARIANTS)
        names = [ch('first', vs), ch('second', vs if tier == 'thorough' else vs[:10]), ch('third', [None] + (vs if tier == 'thorough' else ['A-quarter', 'F', 'Dthird', 'ip']))]
        rows = [row(k, i) for i, k in enumerate(names) if k]
        spec = area({'all': RULES[rule]()}, type=kind)
        if kind == 'degree':
            spec['degree'] = 'B.A.'
        return {'student': student(rows), 'spec': spec}

    def bounds(self, tier):
        return '13 rule sets x 3 kinds of area x every transcript of 2-3 courses in 13 variants (grades, credits, S/U, failed, repeated, in progress, transfer)'


PROP = P()
