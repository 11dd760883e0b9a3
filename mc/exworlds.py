"""Area files in which every place an exception can name occurs, and the enumeration of those places."""
import copy

from . import cert, gen
from .gen import q, qs, req, subj
from .world import area, course, exc, ip, student  # noqa: F401

CONDITION = {'has-course': 'AAA 101'}
SPECS = {
    'flat': {'all': [{'course': 'AAA 101'}, req('R', q(1, subj('AAA'))), {'any': [{'course': 'BBB 101'}, {'course': 'ZZZ 101'}]}]},
    'nest': {'all': [req('R', {'all': [{'course': 'AAA 201'}, req('S', {'any': [{'course': 'AAA 101'}, q(2)]})]}), {'course': 'BBB 201'}]},
    'cond': {'all': [{'$if': CONDITION, '$then': {'course': 'AAA 201'}, '$else': {'course': 'BBB 201'}},
                     {'$if': {'has-course': 'ZZZ 101'}, '$then': {'course': 'ZZZ 101'}}, req('R', q(2))]},
    'multi': {'all': [req('R', qs([{'count(courses)': {'$gte': 2}}, {'where': subj('BBB'), 'assert': {'count(courses)': {'$lte': 0}}}])),
                      {'count': 2, 'of': [{'course': 'AAA 101'}, {'course': 'BBB 101'}, {'course': 'ZZZ 101'}]}]},
    'audit': {'all': [req('R', {'any': [{'course': 'AAA 101'}, {'course': 'AAA 201'}, {'course': 'BBB 101'}],
                                'audit': {'all': [{'assert': {'count(courses)': {'$gte': 2}}},
                                                  {'where': subj('BBB'), 'assert': {'sum(credits)': {'$gte': 1}}}]}}), {'course': 'BBB 201'}]},
    'gpa': {'all': [req('R', q('3.50', subj('AAA'), key='average(grades)')), req('S', q(1, {'level': {'$eq': 200}}))]},
    'dept': {'all': [{'name': 'D', 'department_audited': True, 'message': 'm'}, req('K', {'course': 'AAA 101'}, contract=True),
                     {'name': 'E', 'department_audited': True, 'result': q(1)}, req('N', {'course': 'BBB 101'}, in_gpa=False)]},
    'branch': {'all': [req('R', qs([{'$if': CONDITION, '$then': {'assert': {'count(courses)': {'$gte': 3}}},
                                     '$else': {'assert': {'count(courses)': {'$gte': 1}}}},
                                    {'$when': {'query-has-course-with-attribute': 'att_x'}, '$then': {'assert': {'count(subjects)': {'$gte': 2}}}}]))]},
    'prof': {'all': [{'proficiency': 'Guitar'}, {'proficiency': 'Keyboard Level I', 'course': {'course': 'AAA 101'}}, req('R', q(2))]},
    'claim': {'all': [{'course': 'AAA 101'}, req('R', q(1, subj('BBB'))), q(2, claim=False), {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 0}}}]},
    'opt': {'all': [{'course': 'AAA 101', 'optional': True}, {'course': 'AAA 201', 'grade': 'A'}, {'count': 1, 'at_most': True, 'of': [{'course': 'BBB 101'}, q(1, subj('BBB'))]}]},
    'areas': {'all': [{'from': 'areas', 'where': {'type': {'$eq': 'concentration'}}, 'assert': {'count(areas)': {'$gte': 2}}}, req('R', q(2))]},
    'deep': {'any': [req('R', {'all': [{'course': 'AAA 101'}, {'course': 'ZZZ 101'}]}), req('S', {'both': [{'course': 'BBB 101'}, {'course': 'AAA 201'}]}),
                     req('T', {'either': [q(3), {'course': 'ZZZ 102'}]})]},
}
SETS = {'abcd': 'abcd', 'abp': 'abp', 'acf': 'acf', 'bcd': 'bcd', 'cd': 'cd', 'a': 'a', '': ''}


def places(stu, spec):
    """[(kind of place, path)] in the order of the area file"""
    out = []
    for n in cert.World(stu, spec).root.walk():
        # courses can be put into, or kept from, queries over courses only
        other = '' if n.kind != 'query' or n.source in ('courses', 'claimed') else ' over other records'
        out.append((n.kind + other, list(n.path)))
        for a in list(getattr(n, 'asserts', [])) + list(getattr(n, 'audits', [])):
            for x in ([a] if a.kind == 'plain' else [a.t] + ([a.f] if getattr(a, 'f', None) else [])):
                out.append(('assert' + other, list(x.path)))
    return out


def base(ch, sets, specs=None):
    name = ch('spec', list(specs or SPECS))
    spec = area(copy.deepcopy(SPECS[name]))
    return name, spec, student(gen.rows(ch('courses', sets)))
