"""Closed worlds for the auditor: course records, student records, one audit run on the real code."""
import contextlib
import copy
import io
import json
import logging

logging.disable(logging.CRITICAL)

GRADE_POINTS = {
    'A+': '4.00', 'A': '4.00', 'A-': '3.70', 'B+': '3.30', 'B': '3.00', 'B-': '2.70', 'C+': '2.30', 'C': '2.00',
    'C-': '1.70', 'D+': '1.30', 'D': '1.00', 'D-': '0.70', 'F': '0.00',
}


def course(ident, clbid, **kw):
    """one raw transcript row, the way the registrar's export has it"""
    subject, number = ident.split(' ')
    grade = kw.pop('grade', 'B')
    d = {
        'attributes': [],
        'clbid': clbid,
        'course_type': 'SE',
        'credits': '1.00',
        'crsid': f'x-{ident}',
        'flag_gpa': True,
        'flag_incomplete': False,
        'flag_in_progress': grade in ('IP',),
        'flag_repeat': False,
        'flag_stolaf': True,
        'gereqs': [],
        'grade_code': grade,
        'grade_option': 'grade',
        'grade_points': GRADE_POINTS.get(grade, '0.00'),
        'institution_short': 'STOLAF',
        'level': int(''.join(ch for ch in number if ch.isdigit())) // 100 * 100,
        'name': ident,
        'number': number,
        'schedid': f's{clbid}',
        'section': '',
        'sub_type': '',
        'subject': subject,
        'su_grade_code': '?',
        'term': '1',
        'transcript_code': '',
        'year': '2018',
    }
    if grade == 'IP':
        d['flag_gpa'] = False
    for k, v in kw.items():
        if k not in d:
            raise KeyError(k)
        d[k] = v
    return d


def ip(ident, clbid, *, future=False, **kw):
    """in progress: this term (20201) or registered for a later one (20203)"""
    kw.setdefault('year', '2020')
    kw.setdefault('term', '3' if future else '1')
    return course(ident, clbid, grade='IP', **kw)


def student(courses, **kw):
    d = {
        'stnum': '123456',
        'catalog': '2018',
        'curriculum': '2018',
        'matriculation': '2018',
        'current_term': '20201',
        'areas': [],
        'courses': courses,
        'exceptions': [],
        'templates': {},
        'performances': [],
        'performance_attendances': [],
        'proficiencies': {},
        'mediums': {},
    }
    for k, v in kw.items():
        d[k] = v
    return d


def exc(kind, path, **kw):
    return {'area_code': kw.pop('area_code', '000'), 'type': kind, 'path': path, **kw}


def area(result, requirements=None, **kw):
    d = {'name': 'Test Area', 'type': 'concentration', 'code': '000', 'result': result}
    if requirements:
        d['requirements'] = requirements
    d.update(kw)
    return d


def strip_numbers(x):
    return x


class Outcome:
    """everything observable about one audit"""

    def __init__(self, messages):
        from dp.audit import ResultMsg, EstimateMsg, NoAuditsCompletedMsg, ProgressMsg
        self.messages = messages
        self.results = [m for m in messages if isinstance(m, ResultMsg)]
        self.estimates = [m for m in messages if isinstance(m, EstimateMsg)]
        self.none = [m for m in messages if isinstance(m, NoAuditsCompletedMsg)]
        self.progress = [m for m in messages if isinstance(m, ProgressMsg)]

    @property
    def msg(self):
        return self.results[-1] if self.results else None

    @property
    def result(self):
        return self.results[-1].result if self.results else None

    def tree(self):
        return json.loads(json.dumps(self.result.to_dict()))


def run_audit(stu, spec, **args):
    """one audit through the same entry point as the command line and the server"""
    from dp.run import run
    from dp.audit import Arguments
    stu = copy.deepcopy(stu)
    spec = copy.deepcopy(spec)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        msgs = list(run(Arguments(**args), student=stu, area_spec=spec))
    return Outcome(msgs)


def load_all(stu, spec):
    """(area, student, exceptions) as the entry point builds them"""
    from dp.area import AreaOfStudy
    from dp.data.student import Student
    from dp.exception import load_exception, load_migrations, CourseOverrideException
    stu = copy.deepcopy(stu)
    spec = copy.deepcopy(spec)
    migrations = load_migrations(spec.get('exceptions-migrations', []))
    exceptions = [load_exception(e, migrations) for e in stu.get('exceptions', []) if e['area_code'] == spec['code']]
    loaded = Student.load(stu, code=spec['code'],
                          overrides=[e for e in exceptions if isinstance(e, CourseOverrideException)],
                          credits_overrides=spec.get('credit', {}))
    a = AreaOfStudy.load(specification=spec, c=loaded.constants(), student=loaded, exceptions=exceptions)
    return a, loaded, exceptions


def all_results(stu, spec, cap=100000):
    a, loaded, exceptions = load_all(stu, spec)
    out = []
    for s in a.solutions(student=loaded, exceptions=exceptions):
        out.append(s.audit())
        if len(out) > cap:
            raise RuntimeError('too many solutions for this bound')
    return out


def walk(node):
    """every rule node of a result tree, parents first"""
    yield node
    kids = []
    t = node['type']
    if t == 'area' or t == 'requirement':
        kids = [node.get('result')]
    elif t == 'count':
        kids = node['items']
    elif t == 'conditional':
        r = node['condition']['result']
        kids = [node['when_true'] if r else node['when_false']]
    elif t == 'proficiency':
        kids = [node.get('course')]
    for k in kids:
        if k:
            yield from walk(k)


def find(tree, path):
    for n in walk(tree):
        if n['path'] == list(path) and n['type'] != 'area':
            return n
    return None
