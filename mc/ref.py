"""The reference: what the area file, the student record and the exceptions mean, written down the boring way.

Nothing here imports dp.  Everything works on the raw JSON inputs (course rows, area specification,
exception records) and on the JSON result tree an audit emits.
"""
import itertools
from decimal import Decimal, ROUND_DOWN

D = Decimal
TWO = D('1.00')

GRADE_ORDER = ['F', 'D-', 'D', 'D+', 'C-', 'C', 'C+', 'B-', 'B', 'B+', 'A-', 'A', 'A+']
ODD_GRADES = ['BC', 'AB', 'NG', 'IP', 'I', 'P', 'N', 'S', 'U', 'AU', 'UA', 'WF', 'WP', 'W', 'DP_REG']
GRADE_RANK = {g: i for i, g in enumerate(ODD_GRADES + GRADE_ORDER)}
POINTS = {'A+': D('4.00'), 'A': D('4.00'), 'A-': D('3.70'), 'B+': D('3.30'), 'B': D('3.00'), 'B-': D('2.70'),
          'C+': D('2.30'), 'C': D('2.00'), 'C-': D('1.70'), 'D+': D('1.30'), 'D': D('1.00'), 'D-': D('0.70'), 'F': D('0.00')}
NOT_CREDITED = {'N', 'U', 'AU', 'UA', 'WF', 'WP', 'W'}
PRE_OLAF = {'AP', 'PS', 'AD', 'GE', 'OT', 'TR', 'PC'}
SUFFIX = {'lab': '.L', 'flac': '.F', 'discussion': '.D'}
SUB_TYPE_NAME = {'discussion': 'Discussion', 'ensemble': 'Ensemble', 'flac': 'Flac', 'lab': 'Lab', 'research': 'Research',
                 'seminar': 'Seminar', 'topic': 'Topic', '': 'Normal'}
COURSE_TYPE_NAME = {'SE': 'Semester', 'IN': 'Interim', 'SM': 'Summer', 'CA': 'Carleton', 'IE': 'InterimExchange', 'OC': 'OffCampusCourse',
                    'OP': 'OffCampusProgram', 'CE': 'ContinuingEducation', 'AP': 'AP', 'PS': 'PSEO', 'AD': 'Adjustment', 'GE': 'GeReq',
                    'OT': 'Other', 'TR': 'Transfer', 'PC': 'ParaCollege'}
SUB_TYPE_LETTER = {'E': 'ensemble', 'L': 'lab', 'F': 'flac', 'D': 'discussion'}

WAIVED, DONE, CURRENT, REGISTERED = 'waived', 'done', 'pending-current', 'pending-registered'
MORE, EMPTY, APPROVAL, FAILED = 'needs-more-items', 'empty', 'pending-approval', 'failed-invariant'
PASSING = {WAIVED, DONE, CURRENT, REGISTERED}


class C:
    """a course as the rules see it"""

    def __init__(self, row, current_term, overrides=(), credit_table=None):
        self.row = row
        self.clbid = row['clbid']
        self.crsid = row['crsid']
        self.name = row['name']
        self.number = row['number']
        self.subject = row['subject']
        self.section = row['section'] or None
        self.sub_type = row['sub_type']
        self.type = row['course_type']
        self.credits = D(row['credits'])
        if credit_table and f'name={self.name}' in credit_table:
            self.credits = D(credit_table[f'name={self.name}'])
        for o in overrides:
            if o.get('clbid') != row['clbid']:
                continue
            if o['type'] == 'course-credits':
                self.credits = D(o['credits'])
            if o['type'] == 'course-subject':
                self.subject = o['subject']
        self.ident = f"{self.subject} {self.number}{SUFFIX.get(self.sub_type, '')}"
        self.year = int(row['year'])
        self.term = row['term']
        self.yearterm = f'{self.year}{self.term}'
        self.covid = self.yearterm == '20193'
        self.grade = row['grade_code']
        self.points = D(row['grade_points'])
        self.option = row['grade_option']
        self.gpa_points = (self.points * self.credits).quantize(TWO, rounding=ROUND_DOWN)
        self.in_gpa = row['flag_gpa']
        self.ip = row['flag_in_progress']
        self.incomplete = row['flag_incomplete']
        self.stolaf = row['flag_stolaf']
        self.inst = row['institution_short']
        self.attributes = tuple(row.get('attributes') or ())
        self.gereqs = tuple(row.get('gereqs') or ())
        self.level = int(row['level'])
        self.schedid = row.get('schedid')
        self.su = None if row.get('su_grade_code', '?') == '?' else row['su_grade_code']
        self.this_term = self.future = False
        if current_term and self.grade in ('IP', 'I'):
            self.this_term = self.yearterm <= current_term
            self.future = not self.this_term

    def key(self):
        return (2 if self.type in PRE_OLAF else 1, self.year, self.term, self.clbid)

    def __repr__(self):
        return f'{self.ident}#{self.clbid}'


def transcript(student, area_code='000', credit_table=None, failed=False):
    overrides = [e for e in student.get('exceptions', []) if e['area_code'] == area_code and e['type'] in ('course-credits', 'course-subject')]
    # of several overrides of one kind for one course the last one is in force
    out, seen = [], set()
    for row in student['courses']:
        c = C(row, student.get('current_term'), overrides, credit_table)
        if c.clbid in seen:
            c.clbid = f'{c.clbid}:{c.schedid}'
        seen.add(c.clbid)
        if c.option == 'audit' or row['transcript_code'] in ('R', '~') or c.grade in NOT_CREDITED:
            continue
        if c.grade == 'F' and not failed:
            continue
        out.append(c)
    return sorted(out, key=C.key)


# --- where clauses ---------------------------------------------------------------------------------

def course_value(key, c):
    if key in ('attribute', 'attributes'):
        return c.attributes
    if key == 'gereqs':
        return c.gereqs
    if key == 'subject':
        if c.ident in ('CH/BI 125', 'CH/BI 126'):
            return 'CHEM'
        if c.ident in ('CH/BI 127', 'CH/BI 227'):
            return 'BIO'
        return c.subject
    return {
        'clbid': c.clbid, 'course': c.ident, 'course_type': COURSE_TYPE_NAME[c.type], 'credits': c.credits, 'crsid': c.crsid,
        'grade': c.grade, 'grade_option': c.option, 'institution': c.inst, 'is_in_gpa': c.in_gpa, 'is_in_progress': c.ip,
        'is_stolaf': c.stolaf, 'lab': c.sub_type == 'lab', 'level': c.level, 'name': c.name, 'number': c.number, 'semester': c.term,
        'type': SUB_TYPE_NAME[c.sub_type], 'year': c.year, 'ap': c.name,
    }[key]


def compare_scalars(op, a, b, grade=False):
    if grade:
        if op == '$eq':
            return a == b
        if op == '$neq':
            return a != b
        a, b = GRADE_RANK[a], GRADE_RANK[b]
    elif isinstance(a, str) != isinstance(b, str):
        a, b = str(a), str(b)
    return {'$eq': a == b, '$neq': a != b}[op] if op in ('$eq', '$neq') else \
        {'$lt': lambda: a < b, '$lte': lambda: a <= b, '$gt': lambda: a > b, '$gte': lambda: a >= b}[op]()


def compare(op, value, expected, grade=False):
    """value from the data (scalar, or a tuple of tags), expected from the specification (scalar or list)"""
    values = list(value) if isinstance(value, tuple) else [value]
    wanted = list(expected) if isinstance(expected, (list, tuple)) else [expected]
    if op in ('$in', '$eq') and (isinstance(value, tuple) or isinstance(expected, (list, tuple))):
        return any(compare_scalars('$eq', v, w, grade) for v in values for w in wanted)
    if op in ('$nin', '$neq') and (isinstance(value, tuple) or isinstance(expected, (list, tuple))):
        return all(compare_scalars('$neq', v, w, grade) for v in values for w in wanted)
    return compare_scalars(op, value, expected, grade)


OPS = ('$lt', '$lte', '$gt', '$gte', '$eq', '$neq', '$in', '$nin')


def test_one(key, clause, c, env):
    op = next(k for k in clause if k in OPS)
    expected = clause[op]
    if key == 'credits':
        expected = D(expected) if not isinstance(expected, (list, tuple)) else [D(x) for x in expected]
    expected = env.constant(expected)
    if key == 'grade':
        v = c.grade
        if c.covid:
            if c.grade == 'S' and c.su is not None:
                v = c.su
            if '$during_covid' in clause:
                expected = clause['$during_covid']
        return compare(op, v, expected, grade=True)
    if key == 'ap' and c.type != 'AP':
        return False
    return compare(op, course_value(key, c), expected)


def where(spec, c, env):
    if spec is None:
        return True
    if '$and' in spec:
        return all(where(s, c, env) for s in spec['$and'])
    if '$or' in spec:
        return any(where(s, c, env) for s in spec['$or'])
    if '$not' in spec:
        return not where(spec['$not'], c, env)
    if '$if' in spec:
        if env.condition(spec['$if']):
            return where(spec['$then'], c, env)
        return where(spec['$else'], c, env) if spec.get('$else') is not None else False
    return all(test_one(k, v, c, env) for k, v in spec.items())


def matches(rule, c):
    """does this course satisfy a course rule's identity part"""
    if rule.get('clbid'):
        return c.clbid == rule['clbid']
    if rule.get('institution') is None and rule.get('ap') is None and not c.stolaf:
        return False
    if rule.get('crsid') is not None and c.crsid != rule['crsid']:
        return False
    if rule.get('course') is not None:
        if c.ident != rule['course']:
            return False
        if rule.get('section') is not None and c.section != rule['section']:
            return False
        if rule.get('year') is not None and (c.year, c.term) != (rule['year'], rule['term']):
            return False
        st = SUB_TYPE_LETTER.get(rule.get('sub_type') or '')
        if st is not None and c.sub_type != st:
            return False
    if rule.get('name') is not None and c.name != rule['name']:
        return False
    if rule.get('institution') is not None and c.inst != rule['institution']:
        return False
    if rule.get('ap') is not None and (c.type != 'AP' or c.name != rule['ap']):
        return False
    return True


def qualifies(rule, c):
    """identity plus the minimum grade and grade option (an in-progress course has no grade yet)"""
    if not matches(rule, c):
        return False
    if rule.get('grade') is not None and not c.ip and c.points < POINTS[rule['grade']]:
        return False
    if rule.get('grade_option') and c.option != rule['grade_option']:
        return False
    return True


# --- assertions -------------------------------------------------------------------------------------

def gpa(courses):
    pts = sum((c.gpa_points for c in courses if c.in_gpa), D(0))
    crd = sum((c.credits for c in courses if c.in_gpa), D(0))
    if crd == 0:
        return D('0.00')
    return (pts / crd).quantize(TWO, rounding=ROUND_DOWN)


def uniq(courses):
    seen, out = set(), []
    for c in courses:
        if c.clbid not in seen:
            seen.add(c.clbid)
            out.append(c)
    return out


def subject_for_count(c):
    if c.subject == 'CH/BI':
        return 'CHEM' if c.number in ('125', '126') else 'BIO'
    return c.subject


def best_group(courses, f):
    """number of distinct terms in the most frequent group; groups tied for frequency: None if they differ"""
    groups = {}
    for c in courses:
        groups.setdefault(f(c), []).append(c)
    if not groups:
        return {0}
    top = max(len(g) for g in groups.values())
    return {len({c.yearterm for c in g}) for g in groups.values() if len(g) == top}


def aggregate(key, courses):
    """the set of admissible values (ties make a few keys ambiguous)"""
    cs = uniq(courses)
    tags = lambda p: len({a for c in cs for a in c.attributes if a.startswith(p)})  # noqa: E731
    if key == 'count(courses)':
        return {D(len(cs))}
    if key == 'count(distinct_courses)':
        return {D(len({c.crsid for c in cs}))}
    if key == 'count(terms)':
        return {D(len({c.yearterm for c in cs}))}
    if key == 'count(years)':
        return {D(len({c.year for c in cs}))}
    if key == 'count(subjects)':
        return {D(len({subject_for_count(c) for c in cs}))}
    if key == 'count(terms_from_most_common_course)':
        return {D(x) for x in best_group(cs, lambda c: c.crsid)}
    if key == 'count(terms_from_most_common_course_by_name)':
        return {D(x) for x in best_group(cs, lambda c: f'{c.subject}: {c.name}')}
    if key == 'count(math_perspectives)':
        return {D(tags('math_perspective_'))}
    if key == 'count(religion_traditions)':
        return {D(tags('rel_tradition_'))}
    if key == 'count(intlr_regions)':
        return {D(tags('intlr_region_'))}
    if key == 'sum(credits)':
        return {sum((c.credits for c in cs), D(0))}
    if key == 'sum(credits_from_single_subject)':
        by = {}
        for c in cs:
            by[c.subject] = by.get(c.subject, D(0)) + c.credits
        return {max(by.values()) if by else D(0)}
    if key == 'average(grades)':
        return {gpa(cs)}
    if key == 'average(credits)':
        z = [c.credits for c in cs if c.credits != 0]
        return {sum(z, D(0)) / D(len(z)) if z else D('0.00')}
    raise KeyError(key)


def holds(op, value, expected):
    return {'$lt': value < expected, '$lte': value <= expected, '$gt': value > expected, '$gte': value >= expected,
            '$eq': value == expected, '$neq': value != expected}[op]


TAGS = {'count(math_perspectives)': 'math_perspective_', 'count(religion_traditions)': 'rel_tradition_', 'count(intlr_regions)': 'intlr_region_'}


def contributing_ip(key, courses):
    """the in-progress courses among those which the aggregate is made of"""
    cs = uniq(courses)
    if key.startswith('sum') or key == 'average(credits)':
        cs = [c for c in cs if c.credits != 0]
    if key == 'average(grades)':
        cs = [c for c in cs if c.in_gpa]
    if key in TAGS:
        cs = [c for c in cs if any(a.startswith(TAGS[key]) for a in c.attributes)]
    return [c for c in cs if c.ip]


def assertion_statuses(key, op, expected, courses, as_pass=False):
    """the admissible statuses of one assertion over these courses"""
    out = set()
    for v in aggregate(key, courses):
        if holds(op, v, expected):
            ips = contributing_ip(key, courses)
            done_without = any(holds(op, w, expected) for w in aggregate(key, [c for c in courses if not c.ip]))
            always_without = all(holds(op, w, expected) for w in aggregate(key, [c for c in courses if not c.ip]))
            if as_pass or not ips or done_without:
                out.add(DONE)
            if ips and not as_pass and not always_without:
                if any(c.future for c in ips):
                    out.add(REGISTERED)
                # which of several equivalent courses represents its group is free for the counting keys
                if any(c.this_term or c.incomplete for c in ips):
                    if not any(c.future for c in ips) or not exact_group(key):
                        out.add(CURRENT)
        elif op in ('$gt', '$gte', '$eq') and (0 < v < expected or (op == '$gt' and v == expected and v > 0)):
            out.add(MORE)
        elif op in ('$lt', '$lte'):
            out.add(FAILED)
        else:
            out.add(EMPTY)
    return out


def exact_group(key):
    """keys for which every course contributes itself, so that the pending kind is determined by the whole set"""
    return key in ('count(courses)', 'sum(credits)', 'average(grades)', 'average(credits)', 'count(math_perspectives)',
                   'count(religion_traditions)', 'count(intlr_regions)')


# --- statuses -----------------------------------------------------------------------------------------

def course_status(c, optional=False):
    """status of a course rule which holds course c (or none)"""
    if c is None:
        return WAIVED if optional else EMPTY
    if not c.ip:
        return DONE
    if c.future:
        return REGISTERED
    if c.this_term or c.incomplete:
        return CURRENT
    return WAIVED if optional else EMPTY


def query_status(statuses):
    s = set(statuses)
    if FAILED in s:
        return FAILED
    if s <= {WAIVED}:
        return WAIVED
    if s <= {WAIVED, DONE}:
        return DONE
    if s <= {WAIVED, DONE, CURRENT}:
        return CURRENT
    if s <= {WAIVED, DONE, CURRENT, REGISTERED}:
        return REGISTERED
    if s & {WAIVED, DONE, CURRENT, REGISTERED, MORE}:
        return MORE
    return EMPTY


def count_status(n, children, audits=()):
    audits = set(audits)
    if FAILED in children or FAILED in audits:
        return FAILED
    if set(children) <= {EMPTY, APPROVAL}:
        return EMPTY
    passing = [s for s in children if s in PASSING]
    if len(passing) < n:
        return MORE
    p = set(passing)
    if p == {WAIVED} and audits <= {WAIVED}:
        return WAIVED
    for ok, st in (({WAIVED, DONE}, DONE), ({WAIVED, DONE, CURRENT}, CURRENT), ({WAIVED, DONE, CURRENT, REGISTERED}, REGISTERED)):
        if p <= ok and audits <= ok:
            return st
    return MORE


def audit_status(clauses):
    """the one status shown for all of the audit clauses of a group"""
    s = set(clauses)
    if len(s) == 1:
        return clauses[0]
    if FAILED in s:
        return FAILED
    for ok, st in (({WAIVED, DONE}, DONE), ({WAIVED, DONE, CURRENT}, CURRENT), ({WAIVED, DONE, CURRENT, REGISTERED}, REGISTERED)):
        if s <= ok:
            return st
    return MORE


def requirement_status(child, waived, audited, contract):
    if waived:
        return DONE if audited or contract else WAIVED
    if audited:
        return APPROVAL
    return child


# --- environment: what conditions and constants mean --------------------------------------------------

class Env:
    def __init__(self, student, area_code='000', credit_table=None):
        self.student = student
        self.code = area_code
        self.all = transcript(student, area_code, credit_table)
        self.all_failed = transcript(student, area_code, credit_table, failed=True)
        self.exceptions = [e for e in student.get('exceptions', []) if e['area_code'] == area_code]
        self.by_clbid = {c.clbid: c for c in self.all}
        self.by_clbid_failed = {c.clbid: c for c in self.all_failed}
        self.areas = [a for a in student.get('areas', []) if a['status'] != 'what-if-drop' or a['code'] == area_code]

    def at(self, kind, path):
        kinds = kind if isinstance(kind, tuple) else (kind,)
        return [e for e in self.exceptions if e['type'] in kinds and list(e['path']) == list(path)]

    def waived(self, path):
        return bool(self.at('override', path))

    def inserts(self, path):
        return self.at(('insert', 'force-insert'), path)

    def blocked(self, path):
        return {e['clbid'] for e in self.at('block', path)}

    def constant(self, v):
        if isinstance(v, (list, tuple)):
            out = []
            for x in v:
                y = self.constant(x)
                out.extend(y) if isinstance(y, (list, tuple)) else out.append(y)
            return out
        if not isinstance(v, str) or not v.startswith('$'):
            return v
        mine = next((a for a in self.areas if a['code'] == self.code), None)
        if v == '$matriculation-year':
            return int(self.student.get('matriculation') or 0)
        if v == '$terms-since-declaring-major':
            return (mine or {}).get('terms_since_declaration') or 0
        if v == '$primary-performing-medium':
            m = self.student.get('mediums', {}).get('ppm', 'Unknown')
            return [x.strip() for x in m.split(', ')] if ',' in m else m
        if v == '$current-area-code':
            return self.code
        if v == '$current-area-code-music-exam':
            return f'Exam: {self.code}'
        raise KeyError(v)

    def condition(self, e):
        if '$and' in e:
            return all(self.condition(x) for x in e['$and'])
        if '$or' in e:
            return any(self.condition(x) for x in e['$or'])
        if '$not' in e:
            return not self.condition(e['$not'])
        (fn, arg), = e.items()
        home = [c for c in self.all if c.stolaf]
        if fn == 'has-declared-area-code':
            return any(a['code'] == arg for a in self.areas)
        if fn == 'has-course':
            return any(c.ident == arg for c in home)
        if fn == 'has-ip-course':
            return any(c.ident == arg and c.ip for c in home)
        if fn == 'has-completed-course':
            return any(c.ident == arg and not c.ip for c in home)
        if fn == 'student-has-course-with-attribute':
            return any(arg in c.attributes for c in home)
        if fn == 'passed-proficiency-exam':
            k = {'Keyboard Level I': 'keyboard_1', 'Keyboard Level II': 'keyboard_2', 'Keyboard Level III': 'keyboard_3',
                 'Keyboard Level IV': 'keyboard_4', 'Guitar': 'guitar'}[arg]
            return self.student.get('proficiencies', {}).get(k, 'N') == 'E'
        if fn == 'has-override-exception':
            return bool(self.at('override', [arg]))
        raise KeyError(fn)


def dynamic_condition(e, items):
    if '$and' in e:
        return all(dynamic_condition(x, items) for x in e['$and'])
    if '$or' in e:
        return any(dynamic_condition(x, items) for x in e['$or'])
    (fn, arg), = e.items()
    n = sum(1 for c in items if c.stolaf and arg in c.attributes)
    return n >= 1 if fn == 'query-has-course-with-attribute' else n == 1


# --- limits --------------------------------------------------------------------------------------------

def parse_limit(l):
    n = l.get('at most', l.get('at-most', l.get('at_most')))
    s = str(n).split()
    return D(s[0]), ('credits' if len(s) > 1 and s[1].startswith('credit') else 'courses')


def limit_used(l, courses, env):
    m = [c for c in uniq(courses) if where(l['where'], c, env)]
    n, what = parse_limit(l)
    return (D(len(m)) if what == 'courses' else sum((c.credits for c in m), D(0))), n


def within_limits(limits, courses, env, forced=()):
    cs = [c for c in courses if c.clbid not in forced]
    for l in limits or []:
        used, cap = limit_used(l, cs, env)
        if used > cap:
            return False
    return True


def powerset(xs):
    xs = list(xs)
    return itertools.chain.from_iterable(itertools.combinations(xs, n) for n in range(len(xs) + 1))
