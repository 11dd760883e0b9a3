"""dp.bin.discover: the courses and buckets which area files refer to, and the tables which tell for which areas they matter."""
import contextlib
import io
import os
import re
import sqlite3
import sys
import tempfile

from mc.core import Property, explore
from mc.gen import q, qs, req, subj
from mc.world import area

AT_LEAST = {'assert': {'count(courses)': {'$gte': 1}}}
COND = {'has-declared-area-code': '999'}


# --- every way to mention a course, with what is mentioned ------------------------------------------------

COURSES = [
    ({'course': 'AAA 101'}, ['AAA 101']), ({'course': 'AAA 101', 'grade': 'B', 'optional': True}, ['AAA 101']), ({'course': 'AAA 101', 'section': 'A'}, ['AAA 101']),
    ({'crsid': '0000000123'}, ['0000000123']), ({'course': 'AAA 101', 'crsid': '0000000123'}, ['0000000123']),
    ({'course': 'AAA 101', 'from_claimed': True}, ['AAA 101']), ({'course': 'AAA 101', 'allow_claimed': True}, ['AAA 101']), ({'course': 'AAA 101', 'year': 2018, 'term': '1'}, ['AAA 101']),
    ({'course': 'AAA 101', 'hidden': True}, []), ({'course': 'AAA 101', 'institution': 'X'}, []), ({'ap': 'Physics'}, []), ({'clbid': '7'}, []), ({'ap': 'Physics', 'course': 'AAA 101'}, []),
    ({'proficiency': 'Guitar', 'course': {'course': 'AAA 101'}}, ['AAA 101']), ({'proficiency': 'Guitar', 'course': {'crsid': '0000000123'}}, ['0000000123']), ({'proficiency': 'Guitar'}, []),
    ({'proficiency': 'Guitar', 'course': {'course': 'AAA 101', 'hidden': True}}, []),
]


def clauses(deep):
    """every way to mention buckets in a filter"""
    simple = [({'attributes': {'$eq': 'b1'}}, ['b1']), ({'attributes': {'$in': ['b1', 'b2']}}, ['b1', 'b2']), ({'attributes': {'$neq': 'b1'}}, ['b1']), ({'attributes': {'$nin': ['b1', 'b2']}}, ['b1', 'b2']),
              ({'subject': {'$eq': 'b1'}}, [])]
    yield from simple
    inner = simple if deep else simple[:2] + simple[4:]
    for i, (c, n) in enumerate(inner):
        other, m = (inner[0] if i else ({'attributes': {'$eq': 'b3'}}, ['b3']))
        yield {'$not': c}, n
        yield {'$and': [c]}, n
        yield {'$and': [subj('AAA'), c]}, n
        yield {'$or': [c, {'level': {'$gte': 200}}, {'attributes': {'$eq': 'b3'}}]}, [*n, 'b3']
        yield {'$or': [{'$and': [subj('AAA'), c]}, other]}, [*n, *m]
        yield {**c, 'level': {'$gte': 200}}, n
        yield {'$if': COND, '$then': c, '$else': {'attributes': {'$eq': 'b3'}}}, [*n, 'b3']
        yield {'$if': {'$not': COND}, '$then': subj('AAA'), '$else': c}, n
        yield {'$if': COND, '$then': c}, n
        yield {'$not': {'$or': [other, {'$not': c}]}}, [*m, *n]


def query_at(place, w):
    """a query, or a group, with the filter at the given place"""
    when = {'query-has-course-with-attribute': 'zz'}
    return {
        'where': lambda: q(1, w),
        'claimed': lambda: {'from': 'claimed', 'where': w, **AT_LEAST},
        'limit': lambda: q(1, subj('AAA'), limit=[{'at_most': 1, 'where': w}]),
        'second limit': lambda: q(1, subj('AAA'), limit=[{'at_most': 1, 'where': subj('AAA')}, {'at_most': '1 credit', 'where': w}]),
        'assertion': lambda: qs([{**AT_LEAST, 'where': w}]),
        'second assertion': lambda: qs([AT_LEAST, {**AT_LEAST, 'where': w}]),
        'if then': lambda: qs([{'$if': COND, '$then': {**AT_LEAST, 'where': w}}]),
        'if else': lambda: qs([{'$if': COND, '$then': AT_LEAST, '$else': {**AT_LEAST, 'where': w}}]),
        'when then': lambda: qs([AT_LEAST, {'$when': when, '$then': {**AT_LEAST, 'where': w}}]),
        'audit': lambda: {'any': [{'course': 'ZZZ 101'}, q(1, subj('AAA'))], 'audit': {**AT_LEAST, 'where': w}},
        'audit of all': lambda: {'any': [{'course': 'ZZZ 101'}, q(1, subj('AAA'))], 'audit': {'all': [AT_LEAST, {**AT_LEAST, 'where': w}]}},
        'audit if': lambda: {'any': [{'course': 'ZZZ 101'}, q(1, subj('AAA'))], 'audit': {'all': [{'$if': COND, '$then': AT_LEAST, '$else': {**AT_LEAST, 'where': w}}]}},
    }[place]()


PLACES = ['where', 'claimed', 'limit', 'second limit', 'assertion', 'second assertion', 'if then', 'if else', 'when then', 'audit', 'audit of all', 'audit if']
EXTRA = {'course': 'EXT 101'}        # another course beside, where a construct needs one


def within(how, rule, n):
    """the rule within one more construct; and the other courses which that mentions"""
    return {
        'all': lambda: ({'all': [rule]}, []),
        'any, last': lambda: ({'any': [EXTRA, rule]}, ['EXT 101']),
        'count, first': lambda: ({'count': 1, 'of': [rule, EXTRA]}, ['EXT 101']),
        'both': lambda: ({'both': [rule, EXTRA]}, ['EXT 101']),
        'inline': lambda: (req(f'I{n}', rule), []),
        'group of requirements': lambda: ({'all': [req(f'A{n}', EXTRA), req(f'B{n}', rule)]}, ['EXT 101']),
        'referred': lambda: ({'name': f'P{n}', 'requirements': {'S': {'result': rule}}, 'result': {'all': [{'requirement': 'S'}]}}, []),
        'then': lambda: ({'$if': COND, '$then': rule}, []),
        'then, with else': lambda: ({'$if': COND, '$then': rule, '$else': EXTRA}, ['EXT 101']),
        'else': lambda: ({'$if': COND, '$then': EXTRA, '$else': rule}, ['EXT 101']),
        'else, of not': lambda: ({'$if': {'$not': COND}, '$then': EXTRA, '$else': rule}, ['EXT 101']),
        'audited': lambda: ({'name': f'D{n}', 'department_audited': True, 'result': rule}, []),
    }[how]()


WITHIN = ['all', 'any, last', 'count, first', 'both', 'inline', 'group of requirements', 'referred', 'then', 'then, with else', 'else', 'else, of not', 'audited']


def at_top(how, rule):
    if how == 'result':
        return area({'all': [rule]}), []
    if how == 'requirement':
        return area({'all': [EXTRA, {'requirement': 'T'}]}, {'T': {'result': rule}}), ['EXT 101']
    if how == 'emphasis':
        return area({'all': [EXTRA]}, emphases={'10': {'name': 'E', 'result': {'all': [rule]}}}), ['EXT 101']
    if how == 'second emphasis':
        return area({'all': [EXTRA]}, emphases={'10': {'name': 'E', 'result': {'all': [{'course': 'EMP 101'}]}},
                                                '20': {'name': 'F', 'requirements': {'X': {'result': rule}}, 'result': {'all': [{'requirement': 'X'}]}}}), ['EXT 101', 'EMP 101']
    raise KeyError(how)


TOPS = ['result', 'requirement', 'emphasis', 'second emphasis']


# --- files and tables -------------------------------------------------------------------------------------

SHAPES = {
    'empty': (area({'all': [{'ap': 'Physics'}]}), [], []),
    'a': (area({'all': [{'course': 'AAA 101'}, {'crsid': '0000000123'}, q(1, {'attributes': {'$in': ['b1', 'b2']}})]}), ['AAA 101', '0000000123'], ['b1', 'b2']),
    'b': (area({'any': [{'course': 'BBB 101'}, {'course': 'AAA 101'}, q(1, {'attributes': {'$eq': 'b2'}})]}), ['AAA 101', 'BBB 101'], ['b2']),
    'c': (area({'all': [{'crsid': '0000000123'}, {'crsid': '0000000456'}]}, limit=[{'at_most': 1, 'where': {'attributes': {'$eq': 'b3'}}}]), ['0000000123', '0000000456'], ['b3']),
}
NAMES = ['2018-19/100.yaml', '2018-19/200.yaml', '2019-20/100.yaml', '2018-19/1-2.yaml', '2018-19/1.old.yaml', '2018-19/300.yml', '2018-19/README']

COURSE_ROWS = [('100', 'AAA 101', None), ('100', 'OLD 101', None), ('100', '', '0000000123'), ('100', '', '0000000999'), ('200', '', '0000000123'), ('200', 'AAA 101', None), ('300', '', '0000000999')]
BUCKET_ROWS = [('100', '2018-19', 'b1'), ('100', '2019-20', 'b1'), ('100', '2018-19', 'old'), ('200', '2018-19', 'b2'), ('100', '2017-18', 'b2')]


class Cursor:
    def __init__(self, conn):
        self.c = conn.db.cursor()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def execute(self, sql, params=()):
        sql = re.sub(r'%\((\w+)\)s', r':\1', sql)
        if not isinstance(params, dict):
            sql = sql.replace('%s', '?')
        self.c.execute(sql, params or ())

    def executemany(self, sql, many):
        for p in many:
            self.execute(sql, p)

    def fetchall(self):
        return self.c.fetchall()

    def fetchone(self):
        return self.c.fetchone()

    def __iter__(self):
        return iter(self.c.fetchall())

    @property
    def rowcount(self):
        return self.c.rowcount

    def close(self):
        self.c.close()


class Connection:
    """the database which discover writes to: what is not committed is lost"""
    def __init__(self, path):
        self.db = sqlite3.connect(path)

    def cursor(self, *_a, **_k):
        return Cursor(self)

    def commit(self):
        self.db.commit()

    def rollback(self):
        self.db.rollback()

    def close(self):
        self.db.close()

    def __enter__(self):
        return self

    def __exit__(self, kind, *_):
        (self.rollback if kind else self.commit)()


def make_db(path, courses, buckets):
    db = sqlite3.connect(path)
    db.executescript('''create table map_constant_area(area_code text not null, course text, crsid text);
        create unique index u1 on map_constant_area(area_code, coalesce(course, ''), coalesce(crsid, ''));
        create table map_attribute_area(attr text not null, area_code text not null, catalog_year text not null, unique(attr, area_code, catalog_year));''')
    db.executemany('insert into map_constant_area(area_code, course, crsid) values (?, ?, ?)', courses)
    db.executemany('insert into map_attribute_area(area_code, catalog_year, attr) values (?, ?, ?)', buckets)
    db.commit()
    db.close()


class P(Property):
    ID = 'C29'
    RULE = ('a case fails when the references which dp.bin.discover prints are not exactly the courses and buckets which the area files mention, or when after --insert '
            'the tables hold other references than those')
    ASSUMPTIONS = ['no two rows of a table say the same; in a reference to a course no text and an empty text are the same', 'conditions ($if, $when) are not references',
                   'what a hidden branch ($hide-when-false) mentions is left open', 'the database is a stand-in on sqlite']

    def cases(self, tier):
        yield from explore(lambda ch: self.mention(ch, tier), None)
        yield from explore(lambda ch: self.tables(ch, tier), 3 if tier == 'quick' else 4)

    def mention(self, ch, tier):
        deep = tier != 'quick'
        names = set()
        buckets = set()
        area_limit = False
        kind = ch('kind', ['course', 'bucket'])
        if kind == 'course':
            rule, mentioned = ch('leaf', COURSES)
            simple = len(rule) == 1 or 'proficiency' in rule
            names.update(mentioned)
        else:
            w, mentioned = ch('clause', list(clauses(deep)))
            buckets.update(mentioned)
            simple = 'attributes' in w
            place = ch('place', PLACES + ['area limit'])
            area_limit = place == 'area limit'
            rule = EXTRA if area_limit else query_at(place, w)
            if area_limit:
                names.add('EXT 101')
            elif place.startswith('audit'):
                names.add('ZZZ 101')
        # quick: only the plainest ways to mention something in every context
        depth = (3 if kind == 'course' else 2) if deep else (2 if kind == 'course' else 1)
        if not area_limit:
            for n in range(depth if deep or simple else 1 if kind == 'course' else 0):
                how = ch(f'within{n}', [None, *WITHIN])
                if how is None:
                    break
                rule, more = within(how, rule, n)
                names.update(more)
        spec, more = at_top(ch('top', TOPS), rule)
        names.update(more)
        if area_limit:
            spec['limit'] = [{'at_most': 1, 'where': w}]
        return {'what': 'mention', 'files': [['2018-19/100.yaml', spec]], 'courses': sorted(['100', c] for c in names), 'buckets': sorted(['100', '2018-19', b] for b in buckets), 'insert': False}

    def tables(self, ch, tier):
        files, courses, buckets = [], set(), set()
        insert = ch('insert', [True, False])
        for i in range(ch('files', [1, 2, 3], free=True)):
            f = ch(f'name{i}', [n for n in NAMES if n not in [x[0] for x in files]])
            spec, c, b = SHAPES[ch(f'shape{i}', list(SHAPES)[1:] + ['empty'])]
            files.append([f, spec])
            d, base = f.split('/')
            if base in ('100.yaml', '200.yaml'):
                courses.update((base[:3], x) for x in c)
                buckets.update((base[:3], d, x) for x in b)
        case = {'what': 'tables', 'files': files, 'courses': sorted(map(list, courses)), 'buckets': sorted(map(list, buckets)), 'insert': insert}
        if insert:
            case['rows'] = [[r for r in COURSE_ROWS if ch(f'row {r}', [False, True])], [r for r in BUCKET_ROWS if ch(f'row {r}', [False, True])]]
            case['again'] = ch('again', [False, True])
        return case

    def discover(self, root, case):
        from dp.bin import discover
        argv, out = sys.argv, io.StringIO()
        real = discover.psycopg2.connect
        conns = []

        def connect(*_a, **_k):
            conns.append(Connection(os.path.join(root, 'db')))
            return conns[-1]
        try:
            discover.psycopg2.connect = connect
            sys.argv = ['discover', *[os.path.join(root, f) for f, _ in case['files']], *(['--insert'] if case['insert'] else [])]
            with contextlib.redirect_stdout(out):
                discover.main()
        finally:
            discover.psycopg2.connect = real
            sys.argv = argv
            for c in conns:
                c.close()
        return out.getvalue()

    def run_case(self, case):
        import yaml
        v = []
        with tempfile.TemporaryDirectory() as root:
            for f, spec in case['files']:
                os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
                with open(os.path.join(root, f), 'w') as h:
                    yaml.safe_dump(spec, h)
            if case['insert']:
                make_db(os.path.join(root, 'db'), *case['rows'])
            out = self.discover(root, case)
            if case.get('again'):
                out = self.discover(root, case)
            if case['insert']:
                db = sqlite3.connect(os.path.join(root, 'db'))
                cs = sorted([a, c or i or ''] for a, c, i in db.execute('select area_code, course, crsid from map_constant_area'))
                bs = sorted(map(list, db.execute('select area_code, catalog_year, attr from map_attribute_area')))
                odd = [r for r in db.execute("select area_code, coalesce(course, ''), coalesce(crsid, '') from map_constant_area")
                       if bool(r[1]) == bool(r[2]) or r[1].isdigit() or (r[2] and not r[2].isdigit())]
                db.close()
                if odd:
                    v.append(f'a reference is not to either a course or a crsid: {odd}')
            else:
                lines = out.splitlines()
                cs = [l[len('course: '):].split(':', 1) for l in lines if l.startswith('course: ')]
                bs = [l.split(':', 2) for l in lines if not l.startswith('course: ')]
                if len(set(lines)) != len(lines):
                    v.append(f'a reference is listed twice: {lines}')
                cs, bs = sorted(cs), sorted(bs)
        if cs != case['courses']:
            v.append(f"courses referred to: {cs}, but mentioned are {case['courses']}")
        if bs != case['buckets']:
            v.append(f"buckets referred to: {bs}, but mentioned are {case['buckets']}")
        return v, [cs, bs], 1 + bool(case.get('again'))

    def bounds(self, tier):
        deep = tier != 'quick'
        return (f"every one of {len(COURSES)} ways to mention a course within every nesting of up to {3 if deep else 2} of {len(WITHIN)} constructs; every one of {len(list(clauses(deep)))} filters at every one of "
                f"{len(PLACES) + 1} places within up to {2 if deep else 1} constructs; each at {len(TOPS)} places of the file{"" if deep else " (the less plain ways within fewer constructs)"}; 1-3 files of {len(NAMES)} names and {len(SHAPES)} contents, "
                f"with up to {4 if deep else 3} deviations (other files, rows in the tables before, a second run)")


PROP = P()
