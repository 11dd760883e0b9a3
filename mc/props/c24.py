"""What the command line prints: every audit can be printed in every form, and the forms tell the same story."""
import contextlib
import copy
import io
import json
import os
import re
import shutil
import sys
import tempfile

from mc.core import Property, explore
from mc.exworlds import SPECS, places
from mc.gen import q, qs, req, rows, subj
from mc.world import area, course, exc, ip, run_audit, student

A, B, Z = {'course': 'AAA 101'}, {'course': 'BBB 101'}, {'course': 'ZZZ 101'}
HAS, HASNT = {'has-course': 'AAA 101'}, {'has-course': 'ZZZ 101'}
WHERES = {
    'eq': subj('AAA'), 'neq': {'subject': {'$neq': 'AAA'}}, 'in': {'subject': {'$in': ['AAA', 'BBB']}}, 'nin': {'subject': {'$nin': ['ZZZ']}}, 'lt': {'level': {'$lt': 300}},
    'and': {'$and': [subj('AAA'), {'level': {'$gte': 100}}]}, 'or': {'$or': [subj('AAA'), subj('BBB')]}, 'both': {'$and': [{'$or': [subj('AAA'), subj('BBB')]}, {'level': {'$gte': 100}}]},
    'not': {'$not': subj('ZZZ')}, 'notin': {'$and': [{'$not': subj('ZZZ')}, subj('AAA')]},
    'if': {'$if': HAS, '$then': subj('AAA'), '$else': subj('BBB')}, 'ifnot': {'$if': HASNT, '$then': subj('ZZZ')}, 'ifor': {'$if': {'$or': [HAS, HASNT]}, '$then': subj('AAA'), '$else': subj('BBB')},
    'bool': {'is_stolaf': {'$eq': True}}, 'unbool': {'is_in_progress': {'$eq': False}}, 'attr': {'attributes': {'$eq': 'att_x'}}, 'grade': {'grade': {'$gte': 'C'}}, 'const': {'matriculation': {'$eq': '$matriculation-year'}},
}
EXPRS = {'has': HAS, 'hasnt': HASNT, 'and': {'$and': [HAS, HASNT]}, 'or': {'$or': [HAS, HASNT]}, 'not': {'$not': HAS}, 'notor': {'$not': {'$or': [HAS, HASNT]}}, 'deep': {'$and': [{'$or': [HAS, HASNT]}, HAS]}}
ASSERTS = {
    'count': {'count(courses)': {'$gte': 1}}, 'most': {'count(courses)': {'$lte': 1}}, 'exactly': {'count(courses)': {'$eq': 2}}, 'credits': {'sum(credits)': {'$gte': '1.5'}}, 'gpa': {'average(grades)': {'$gte': '2.0'}},
    'subjects': {'count(subjects)': {'$gte': 2}}, 'terms': {'count(terms)': {'$gte': 1}}, 'avg': {'average(credits)': {'$gte': '1'}},
}
PIECES = {f'where-{k}': (lambda w=w: q(1, w)) for k, w in WHERES.items() if k != 'const'}
PIECES.update({f'limit-{k}': (lambda w=w: q(2, limit=[{'where': w, 'at_most': 1}])) for k, w in WHERES.items() if k in ('eq', 'not', 'and', 'if')})
PIECES.update({f'assert-{k}': (lambda a=a: qs([a, {'where': subj('AAA'), 'assert': {'count(courses)': {'$gte': 1}}}])) for k, a in ASSERTS.items()})
PIECES.update({f'if-{k}': (lambda e=e: {'$if': e, '$then': A, '$else': q(1, subj('BBB'))}) for k, e in EXPRS.items()})
PIECES.update({f'assert-if-{k}': (lambda e=e: qs([{'$if': e, '$then': {'assert': {'count(courses)': {'$gte': 2}}}, '$else': {'assert': {'count(courses)': {'$gte': 1}}}}])) for k, e in EXPRS.items()})
PIECES.update({
    'if-only': lambda: {'$if': HASNT, '$then': A}, 'assert-if-only': lambda: qs([{'$if': HASNT, '$then': {'assert': {'count(courses)': {'$gte': 2}}}}, ASSERTS['count']]),
    'when': lambda: qs([{'$when': {'query-has-course-with-attribute': 'att_x'}, '$then': {'assert': {'count(subjects)': {'$gte': 2}}}, '$else': {'assert': {'count(courses)': {'$gte': 1}}}}]),
    'prof': lambda: {'proficiency': 'Guitar'}, 'prof-course': lambda: {'proficiency': 'Guitar', 'course': A}, 'prof-none': lambda: {'proficiency': 'Keyboard Level I'},
    'areas': lambda: {'from': 'areas', 'where': {'type': {'$eq': 'concentration'}}, 'assert': {'count(areas)': {'$gte': 1}}},
    'music': lambda: {'from': 'music performances', 'where': {'name': {'$eq': 'Junior Recital'}}, 'assert': {'count(performances)': {'$gte': 1}}},
    'recitals': lambda: {'from': 'music recitals', 'assert': {'count(recitals)': {'$gte': 1}}},
    'claimed': lambda: {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 1}}}, 'record': lambda: q(1, claim='record'), 'look': lambda: q(1, claim=False, allow_claimed=True), 'failed': lambda: q(1, include_failed=True),
    'label': lambda: q(1, {'subject': {'$eq': 'AAA', '$label': 'the As'}}), 'course-grade': lambda: {'course': 'AAA 101', 'grade': 'A'}, 'course-ap': lambda: {'ap': 'AP Art', 'name': 'AP Art'}, 'course-inst': lambda: {'course': 'AAA 101', 'institution': 'CARL'},
    'optional': lambda: {'course': 'AAA 101', 'optional': True}, 'dept': lambda: {'name': 'D', 'department_audited': True, 'message': 'm'}, 'dept-result': lambda: {'name': 'D', 'department_audited': True, 'result': q(1)},
    'contract': lambda: req('K', A, contract=True), 'accents': lambda: req('Español → "A" %s {x}', A), 'message': lambda: req('M', A, message='do\nthis'), 'two': lambda: {'both': [A, B]}, 'either': lambda: {'either': [A, Z]},
    'most': lambda: {'count': 1, 'at_most': True, 'of': [A, B]}, 'count': lambda: {'count': 2, 'of': [A, B, Z]}, 'audit': lambda: {'any': [A, B], 'audit': {'all': [{'assert': ASSERTS['count']}, {'where': subj('BBB'), 'assert': ASSERTS['credits']}]}},
    'nested': lambda: req('P', {'all': [A, req('Q', {'any': [req('R', q(1, subj('BBB'))), B]})]}),
})
PLAYED = dict(performances=[{'id': '1', 'name': 'Junior Recital', 'year': '2019', 'term': '1'}], performance_attendances=[{'id': '2', 'name': 'Some recital', 'year': '2019', 'term': '1'}])
SETS = {'abcd': 'abcd', 'acf': 'acf', 'pfi': 'pfi', '': ''}
MODES = {
    'text': [], 'no paths': ['--no-paths'], 'no ranks': ['--no-ranks'], 'bare': ['--no-paths', '--no-ranks'], 'json': ['--json'], 'json with transcript': ['--json-with-transcript'], 'claimed': ['--claimed'],
    'gpa': ['--gpa'], 'transcript': ['--transcript'], 'estimate': ['--estimate'], 'all': ['--print-all', '--json'], 'quiet': ['--quiet', '--print-all'],
}


def cmp(key, op, value, **kw):
    return {key: {op: value, **kw}}


CONDITIONS = [HAS, HASNT, {'has-ip-course': 'AAA 101'}, {'has-completed-course': 'AAA 101'}, {'passed-proficiency-exam': 'Guitar'}, {'has-declared-area-code': '100'}, {'has-declared-area-code': '200'},
              {'student-has-course-with-attribute': 'att_x'}, {'$not': HAS}, {'$not': {'$not': HAS}}, {'$and': [HAS, HASNT]}, {'$or': [HAS, HASNT]}, {'$and': [HASNT, HAS]}, {'$not': {'$or': [HAS, HASNT]}}, {'$or': [{'$not': HAS}, HASNT]},
              {'$and': [HAS, {'$or': [HASNT, {'has-ip-course': 'AAA 101'}]}]}, {'$or': [{'$and': [HAS, HASNT]}, {'has-ip-course': 'AAA 101'}]}]
FILTERS = [cmp('subject', op, 'AAA') for op in ('$eq', '$neq')] + [cmp('level', op, v) for op in ('$eq', '$neq', '$lt', '$lte', '$gt', '$gte') for v in (100, 200)] + [cmp('subject', op, v) for op in ('$in', '$nin') for v in (['AAA', 'BBB'], ['AAA', 'CCC'])] + [
    subj('BBB'), cmp('attributes', '$eq', 'AAA'), cmp('gereqs', '$eq', 'AAA'), cmp('is_stolaf', '$eq', True), cmp('is_stolaf', '$eq', False), cmp('is_in_progress', '$eq', True), cmp('is_stolaf', '$neq', True), cmp('credits', '$eq', '1.00'),
    cmp('credits', '$gte', '1.00'), cmp('grade', '$gte', 'B'), cmp('grade', '$gte', 'B-'), {'$and': [subj('AAA'), subj('BBB')]}, {'$or': [subj('AAA'), subj('BBB')]}, {'$not': subj('AAA')}, {'$not': subj('BBB')},
    {'$and': [{'$or': [subj('AAA'), subj('BBB')]}, subj('CCC')]}, {'$or': [{'$and': [subj('AAA'), subj('BBB')]}, subj('CCC')]}, {'$and': [subj('AAA'), {'$not': subj('BBB')}]}, {'$or': [subj('AAA'), {'$not': subj('BBB')}]},
    {'$if': HAS, '$then': subj('AAA'), '$else': subj('BBB')}, {'$if': HAS, '$then': subj('BBB'), '$else': subj('AAA')}, {'$if': {'$not': HAS}, '$then': subj('AAA'), '$else': subj('BBB')}, {'$if': HAS, '$then': subj('AAA')}]
BOUNDS = [{agg: {op: v}} for agg in ('count(courses)', 'sum(credits)', 'count(terms)', 'count(subjects)', 'count(terms_from_most_common_course)', 'count(distinct_courses)') for op, v in (('$gte', 1), ('$gte', 2), ('$lte', 2), ('$eq', 2), ('$gt', 1), ('$lt', 2))]
REFERENCES = [A, B, {'course': 'AAA 201'}, {'course': 'AAA 101', 'grade': 'A'}, {'course': 'AAA 101', 'grade': 'A-'}, {'course': 'AAA 101', 'institution': 'CARL'}, {'course': 'AAA 101', 'year': 2019, 'term': '1'},
              {'course': 'AAA 101', 'year': 2019, 'term': '3'}, {'ap': 'AP Art'}, {'ap': 'AP Music'}, {'crsid': '123'}, {'crsid': '124'}, {'course': 'AAA 101', 'section': 'A'}]
ROWS = [{}, {'sub_type': 'lab'}, {'sub_type': 'flac'}, {'sub_type': 'discussion'}, {'section': 'A'}, {'section': 'B'}, {'year': '2017'}, {'term': '3'}, {'name': 'Other'}, {'number': '102'}, {'subject': 'AAB'}, {'credits': '0.50'}, {'grade_code': 'C'}, {'institution_short': 'CARL'}]
MAJOR = {'code': '100', 'kind': 'major', 'name': 'M', 'status': 'declared', 'degree': 'B.A.', 'dept': None, 'gpa': '3.00'}
DECLARED = {'has-declared-area-code': '100'}
APART = {
    'filter': (FILTERS, lambda w: (area({'all': [q(1, w)]}), 'abcd')),
    'limit': ([(w, n) for w in (subj('AAA'), subj('BBB'), {'$not': subj('AAA')}) for n in (1, 2, '1 credit', '2 credits')], lambda x: (area({'all': [q(2, limit=[{'where': x[0], 'at_most': x[1]}])]}), 'abcd')),
    'condition': (CONDITIONS, lambda e: (area({'all': [{'$if': e, '$then': A, '$else': A}]}), 'acf')),
    'condition of an assertion': (CONDITIONS, lambda e: (area({'all': [qs([{'$if': e, '$then': {'assert': {'count(courses)': {'$gte': 1}}}, '$else': {'assert': {'count(courses)': {'$gte': 1}}}}])]}), 'acf')),
    'bound': (BOUNDS, lambda a: (area({'all': [qs([a])]}), 'abcd')),
    'filter of an assertion': (FILTERS[::2], lambda w: (area({'all': [qs([{'assert': {'count(courses)': {'$gte': 1}}, 'where': w}])]}), 'abcd')),
    'bound of a group': (BOUNDS[::3], lambda a: (area({'all': [{'any': [A, B], 'audit': {'assert': a}}]}), '')),
    'course': (REFERENCES, lambda c: (area({'all': [c]}), '')),
    'count': ([('any', [A, B]), ('all', [A, B]), ('both', [A, Z]), ('either', [A, B, Z][:2][::-1])], lambda x: (area({'all': [{x[0]: x[1]}]}), 'abcd')),
    # the same rule, with the other branch taken
    **{f'branch of a {k}': ([True, False], lambda yes, r=r: (area({'all': [r]}), 'acf', {'areas': [MAJOR] if yes else []})) for k, r in (
        ('rule', {'$if': DECLARED, '$then': B, '$else': B}), ('rule without else', {'$if': DECLARED, '$then': Z}),
        ('assertion', qs([{'$if': DECLARED, '$then': {'assert': {'count(courses)': {'$gte': 1}}}, '$else': {'assert': {'count(courses)': {'$gte': 1}}}}])),
        ('assertion without else', qs([{'assert': {'count(courses)': {'$gte': 1}}}, {'$if': DECLARED, '$then': {'assert': {'count(courses)': {'$gte': 1}}}}])),
        ('filter', q(1, {'$if': DECLARED, '$then': subj('AAA'), '$else': subj('AAA')})))},
    'row': (ROWS, lambda r: (area({'all': [q(1)]}), [r])),
    'row, --claimed': ([r for r in ROWS if not {'credits', 'grade_code'} & set(r)], lambda r: (area({'all': [q(1)]}), [r])),
}


def taken(name):
    if isinstance(name, list):
        return [{**course('AAA 101', str(i + 1)), **r} for i, r in enumerate(name)]
    out = rows(SETS.get(name, ''))
    if name == 'odd':
        out = [course('AAA 101', '1', sub_type='lab'), course('AAA 101', '2', grade='F'), course('BBB 101', '3', name='Line\nbreak, "quoted"', institution_short='CARL'), course('AAA 101', '4', section='A'), course('AAA 101', '5', section=None),
               course('BBB 201', '6', course_type='AP'), course('BBB 101', '7', attributes=['att_x', 'att_y'], flag_repeat=True)]
    return out


def world(ch, tier):
    kind = ch('kind', ['report', 'exceptions', 'path', 'ms', 'duration', 'dotenv', 'apart', 'gpa'])
    if kind == 'ms':
        return dict(kind=kind, ms=ch('ms', [0, 1, 2, 999, 1000, 1001, 1499, 59_999, 60_000, 61_001, 3_599_999, 3_600_000, 86_399_999, 86_400_000, 90_061_001, 31_536_000_000, 31_622_400_001, '0.0005', '0.5', '1.25', '999.999', '1000.000001', '60000.1']),
                    form=ch('form', [{}, {'format_sub_ms': True}, {'verbose': True}, {'separate_ms': True}, {'verbose': True, 'format_sub_ms': True}, {'compact': True}, {'unit_count': 1}, {'unit_count': 2}]))
    if kind == 'duration':
        parts = [(ch(f'n{u}', [0, 1, 59]), u) for u in ('d', 'h', 'm', 's', 'ms')]
        return dict(kind=kind, parts=[p for p in parts if p[0]], sep=ch('sep', [' ', '']))
    if kind == 'dotenv':
        return dict(kind=kind, lines=[ch(f'line{i}', [['KEY1=value', 'KEY1', 'value'], ['', None, None], ['# KEY1=no', None, None], ['KEY2 = spaced out ', 'KEY2', 'spaced out'], ['KEY3=a=b', 'KEY3', 'a=b'], ['KEY4=', 'KEY4', ''], ['KEY1=host=x user=y', 'KEY1', 'host=x user=y'],
                                                         ['  KEY5=#1 ', 'KEY5', '#1']]) for i in range(ch('n', [1, 2]))])
    if kind == 'apart':
        family = ch('family', list(APART))
        things, make = APART[family]
        i = ch('one', range(len(things) - 1))
        j = ch('other', range(i + 1, len(things)))
        a, b = make(things[i]), make(things[j])
        return dict(kind=kind, family=family, pair=[dict(spec=x[0], student=student(taken(x[1]), **PLAYED, **(x[2] if x[2:] else {}))) for x in (a, b)], things=[things[i], things[j]])
    if kind == 'gpa':
        from mc.props.c15 import VARIANTS
        cs = []
        for i, name in enumerate('ABC'[:ch('n', [3, 2, 1, 0])]):
            k = ch(f'v{i}', [v for v in VARIANTS if v not in (() if tier != 'quick' else ('A-quarter', 'zero', 'W', 'transfer'))])
            t = ch(f't{i}', [('2018', '1'), ('2018', '3'), ('2017', '4')][:3 if i else 1])
            c = ip(f'{name * 3} 101', str(i + 1)) if k == 'ip' else course(f'{name * 3} 101', str(i + 1), year=t[0], term=t[1], **copy.deepcopy(VARIANTS[k]))
            cs.append(c)
        return dict(kind='report', student=student(cs), spec=area({'all': [A]}), mode='gpa')
    if kind == 'report':
        name = ch('piece', list(PIECES))
        items = [PIECES[name](), q(2, subj('BBB'))] if ch('beside', [False, True]) else [PIECES[name]()]
        kw = {'limit': [{'where': WHERES[ch('limit', ['eq', 'not'])], 'at_most': '1 credit'}]} if ch('limited', [False, True]) else {}
        stu = student(taken(ch('taken', ['abcd', 'pfi', 'odd', '', 'acf'])), proficiencies={'guitar': ch('guitar', ['N', 'Y'])} if 'prof' in name else {}, **PLAYED)
        return dict(kind=kind, student=stu, spec=area({'all': items}, **kw), mode=ch('mode', list(MODES)))
    base = ch('spec', list(SPECS))
    spec = area(copy.deepcopy(SPECS[base]))
    stu = student(rows(ch('taken', ['abcd', 'acf', 'pfi'])))
    if kind == 'exceptions':
        k, path = ch('place', places(stu, spec))
        t = ch('type', ['override'] + (['insert', 'block', 'force-insert'] if k in ('course', 'query') else []) + (['value'] if k == 'assert' else []))
        stu['exceptions'] = [exc(t, path, clbid=stu['courses'][0]['clbid']) if t in ('insert', 'block', 'force-insert') else exc(t, path, value='1') if t == 'value' else exc(t, path)]
        return dict(kind=kind, student=stu, spec=spec, mode=ch('mode', ['text', 'json', 'claimed', 'bare', 'json with transcript']))
    spots = [p for k, p in places(stu, spec) if k == 'requirement']
    if not spots:
        return None
    return dict(kind=kind, student=stu, spec=spec, path=ch('path', spots))


def shown(n):
    """the nodes of a result in the order in which a report goes through them"""
    yield n
    t = n['type']
    if t == 'area':
        yield from shown(n['result'])
    elif t == 'count':
        for x in n['audit'] + n['items']:
            yield from shown(x)
    elif t == 'query':
        for x in n['assertions']:
            yield from shown(x)
    elif t == 'requirement':
        if n['result'] and not n['is_audited']:
            yield from shown(n['result'])
    elif t in ('conditional', 'assertion--if', 'assertion--when'):
        for x in (n['when_true'], n.get('when_false')):
            if x:
                yield from shown(x)
    elif t == 'proficiency':
        if n.get('course') and n['course']['status'] in ('done', 'waived'):
            yield from shown(n['course'])


def holders(n):
    """every node which holds claims (what a department decides itself holds none)"""
    if isinstance(n, dict):
        if n.get('is_audited'):
            return
        if 'claims' in n and 'path' in n:
            yield n
        for v in n.values():
            yield from holders(v)
    elif isinstance(n, list):
        for v in n:
            yield from holders(v)


def steady(x):
    """without what two runs may differ in"""
    return json.dumps(x, sort_keys=True)


class P(Property):
    ID = 'C24'
    RULE = ('a case fails when the command line crashes or reports failure, when its JSON is not the result of the audit, or when the text leaves out a part of the result, shows another status, course or claim, '
            'prints paths it was asked to leave out, or (for one path) leaves out the requirement asked for; or shows two filters, conditions, bounds, references or rows which differ the same way; and when dp.bin.print shows something else, a duration or a .env file is read or shown wrongly')
    BUDGET = {'quick': 600, 'thorough': 3000}
    ASSUMPTIONS = ['timings and the number of tries are not compared', 'the status of a course is told by its picture, which is checked only to be the same for equal statuses of the same kind of rule']

    def cases(self, tier):
        yield from ((c, n) for c, n in explore(lambda ch: world(ch, tier)) if c)

    def bounds(self, tier):
        return f'{len(PIECES)} kinds of rules, alone and beside another, {len(MODES)} forms of output, one exception at any place of {len(SPECS)} areas; every pair of {sum(len(t) for t, _ in APART.values())} filters, conditions, bounds, references, rows of {len(APART)} kinds; --gpa of 0-3 rows in 13 variants; durations up to years; .env files of 2 lines'

    def run_case(self, case):
        return getattr(self, 'run_' + case['kind'])(case)

    dir = None

    def cli(self, case, *flags):
        from dp.__main__ import main
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='c24-')
        s, a = os.path.join(self.dir, 'student.json'), os.path.join(self.dir, 'area.yaml')
        with open(s, 'w', encoding='utf-8') as f:
            json.dump(case['student'], f)
        with open(a, 'w', encoding='utf-8') as f:
            json.dump(case['spec'], f)  # (JSON is YAML)
        out, err = io.StringIO(), io.StringIO()
        before = dict(os.environ)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                rc = main(['--student', s, '--area', a, '--loglevel', 'critical', *flags])
        finally:
            os.environ.clear()
            os.environ.update(before)
        return rc, out.getvalue(), err.getvalue()

    def run_report(self, case):
        rc, out, err = self.cli(case, *MODES[case['mode']])
        bad = [] if rc == 0 else [f'{case["mode"]}: the exit code is {rc}']
        getattr(self, 'say_' + case['mode'].replace(' ', '_'))(case, out, err, bad)
        return bad, [case['mode'], len(out) // 200], 1

    run_exceptions = run_report

    def run_apart(self, case):
        texts = []
        for x in case['pair']:
            rc, out, err = self.cli(x, *(['--claimed'] if case['family'].endswith('--claimed') else ['--no-ranks'] + ([] if case['family'] == 'course' else ['--no-paths'])))
            texts.append('\n'.join(l for l in out.split('\n') if ' checked' not in l))
        bad = [f"{case['family']} {case['things'][0]} and {case['things'][1]} are shown the same: {texts[0][:300]}"] if texts[0] == texts[1] else []
        return bad, [case['family'], len(texts[0]) // 50], 2

    def tree(self, case, **kw):
        o = run_audit(case['student'], case['spec'], **kw)
        return [json.loads(json.dumps(m.result.to_dict())) for m in o.messages if hasattr(m, 'result')]

    # ---- the forms

    def say_json(self, case, out, err, bad):
        if [steady(json.loads(x)) for x in out.splitlines()] != [steady(t) for t in self.tree(case)]:
            bad.append('the JSON is not the result of the audit')

    def say_all(self, case, out, err, bad):
        if [steady(json.loads(x)) for x in out.splitlines()] != [steady(t) for t in self.tree(case, print_all=True)]:
            bad.append('the JSON documents are not the results of the audit')

    def say_json_with_transcript(self, case, out, err, bad):
        d = json.loads(out)
        if steady(d['output']) != steady(self.tree(case)[0]):
            bad.append('the output in the JSON is not the result of the audit')
        have = sorted(c['clbid'] for c in d['transcript'])
        want = sorted(c['clbid'] for c in case['student']['courses'])
        if have != want:
            bad.append(f'the transcript in the JSON has the courses {have} of {want}')
        rows = {c['clbid']: c for c in case['student']['courses']}
        for c in d['transcript']:
            r = rows[c['clbid']]
            if (c['subject'], c['number'], c['name'], c['credits']) != (r['subject'], r['number'], r['name'], r['credits']) and not case['student']['exceptions']:
                bad.append(f"the transcript in the JSON has {c['subject']} {c['number']} {c['credits']} as #{c['clbid']}")

    def say_quiet(self, case, out, err, bad):
        if out or err:
            bad.append(f'asked to be quiet, it says {out[:60]!r} {err[:60]!r}')

    def say_claimed(self, case, out, err, bad):
        t = self.tree(case)[0]
        names = {c['clbid']: f"{c['subject']} {c['number']}" for c in case['student']['courses']}
        for x in {cl['clbid'] for n in holders(t) for cl in n['claims']}:
            if names[x] not in out:
                bad.append(f'the claimed {names[x]} is missing: {out.strip()!r}')
        if not any(n['claims'] for n in holders(t)) and any(v in out for v in names.values()) and not any(n.get('failures') for n in holders(t)):
            bad.append(f'nothing is claimed, and it says {out.strip()!r}')

    def say_estimate(self, case, out, err, bad):
        if not re.search(r'[\d,]+ estimated solution', err) or out.strip():
            bad.append(f'no estimate: {err[-80:]!r} {out[:80]!r}')

    def say_gpa(self, case, out, err, bad):
        import csv
        from mc import ref
        cs = [c for c in ref.transcript(case['student'], '000', {}, failed=True)]
        term = lambda c: f'{c.year}-{c.term}'  # noqa: E731
        want, so_far = [], []
        for t in sorted({term(c) for c in cs}):
            here = [c for c in cs if term(c) == t and c.in_gpa]
            if not here:
                continue
            so_far += here
            want += [[t], *sorted([f'{c.subject} {c.number}', t, c.grade] for c in here), ['gpa:', str(ref.gpa(here))], ['cum. gpa:', str(ref.gpa(so_far))]]
        want.append(['gpa:', str(ref.gpa(cs))])
        got = []
        for r in list(csv.reader(io.StringIO(out)))[1:]:
            r = [x for x in r if x.strip()]
            if len(r) >= 2 and r[-2] in ('gpa:', 'cum. gpa:'):
                got.append(r[-2:])
            elif len(r) == 1:
                got.append(r)
            elif 'courses' not in r[-1]:
                got.append([r[0].partition('.')[0], *r[1:3]])
        # (courses of one term in any order)
        i = 0
        while i < len(got):
            j = i
            while j < len(got) and len(got[j]) == 3:
                j += 1
            got[i:j] = sorted(got[i:j])
            i = j + 1
        if got != want:
            bad.append(f'the table of grades is {got}, the record has {want}')

    def say_transcript(self, case, out, err, bad):
        import csv
        rows = list(csv.reader(io.StringIO(out)))
        o = run_audit(case['student'], case['spec'])
        have = sorted(r[2] for r in rows[1:])
        from mc.world import load_all
        want = sorted(c.clbid for c in load_all(case['student'], case['spec'])[1].courses)
        if have != want or len({len(r) for r in rows}) != 1:
            bad.append(f'the table lists {have}, the record has {want}')
        del o

    def say_text(self, case, out, err, bad):
        self.text(case, out, bad, paths=True, ranks=True)

    def say_no_paths(self, case, out, err, bad):
        self.text(case, out, bad, paths=False, ranks=True)

    def say_no_ranks(self, case, out, err, bad):
        self.text(case, out, bad, paths=True, ranks=False)

    def say_bare(self, case, out, err, bad):
        self.text(case, out, bad, paths=False, ranks=False)

    def text(self, case, out, bad, paths, ranks):
        t = self.tree(case)[0]
        nodes = list(shown(t))
        courses = {c['clbid']: c for c in case['student']['courses']}
        body, _, tail = out.partition('Claimed courses:')
        lines = body.split('\n')
        where = [i for i, x in enumerate(lines) if x.strip().startswith('["$"')]
        printed = [json.loads(lines[i]) for i in where]
        if not paths:
            if printed:
                bad.append(f'asked to leave out paths, it prints {printed[0]}')
        elif printed != [n['path'] for n in nodes]:
            have = {steady(p) for p in printed}
            bad.append(f"the report shows {len(printed)} parts of {len(nodes)}; missing {[n['path'] for n in nodes if steady(n['path']) not in have][:2]}")
        else:
            for n, i, j in zip(nodes, where, where[1:] + [len(lines)]):
                self.block(n, '\n'.join(lines[i + 1:j]), courses, bad, ranks)
        # whether or not there are paths, every requirement is there with its status
        at = 0
        for n in nodes:
            if n['type'] == 'requirement':
                at = body.find(f"Requirement({n['name']}) [{n['status']}]", at)
                if at < 0:
                    bad.append(f"requirement {n['name']} [{n['status']}] is missing")
                    break
                at += 1
        if f"audit status: {t['status']}." not in body:
            bad.append(f"the status of the area, {t['status']}, is missing")
        if not ranks and re.search(r'\(\d+(\.\d+)?\|\d', body):
            bad.append('asked to leave out ranks, it prints some')
        want = sorted((cl['clbid'], tuple(cl['claimed_by'])) for n in holders(t) for cl in n['claims'])
        names = lambda p: ' > '.join([t['name'], *[x[1:] for x in p if x.startswith('%')]])  # noqa: E731
        # (a course or a requirement may have any name; the ends of the lines are what tells claims apart)
        said = sorted(re.findall(r' at (' + re.escape(t['name']) + '.*)$', tail, flags=re.M))
        if said != sorted(names(p) for _, p in want):
            bad.append(f'the claims listed at the end are at {said}, those of the result at {sorted(names(p) for _, p in want)}')
        for x, _p in want:
            c = courses[x]
            if f"{c['subject']} {c['number']}" not in tail:
                bad.append(f"the claimed {c['subject']} {c['number']} is not listed at the end")

    def block(self, n, text, courses, bad, ranks):
        t, p = n['type'], '/'.join(n['path'])
        if t == 'assertion' and f"[{n['status']}]" not in text:
            bad.append(f"{p} is {n['status']}, shown as {text!r}")
        if t == 'assertion':
            for x in n['resolved_clbids']:
                if f'id={x}' not in text and f'#{x}' not in text:
                    bad.append(f'{p} counts #{x}, which is not shown')
        if t == 'count':
            done = sum(1 for i in n['items'] if i['status'] in ('done', 'waived'))
            if f"(ok: {done}; need: {n['count']})" not in text:
                bad.append(f"{p} has {done} of {n['count']}, shown as {text!r}")
        if t in ('query', 'course'):
            for cl in n['claims'] + n.get('failures', []):
                c = courses[cl['clbid']]
                if f"{c['subject']} {c['number']}" not in text:
                    bad.append(f"{p} has {c['subject']} {c['number']}, which is not shown: {text!r}")
        if t == 'course' and not n['claims'] and n['course'] and n['course'] not in text:
            bad.append(f"{p} asks for {n['course']}, shown as {text!r}")
        if t == 'proficiency' and n['proficiency'] not in text:
            bad.append(f"{p} asks for {n['proficiency']}, shown as {text!r}")
        if ranks and t in ('count', 'requirement', 'course', 'assertion', 'proficiency'):
            passing = n['status'] in ('waived', 'done', 'pending-current', 'pending-registered')
            if f"|{n['max_rank']}|{'t' if passing else 'f'})" not in text:
                bad.append(f"{p} has rank {n['rank']} of {n['max_rank']}, shown as {text!r}")
        if t in PICTURES and ranks:
            mark = text.split(') ', 1)[-1].strip().split(' ')[0] if t != 'assertion' else text.split(' - ', 1)[-1].split(' ')[0]
            if self.marks.setdefault((t, n['status']), mark) != mark:
                bad.append(f"{p} is {n['status']}, and marked with {mark!r}, not {self.marks[t, n['status']]!r}")
            if mark in [m for (k, s), m in self.marks.items() if k == t and s != n['status']]:
                bad.append(f"{p} is {n['status']}, and marked with {mark!r} as if it had another status")

    marks = {}

    # ---- one path, and dp.bin.print

    def run_path(self, case):
        bad = []
        rc, out, err = self.cli(case, '--print-path', json.dumps(case['path']))
        t = self.tree(case)[0]
        printed = [json.loads(x) for x in out.split('\n') if x.strip().startswith('["$"')]
        want = [n for n in shown(t) if n['path'] == case['path']]
        if rc != 0:
            bad.append(f'exit code {rc}')
        for n in want:
            for m in shown(n):
                if m['path'] not in printed:
                    bad.append(f"asked for {case['path']}, {m['path']} is left out")
        near = lambda p: p == case['path'][:len(p)] or p[:len(case['path'])] == case['path']  # noqa: E731
        for m in shown(t):
            if m['type'] == 'requirement' and m['path'] in printed and not near(m['path']):
                bad.append(f"asked for {case['path']}, it prints {m['path']}")
        bad += self.bin_print(case, t)
        return bad, len(printed), 2

    def bin_print(self, case, t):
        import dp.bin.print as tool
        _rc, out, _err = self.cli(case)
        f = os.path.join(self.dir, 'output.json')
        with open(f, 'w', encoding='utf-8') as fd:
            json.dump(t, fd)
        buf, argv = io.StringIO(), sys.argv
        try:
            sys.argv = ['print', os.path.join(self.dir, 'student.json'), f]
            with contextlib.redirect_stdout(buf):
                tool.main()
        finally:
            sys.argv = argv
        body = out.partition('Claimed courses:')[0].split('per check', 1)[1].strip('\n')
        if buf.getvalue().strip('\n') != body:
            a, b = buf.getvalue().strip('\n').split('\n'), body.split('\n')
            d = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
            return [f'dp.bin.print prints {d[0]!r} where dp prints {d[1]!r}']
        return []

    # ---- durations and settings

    def run_ms(self, case):
        from decimal import Decimal
        from dp.ms import pretty_ms
        ms, form = Decimal(case['ms']), case['form']
        text = pretty_ms(ms, **form)
        bad = []
        units = {'year': 31_536_000_000, 'day': 86_400_000, 'hour': 3_600_000, 'minute': 60_000, 'second': 1000, 'millisecond': 1, 'microsecond': Decimal('.001'), 'nanosecond': Decimal('.000001')}
        short = dict(y='year', d='day', h='hour', m='minute', s='second', ms='millisecond', us='microsecond', ns='nanosecond')
        parts = re.findall(r'([\d.]+) ?([a-z]+)', text)
        if not parts or not re.fullmatch(r'~?([\d.]+ ?[a-z]+ ?)+', text):
            return [f'{ms} ms with {form} is shown as {text!r}'], text, 1
        total = sum(Decimal(n) * units[short.get(u, u.rstrip('s') if u not in short else u)] for n, u in parts)
        # seconds are rounded to a tenth, milliseconds are rounded up
        slack = {True: Decimal('.000001')}.get(bool(form.get('format_sub_ms')), 51 if ms >= 1000 and not form.get('separate_ms') else 1)
        if form.get('compact') or form.get('unit_count'):
            # the leading units only
            slack = units[short.get(parts[-1][1], 'second')] + 500
        if abs(total - ms) > slack:
            bad.append(f'{ms} ms with {form} is shown as {text!r}')
        return bad, text, 1

    def run_duration(self, case):
        from dp.ms import parse_ms_str
        text = case['sep'].join(f'{n}{u}' for n, u in case['parts'])
        want = sum(n * {'d': 86_400_000, 'h': 3_600_000, 'm': 60_000, 's': 1000, 'ms': 1}[u] for n, u in case['parts'])
        got = parse_ms_str(text)
        bad = [] if got.ms() == want and got.sec() * 1000 == want else [f'{text!r} is {want} ms, read as {got.ms()}']
        return bad, int(got.ms()), 1

    def run_dotenv(self, case):
        from dp.dotenv.dotenv import load
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='c24-')
        f = os.path.join(self.dir, 'env')
        with open(f, 'w', encoding='utf-8') as fd:
            fd.write('\n'.join(x[0] for x in case['lines']) + '\n')
        before = dict(os.environ)
        try:
            load(f)
            got = {k: v for k, v in os.environ.items() if before.get(k) != v}
        finally:
            os.environ.clear()
            os.environ.update(before)
        want = {k: v for _, k, v in case['lines'] if k}
        return ([] if got == want else [f'{[x[0] for x in case["lines"]]} is read as {got}']), got, 1

    def worker_extra(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        return {}


PICTURES = ('count', 'requirement', 'assertion')
PROP = P()
