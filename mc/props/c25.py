"""Area files: a good one loads and audits for every student, a mistake in it is reported for every student."""
import copy

from mc import gen
from mc.core import Property, explore
from mc.gen import course, ip, q, qs, req, student, subj
from mc.world import area


# --- a corpus in which every construct of the format occurs --------------------------------------------

def good():
    a1, a2, b1 = {'course': 'AAA 101'}, {'course': 'AAA 201'}, {'course': 'BBB 101'}
    has = {'has-course': 'AAA 101'}
    yield 'course', area({'all': [a1, {'course': 'AAA 201', 'grade': 'B', 'optional': True}, {'ap': 'Physics'}, {'crsid': '01'}, {'clbid': '7'},
                                  {'course': 'CCC 101', 'section': 'A', 'year': 2018, 'term': '1', 'institution': 'X', 'grade_option': 'grade', 'hidden': True},
                                  {'course': 'BBB 101', 'from_claimed': True}, {'course': 'BBB 201', 'allow_claimed': True}]})
    yield 'count', area({'count': 2, 'of': [a1, {'any': [a2, b1]}, {'both': [a1, b1]}, {'either': [a2, b1]}, {'count': 'all', 'of': [b1]}, {'count': 'any', 'of': [b1, a2]}, {'count': 1, 'at_most': True, 'of': [a1, b1]}]})
    yield 'audit', area({'all': [{'any': [a1, b1], 'audit': {'assert': {'count(courses)': {'$gte': 1}}, 'where': subj('AAA'), 'message': 'm', 'label': 'l'}},
                                 {'any': [a1, b1], 'audit': {'all': [{'assert': {'sum(credits)': {'$gte': 1}}}, {'$if': has, '$then': {'assert': {'count(terms)': {'$gte': 1}}},
                                                                                                      '$else': {'assert': {'count(courses)': {'$gte': 1}}}}]}}]})
    yield 'query', area({'all': [q(1, subj('AAA'), limit=[{'at_most': 1, 'where': subj('AAA'), 'message': 'm'}, {'at most': '1 course', 'where': {'level': {'$gte': 200}}},
                                                           {'at-most': '2 credits', 'where': subj('BBB')}], allow_claimed=True, claim=False, include_failed=True, load_potentials=False),
                                 qs([{'assert': {'count(courses)': {'$gte': 1, '$changes': [[has, {'add': 1}], [{'$not': has}, {'set': 2}]], 'treat_in_progress_as_pass': True}}, 'where': subj('AAA'), 'message': 'm'},
                                     {'$if': has, '$then': {'assert': {'sum(credits)': {'$gte': '1.5'}}}, '$else': {'assert': {'count(courses)': {'$lt': 5}}}},
                                     {'$when': {'query-has-course-with-attribute': 'x'}, '$then': {'assert': {'count(courses)': {'$eq': 1, 'at_most': True}}}},
                                     {'$when': {'$and': [{'query-has-course-with-attribute': 'x'}, {'$or': [{'query-has-single-course-with-attribute': 'y'}]}]},
                                      '$then': {'assert': {'count(courses)': {'$gte': 1}}}}]),
                                 {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 0}}}]})
    yield 'where', area({'all': [q(1, {'$and': [subj('AAA'), {'$or': [{'level': {'$in': [100, 200]}}, {'grade': {'$gte': 'B', '$during_covid': 'C'}}]}]}),
                                 q(1, {'$not': {'subject': {'$nin': ['AAA', 'BBB']}}}), q(1, {'subject': {'$neq': 'CCC'}, 'credits': {'$gt': '0.5'}, 'grade_option': {'$eq': 'grade'}}),
                                 q(1, {'$if': {'$or': [has, {'$and': [{'has-ip-course': 'BBB 101'}, {'has-completed-course': 'BBB 201'}]}]}, '$then': subj('AAA'), '$else': subj('BBB')})]})
    yield 'other', area({'all': [{'from': 'areas', 'where': {'code': {'$eq': '100'}}, 'assert': {'count(areas)': {'$gte': 1}}},
                                 {'from': 'music performances', 'where': {'name': {'$eq': 'P'}, 'status': {'$eq': 'entrance'}}, 'assert': {'count(performances)': {'$gte': 1}}},
                                 {'from': 'music recitals', 'assert': {'count(recitals)': {'$gte': 1}}}, {'proficiency': 'Guitar', 'course': a1}, {'proficiency': 'Keyboard Level I'}]})
    yield 'cond', area({'all': [{'$if': has, '$then': a1, '$else': {'all': [a2, q(1)]}}, {'$if': {'has-declared-area-code': '100'}, '$then': b1, '$hide-when-false': True},
                                {'$if': {'passed-proficiency-exam': 'Guitar'}, '$then': {'any': [a1, a2]}}, {'$if': {'student-has-course-with-attribute': 'x'}, '$then': q(1)}]})
    yield 'req', area({'all': [{'requirement': 'R'}, req('Inline', {'any': [a1, b1]}, message='m', in_gpa=False, disjoint=True), {'requirement': 'D'}]},
                      {'R': {'message': 'm', 'requirements': {'S': {'result': a1}, 'T': {'requirements': {'U': {'result': b1}}, 'result': {'any': [{'requirement': 'U'}, a2]}}},
                             'result': {'all': [{'requirement': 'S'}, {'requirement': 'T'}]}},
                       'D': {'department_audited': True, 'contract': True, 'message': 'm'}})
    yield 'req-if', area({'all': [{'requirement': 'R'}]},
                         {'R': {'requirements': {'S': {'result': a1}, 'T': {'result': {'any': [b1, q(1)]}}, 'U': {'result': b1}, 'V': {'result': a2}},
                                'result': {'all': [{'$if': has, '$then': {'requirement': 'S'}, '$else': {'any': [{'requirement': 'T'}, a2]}}, {'course': 'CCC 101'},
                                                   {'$if': {'has-declared-area-code': '100'}, '$then': {'all': [{'requirement': 'U'}]}, '$hide-when-false': True},
                                                   {'$if': {'$not': has}, '$then': {'requirement': 'V'}}]}}})
    yield 'area', area({'all': [a1, {'requirement': 'R'}]}, {'R': {'result': {'any': [a1, b1]}}}, type='concentration', major='x', degree='B.A.', limit=[{'at_most': 1, 'where': subj('AAA')}],
                       multicountable={'AAA 101': [['R']]}, credit={'subject': 'X'})
    yield 'emph', area({'all': [a1]}, emphases={'10': {'name': 'Em', 'result': {'all': [{'requirement': 'X'}]}, 'requirements': {'X': {'result': {'any': [a2, q(1)]}}}},
                                                '11': {'name': 'Fm', 'result': {'any': [b1, {'$if': has, '$then': a1}]}}})
    yield 'template', area({'all': [{'any': [{'template': 't'}, a1]}]})


def students():
    yield 'nobody', student([])
    yield 'full', student([course('AAA 101', '1', attributes=['x']), course('AAA 201', '2', grade='C'), course('BBB 101', '3'), ip('BBB 201', '4')],
                          areas=[{'code': '100', 'kind': 'major', 'status': 'declared', 'name': 'M', 'degree': 'B.A.', 'catalog': '2018'},
                                 {'code': '10', 'kind': 'emphasis', 'status': 'declared', 'name': 'Em', 'degree': 'B.A.', 'catalog': '2018'}],
                          proficiencies={'guitar': 'E'}, templates={'t': ['AAA 201', 'BBB 101']})
    yield 'some', student([course('BBB 101', '3', attributes=['x', 'y']), course('AAA 201', '2')],
                          areas=[{'code': '11', 'kind': 'emphasis', 'status': 'declared', 'name': 'Fm', 'degree': 'B.A.', 'catalog': '2018'}], templates={'t': []})


# --- what stands where ----------------------------------------------------------------------------------

def nodes(spec):
    """(kind, place) of everything in a specification, a place being a list of keys"""
    yield 'area', []
    yield from rule(spec['result'], ['result'])
    yield from defs(spec, [])
    yield from limits(spec, [])
    for k, e in spec.get('emphases', {}).items():
        yield 'emphasis', ['emphases', k]
        yield from rule(e['result'], ['emphases', k, 'result'])
        yield from defs(e, ['emphases', k])


def defs(d, p):
    for k, r in d.get('requirements', {}).items():
        yield from requirement(r, [*p, 'requirements', k])


def limits(d, p):
    for i, x in enumerate(d.get('limit', [])):
        yield 'limit', [*p, 'limit', i]
        yield from pred(x['where'], [*p, 'limit', i, 'where'])


def requirement(r, p):
    yield 'requirement', p
    if 'result' in r:
        yield from rule(r['result'], [*p, 'result'])
    yield from defs(r, p)


def rule(d, p):
    if 'proficiency' in d:
        yield 'proficiency', p
        if 'course' in d:
            yield 'course', [*p, 'course']
    elif {'course', 'ap', 'clbid', 'crsid'} & set(d):
        yield 'course', p
    elif 'from' in d:
        yield 'query', p
        if 'where' in d:
            yield from pred(d['where'], [*p, 'where'], d['from'])
        yield from limits(d, p)
        if 'assert' in d:
            yield from body(d['assert'], [*p, 'assert'])
        for i, a in enumerate(d.get('all', [])):
            yield from assertion(a, [*p, 'all', i], d['from'])
    elif '$if' in d:
        yield 'conditional', p
        yield from expr(d['$if'], [*p, '$if'])
        for b in ('$then', '$else'):
            if b in d:
                yield from rule(d[b], [*p, b])
    elif 'requirement' in d:
        yield 'reference', p
    elif 'name' in d:
        yield from requirement(d, p)
    elif 'template' in d:
        pass
    else:
        yield 'count', p
        k = next(x for x in ('of', 'all', 'any', 'both', 'either') if x in d)
        for i, x in enumerate(d[k]):
            yield from rule(x, [*p, k, i])
        if 'audit' in d:
            a = d['audit']
            for q_, x in ([([*p, 'audit', 'all', i], x) for i, x in enumerate(a['all'])] if 'all' in a else [([*p, 'audit'], a)]):
                yield from assertion(x, q_)


def assertion(d, p, source='courses'):
    if '$if' in d or '$when' in d:
        k = '$if' if '$if' in d else '$when'
        yield ('assert-if' if k == '$if' else 'assert-when'), p
        yield from expr(d[k], [*p, k], dynamic=k == '$when')
        for b in ('$then', '$else'):
            if b in d:
                yield from assertion(d[b], [*p, b], source)
        return
    yield 'assertion', p
    if 'where' in d:
        yield from pred(d['where'], [*p, 'where'], source)
    yield from body(d['assert'], [*p, 'assert'])


def body(d, p):
    yield 'body', p
    (k, v), = d.items()
    yield 'bound', [*p, k]
    for i, (cond, _act) in enumerate(v.get('$changes', [])):
        yield from expr(cond, [*p, k, '$changes', i, 0])
        yield 'change', [*p, k, '$changes', i, 1]


def pred(d, p, source='courses'):
    for k in ('$and', '$or'):
        if k in d:
            yield 'pred-group', p
            for i, x in enumerate(d[k]):
                yield from pred(x, [*p, k, i], source)
            return
    if '$not' in d:
        yield 'pred-not', p
        yield from pred(d['$not'], [*p, '$not'], source)
    elif '$if' in d:
        yield 'pred-if', p
        yield from expr(d['$if'], [*p, '$if'])
        for b in ('$then', '$else'):
            if b in d:
                yield from pred(d[b], [*p, b], source)
    else:
        yield 'pred', p
        for k in d:
            yield f'pred-value:{k}', [*p, k]


def expr(d, p, dynamic=False):
    what = 'dynamic' if dynamic else 'expr'
    for k in ('$and', '$or'):
        if k in d:
            yield f'{what}-group', p
            for i, x in enumerate(d[k]):
                yield from expr(x, [*p, k, i], dynamic)
            return
    if '$not' in d:
        yield f'{what}-not', p
        yield from expr(d['$not'], [*p, '$not'], dynamic)
    else:
        yield what, p


# --- mistakes -------------------------------------------------------------------------------------------

def put(**kw):
    return lambda d: d.update({k.replace('__', '$'): v for k, v in kw.items()})


def drop(k):
    return lambda d: d.pop(k)


def rename(k):
    def f(d):
        items = list(d.items())
        d.clear()
        for a, b in items:
            d[a + 's' if a == k else a] = b
    return f


def only(**kw):
    def f(d):
        d.clear()
        put(**kw)(d)
    return f


def replace_op(op, value):
    def f(d):
        for k in [k for k in d if k in ('$lt', '$lte', '$gt', '$gte', '$eq', '$neq', '$in', '$nin')]:
            del d[k]
        if op:
            d[op] = value
    return f


def rename_first(new):
    def f(d):
        items = list(d.items())
        d.clear()
        for i, (a, b) in enumerate(items):
            d[new if i == 0 else a] = b
    return f


KEYED = {'area', 'requirement', 'emphasis', 'count', 'course', 'query', 'conditional', 'proficiency', 'limit'}


def mistakes(kind, d):
    """(name, change) of every mistake which can be made at a place"""
    base = kind.split(':')[0]
    if kind in KEYED:
        yield 'unknown key', put(zzz=1)
        for k in d:
            if k != 'type' or kind != 'area':
                yield f'rename {k}', rename(k)
    if kind == 'area':
        yield 'no result', drop('result')
        yield 'limit without bound', put(limit=[{'where': subj('AAA')}])
    if kind == 'requirement':
        yield 'audit beside the result', put(audit={'assert': {'count(courses)': {'$gte': 1}}})
        if 'result' in d and not d.get('department_audited'):
            yield 'no result', drop('result')
        if 'result' in d:
            yield 'unused requirement', lambda d: d.setdefault('requirements', {}).update({'Unused': {'result': {'course': 'AAA 101'}}})
        yield 'empty message', put(message='')
    if kind == 'reference':
        yield 'unknown requirement', put(requirement='Nowhere')
    if kind == 'count':
        k = next(x for x in ('of', 'all', 'any', 'both', 'either') if x in d)
        if k in ('both', 'either'):
            yield 'three of two', lambda d: d[k].append({'course': 'AAA 101'})
            yield 'one of two', lambda d: d[k].pop()
        if k == 'of':
            yield 'not a number', put(count='two')
            yield 'negative', put(count=-1)
            yield 'too many', put(count=len(d['of']) + 3)
        yield 'empty item', lambda d: d[k].__setitem__(0, {})
        yield 'unknown item', lambda d: d[k].__setitem__(0, {'cuorse': 'AAA 101'})
        yield 'unknown requirement', lambda d: d[k].__setitem__(0, {'requirement': 'Nowhere'})
    if kind == 'course':
        yield 'unknown grade', put(grade='Q')
        yield 'unknown grade option', put(grade_option='maybe')
        if 'term' in d:
            yield 'year without term', drop('term')
    if kind == 'query':
        yield 'unknown source', put(**{'from': 'course'})
        yield 'limits', put(limits=[{'at_most': 1, 'where': subj('AAA')}])
        if 'assert' in d:
            yield 'both assert and all', put(all=[{'assert': {'count(courses)': {'$gte': 1}}}])
            yield 'no assert', drop('assert')
        else:
            yield 'empty all', put(all=[])
            yield 'no all', drop('all')
            yield 'both all and assert', put(**{'assert': {'count(courses)': {'$gte': 1}}})
        yield 'where is not a clause', put(where='AAA')
    if kind == 'conditional' or base in ('pred-if', 'assert-if', 'assert-when'):
        yield 'no $then', drop('$then')
        if base == 'assert-when':
            yield 'static condition', put(**{'$when': {'has-course': 'AAA 101'}})
        else:
            yield 'dynamic condition', put(**{'$if': {'query-has-course-with-attribute': 'x'}})
    if base in ('expr', 'dynamic'):
        yield 'unknown function', rename_first('has-a-course')
        yield 'two functions', put(zzz='x')
        yield 'number as argument', lambda d: d.update({k: 1 for k in d})
        yield 'list as argument', lambda d: d.update({k: ['AAA 101'] for k in d})
        yield 'empty condition', lambda d: d.clear()
    if base in ('expr-group', 'dynamic-group', 'expr-not', 'pred-group', 'pred-not'):
        yield 'second key', put(zzz=1)
        yield 'unknown combination', rename_first('$nand')
    if base in ('expr-group', 'dynamic-group'):
        yield 'not a list', lambda d: d.update({k: v[0] for k, v in d.items()})
    if base == 'pred-group':
        yield 'empty group', lambda d: d.update({k: [] for k in d})
    if base == 'pred':
        yield 'unknown field', rename_first('subjct')
        yield 'additional unknown field', put(zzz={'$eq': 1})
        yield 'field is not a clause', lambda d: d.update({k: 'AAA' for k in d})
    if base == 'pred-value':
        op = next(k for k in d if k in ('$lt', '$lte', '$gt', '$gte', '$eq', '$neq', '$in', '$nin'))
        yield 'unknown operator', replace_op('$eqq', d[op])
        yield 'no operator', replace_op(None, None)
        yield 'two operators', put(**{('$lte' if op != '$lte' else '$gte'): d[op]})
        yield 'number with decimals', replace_op(op, 1.5)
        yield 'nothing', replace_op(op, None)
        yield 'null in list', replace_op('$in', [None])
        yield 'clause as value', replace_op(op, {'$eq': 1})
        yield 'unknown constant', replace_op(op, '$no-such-constant')
        if kind in ('pred-value:grade', 'pred-value:grade_option'):
            yield 'unknown value', replace_op(op, 'Q')
    if base == 'assertion':
        yield 'no assert', drop('assert')
    if base == 'body':
        yield 'unknown aggregate', rename_first('count(horses)')
        yield 'aggregate of something else', rename_first('count(areas)' if 'areas' not in str(list(d)) else 'count(courses)')
        yield 'two aggregates', put(**{'sum(credits)': {'$gte': 1}} if 'sum(credits)' not in d else {'count(courses)': {'$gte': 1}})
        yield 'no aggregate', lambda d: d.clear()
        yield 'not a clause', lambda d: d.update({k: 1 for k in d})
    if base == 'bound':
        op = next(k for k in d if k in ('$lt', '$lte', '$gt', '$gte', '$eq', '$neq'))
        yield 'unknown key', put(zzz=1)
        yield 'unknown operator', replace_op('$atleast', d[op])
        yield 'no operator', replace_op(None, None)
        yield 'two operators', put(**{('$lte' if op != '$lte' else '$gte'): d[op]})
        yield 'list operator', replace_op('$in', [1])
        yield 'list', replace_op(op, [1])
        yield 'number with decimals', replace_op(op, 1.5)
        yield 'nothing', replace_op(op, None)
        yield 'unknown constant', replace_op(op, '$no-such-constant')
        yield 'not a number', replace_op(op, 'two')
        yield '$ifs', put(**{'$ifs': []})
        yield 'at_most is no flag', put(at_most='yes')
    if base == 'change':
        yield 'unknown change', rename_first('multiply')
        yield 'two changes', put(subtract=1, set=2)
        yield 'no change', lambda d: d.clear()
        yield 'not a number', lambda d: d.update({k: 'two' for k in d})
    if base == 'limit':
        yield 'no bound', lambda d: [d.pop(k, None) for k in ('at_most', 'at most', 'at-most')]
        yield 'no where', drop('where')
        yield 'unknown unit', lambda d: ([d.pop(k, None) for k in ('at_most', 'at most', 'at-most')], d.update({'at_most': '1 horse'}))
        yield 'not a number', lambda d: ([d.pop(k, None) for k in ('at_most', 'at most', 'at-most')], d.update({'at_most': 'one course'}))
    if base == 'proficiency':
        yield 'unknown proficiency', put(proficiency='Kazoo')


def at(x, place):
    for k in place:
        x = x[k]
    return x


def with_mistake(spec, place, change):
    spec = copy.deepcopy(spec)
    change(at(spec, place))
    return spec


# --- contexts: the same file, put where it matters to few students, or to none ---------------------------

def wrapped(how, spec):
    if how == 'as it is':
        return spec, []
    part = {'result': spec['result']}
    if spec.get('requirements'):
        part['requirements'] = spec['requirements']
    if how == 'requirement':
        return area({'all': [{'requirement': 'W'}]}, {'W': part}), ['requirements', 'W']
    if how == 'inline':
        return area({'all': [{'course': 'ZZZ 101'}, {'name': 'W', **part}]}), ['result', 'all', 1]
    if how == 'branch not taken':
        return area({'all': [{'$if': {'has-declared-area-code': '999'}, '$then': {'requirement': 'W'}}]}, {'W': part}), ['requirements', 'W']
    if how == 'other branch not taken':
        return area({'all': [{'$if': {'$not': {'has-declared-area-code': '999'}}, '$then': {'course': 'ZZZ 101'}, '$else': {'name': 'W', **part}}]}), ['result', 'all', 0, '$else']
    if how == 'hidden branch':
        return area({'all': [{'course': 'ZZZ 101'}, {'$if': {'has-declared-area-code': '999'}, '$then': {'name': 'W', **part}, '$hide-when-false': True}]}), ['result', 'all', 1, '$then']
    if how == 'emphasis nobody declared':
        return area({'all': [{'course': 'ZZZ 101'}]}, emphases={'77': {'name': 'W', **part}}), ['emphases', '77']
    if how == 'audited by the department':
        return area({'all': [{'requirement': 'W'}]}, {'W': {'department_audited': True, **part}}), ['requirements', 'W']
    raise KeyError(how)


WRAPS = ['as it is', 'requirement', 'inline', 'branch not taken', 'other branch not taken', 'hidden branch', 'emphasis nobody declared', 'audited by the department']
FILES = ['good', 'good2', 'bad', 'bad2', 'not yaml', 'no file']


class P(Property):
    ID = 'C25'
    RULE = ('a case fails when an area file without a mistake is refused, or audits to no result, for some student; when one with a mistake is accepted, by the validator or for some student; '
            'or when dp.bin.validate does not say by its exit status whether all files are good')
    ASSUMPTIONS = ['mistakes are those which the loader has a rule against; a key which an assertion, a reference or an operator does not know is not one of them (see DESIGN.md)',
                   'refused means that an exception leaves the entry point']

    def cases(self, tier):
        yield from explore(lambda ch: self.one(ch, tier), None)
        yield from explore(lambda ch: self.cli(ch, tier), None)

    def one(self, ch, tier):
        specs = dict(good())
        name = ch('spec', list(specs))
        how = ch('wrap', WRAPS if name not in ('area', 'emph') else WRAPS[:1])
        spec, where = wrapped(how, specs[name])
        if tier != 'quick' and how != 'as it is':
            how2 = ch('wrap2', WRAPS)
            if how2 != 'as it is':
                inside = where
                spec, where = wrapped(how2, spec)
                # the first wrapping is now inside the second
                where = where + inside
                how = f'{how}, within {how2}'
        inner = [(k, p) for k, p in nodes(spec) if p[:len(where)] == where and (k not in ('area', 'emphasis') or how == 'as it is')]
        i = ch('node', range(-1, len(inner)))
        if i < 0:
            return {'what': 'good', 'how': how, 'area': spec}
        kind, place = inner[i]
        # inline and emphases: the wrapping requirement has other rules about its own keys
        all_m = dict((n, f) for n, f in mistakes(kind, at(spec, place))
                     if not (place == where and how != 'as it is' and (n in ('no result', 'rename name', 'unused requirement', 'rename result', 'rename department_audited') or n.startswith('rename requ')))
                     and not (n == 'too many' and at(spec, place).get('at_most')))
        if not all_m:
            return {'what': 'good', 'how': how, 'area': spec}
        m = ch('mistake', list(all_m))
        return {'what': 'bad', 'how': how, 'mistake': m, 'kind': kind, 'place': place, 'area': with_mistake(spec, place, all_m[m])}

    def cli(self, ch, tier):
        return {'what': 'cli', 'files': [ch(f'f{i}', FILES) for i in range(ch('n', [1, 2, 3] if tier != 'quick' else [1, 2]))], 'flags': ch('flags', [[], ['--break'], ['--list'], ['--list', '--break']])}

    def run_case(self, case):
        if case['what'] == 'cli':
            return self.run_cli(case)
        spec = case['area']
        got = {'validator': self.load(spec)}
        for n, stu in students():
            got[n] = self.audit(stu, spec)
        v = []
        for n, (ok, what) in got.items():
            if case['what'] == 'good' and not ok:
                v.append(f'a good area file is refused ({n}): {what}')
            if case['what'] == 'bad' and ok:
                v.append(f"{case['mistake']} at {case['place']} is accepted ({n}): {what}")
        return v, [case['what'], sorted({what for _ok, what in got.values()})], len(got)

    def load(self, spec):
        from dp import AreaOfStudy, Constants
        try:
            AreaOfStudy.load(specification=copy.deepcopy(spec), c=Constants(matriculation_year=200))
            return True, 'loaded'
        except Exception as e:
            return False, type(e).__name__

    def audit(self, stu, spec):
        from mc.world import run_audit
        try:
            o = run_audit(stu, spec)
        except Exception as e:
            return False, f'{type(e).__name__}: {str(e)[:200]}'
        if not o.results:
            return False, 'no result'
        return True, o.tree()['status']

    def run_cli(self, case):
        import contextlib
        import io
        import os
        import sys
        import tempfile
        import yaml
        from dp.bin import validate
        specs = dict(good())
        bad = copy.deepcopy(specs['req'])
        bad['requirements']['R']['requirements']['S']['zzz'] = 1
        bad2 = copy.deepcopy(specs['where'])
        bad2['result']['all'][1]['where']['$not']['subject'] = {'$near': 'AAA'}
        out, err = io.StringIO(), io.StringIO()
        argv = sys.argv
        with tempfile.TemporaryDirectory() as d:
            paths = []
            for i, f in enumerate(case['files']):
                p = os.path.join(d, f'{i}.yaml')
                paths.append(p)
                if f == 'no file':
                    continue
                with open(p, 'w') as h:
                    if f == 'not yaml':
                        h.write('a: [1, 2\nb: }')
                    else:
                        yaml.safe_dump({'good': specs['req'], 'good2': specs['query'], 'bad': bad, 'bad2': bad2}[f], h)
            try:
                sys.argv = ['validate', *paths, *case['flags']]
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    try:
                        code = validate.main()
                    except SystemExit as e:
                        code = e.code
            finally:
                sys.argv = argv
        fine = all(f.startswith('good') for f in case['files'])
        v = []
        if bool(code) == fine:
            v.append(f"dp.bin.validate of {case['files']} exits with {code!r}")
        seen = [i for i in range(len(paths)) if paths[i] in err.getvalue()]
        want = len(paths)
        if '--break' in case['flags'] and not fine:
            want = next(i for i, f in enumerate(case['files']) if not f.startswith('good')) + 1
        if seen != list(range(want)):
            v.append(f"dp.bin.validate of {case['files']} {case['flags']} looked at {seen}")
        if ('Traceback' in err.getvalue()) == fine:
            v.append(f"dp.bin.validate of {case['files']} reports: {err.getvalue()[:200]}")
        return v, [bool(code), seen], 1

    def bounds(self, tier):
        return (f'12 area files in which every construct occurs, in 8 contexts{", and every context within another" if tier != "quick" else ""}; every one of the mistakes at every place, each tried by the validator and for 3 students; '
                f"dp.bin.validate on every list of up to {3 if tier != 'quick' else 2} of 6 kinds of files")


PROP = P()
