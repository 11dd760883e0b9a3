"""Proficiencies, areas, performances and recitals: the record of them is used as it stands."""
from mc.auditprop import AuditProp
from mc.gen import course, ip, student, area, exc, q

NAMES = ['Keyboard Level I', 'Keyboard Level II', 'Keyboard Level III', 'Keyboard Level IV', 'Guitar']
KEYS = ['keyboard_1', 'keyboard_2', 'keyboard_3', 'keyboard_4', 'guitar']
MARKS = ['N', 'Y', 'E', 'C', '', True, False]


def ptr(code, kind, status='declared', **kw):
    d = {'code': code, 'kind': kind, 'status': status, 'name': f'Name {code}', 'degree': 'B.A.', 'catalog': '2018'}
    d.update(kw)
    return d


AREAS = {
    'm': lambda: ptr('100', 'major', gpa='3.00'),
    'w': lambda: ptr('150', 'major', 'what-if', gpa='2.00', name='Other'),
    'c': lambda: ptr('200', 'concentration', gpa='3.50'),
    'e': lambda: ptr('100-E', 'emphasis'),
    'd': lambda: ptr('300', 'major', 'what-if-drop'),
    'o': lambda: ptr('000', 'concentration', 'what-if-drop'),       # the audited area itself
    'g': lambda: ptr('B.M.', 'degree', 'awarded', degree='B.M.'),
    'x': lambda: ptr('200', 'concentration', 'certified', name='Again'),   # the same area a second time
}
PERF = {
    'a': lambda: dict(id='1', name='Exam: 000', year='2018', term='1', status='E', role='soloist'),
    'b': lambda: dict(id='2', name='Piano', year='2019', term='3', status='C', role='member'),
    'c': lambda: dict(id='3', name='Piano', year='2019', term='1', status='', role='soloist'),
    'd': lambda: dict(id='4', name='Voice', year='2019', term='1'),
    'e': lambda: dict(id='2', name='Piano', year='2019', term='3', status='C', role='member'),      # one performance, two rows
}
AREA_WHERE = {
    'none': None,
    'code': {'code': {'$eq': '100'}},
    'code-not': {'code': {'$neq': '$current-area-code'}},
    'code-in': {'code': {'$in': ['100', '200', '300']}},
    'name': {'name': {'$eq': 'Other'}},
    'degree': {'degree': {'$neq': 'B.M.'}},
    'kind': {'kind': {'$in': ['Major', 'major']}},
    'type': {'type': {'$nin': ['Major', 'major', 'Degree', 'degree']}},
    'status': {'status': {'$in': ['Declared', 'declared', 'Certified', 'certified']}},
    'status-w': {'status': {'$in': ['WhatIf', 'what-if']}},
    'gpa': {'gpa': {'$gte': '3.00'}},
    'gpa-lt': {'gpa': {'$lt': '3.00'}},
    'no-gpa': {'$not': {'gpa': {'$gte': '0.00'}}},
    'two': {'kind': {'$in': ['Major', 'major']}, 'status': {'$in': ['Declared', 'declared']}},
    'or': {'$or': [{'code': {'$eq': '200'}}, {'gpa': {'$gt': '2.50'}}]},
    'if': {'$if': {'has-declared-area-code': '200'}, '$then': {'code': {'$eq': '200'}}, '$else': {'code': {'$eq': '100'}}},
}
PERF_WHERE = {
    'none': None,
    'name': {'name': {'$eq': 'Piano'}},
    'exam': {'name': {'$eq': '$current-area-code-music-exam'}},
    'not-name': {'name': {'$neq': 'Voice'}},
    'in': {'name': {'$in': ['Piano', 'Voice']}},
    'entrance': {'status': {'$eq': 'entrance'}},
    'not-entrance': {'status': {'$neq': 'entrance'}},
    'cont': {'status': {'$eq': 'continuance'}},
    'role': {'role': {'$eq': 'soloist'}},
    'not-role': {'$not': {'role': {'$eq': 'soloist'}}},
    'both': {'name': {'$eq': 'Piano'}, 'role': {'$eq': 'soloist'}},
    'or': {'$or': [{'status': {'$eq': 'entrance'}}, {'name': {'$eq': 'Voice'}}]},
    'medium': {'name': {'$in': '$primary-performing-medium'}},
    'if': {'$if': {'passed-proficiency-exam': 'Guitar'}, '$then': {'status': {'$eq': 'entrance'}}},
}
OPS = ['$gte', '$gt', '$lte', '$lt', '$eq', '$neq']


class P(AuditProp):
    ID = 'C27'
    TOPICS = None
    COMPLETE = True
    RULE = ('a case fails when a proficiency is not reported done exactly if the record has it (or else as its course), when a query over areas, performances or recitals '
            'does not look at exactly the matching records, each once, or when a number, status or rank does not follow from them')
    ASSUMPTIONS = ['how kinds and statuses of areas are spelled in filters is left open: both spellings are always given',
                   'recitals accept no filter in the area file format']

    def worlds(self, tier):
        return [lambda ch: self.proficient(ch, tier), lambda ch: self.within(ch, tier), lambda ch: self.areas(ch, tier),
                lambda ch: self.perform(ch, tier), lambda ch: self.recitals(ch, tier), lambda ch: self.mixed(ch, tier)]

    # one proficiency rule
    def proficient(self, ch, tier):
        i = ch('name', range(5))
        mark = ch('mark', MARKS + ['absent'])
        other = ch('others', ['N', 'E', 'C'] if tier != 'quick' else ['N', 'E'])
        prof = {k: other for k in KEYS}
        if mark == 'absent':
            del prof[KEYS[i]]
        else:
            prof[KEYS[i]] = mark
        rule = {'proficiency': NAMES[i]}
        c = ch('course', [None, {'course': 'MUS 101'}, {'course': 'MUS 101', 'grade': 'B'}])
        if c:
            rule['course'] = c
        have = ch('have', ['', 'done', 'low', 'ip', 'future', 'other'] if c else [''])
        rows = {'': [], 'done': [course('MUS 101', '1')], 'low': [course('MUS 101', '1', grade='C')], 'ip': [ip('MUS 101', '1')], 'future': [ip('MUS 101', '1', future=True)],
                'other': [course('MUS 102', '1')]}[have]
        stu = student(rows, proficiencies=prof)
        e = ch('exception', [None, 'waive'] + (['insert', 'block'] if rows else []))
        p = ['$', '.count', '[0]', f'.proficiency={NAMES[i]}']
        if e == 'waive':
            stu['exceptions'].append(exc('override', p))
        elif e:
            stu['exceptions'].append(exc(e, [*p, '*MUS 101' + ('(grade >= B)' if 'grade' in c else '')], clbid='1'))
        return {'student': stu, 'spec': area({'all': [rule]})}

    # next to and within other rules
    def within(self, ch, tier):
        a = ch('a', MARKS[:4])
        b = ch('b', MARKS[:4])
        pa = {'proficiency': 'Keyboard Level I', 'course': {'course': 'MUS 101'}}
        pb = {'proficiency': 'Guitar'}
        if ch('b-course', [False, True]):
            pb['course'] = {'course': 'MUS 102'}
        shape = ch('shape', ['all', 'any', 'one-of-three', 'if', 'if-not', 'compete', 'query', 'at-most'])
        result = {
            'all': {'all': [pa, pb]},
            'any': {'all': [{'any': [pa, pb]}]},
            'one-of-three': {'all': [{'count': 2, 'of': [pa, pb, {'course': 'MUS 103'}]}]},
            'if': {'all': [{'$if': {'passed-proficiency-exam': 'Guitar'}, '$then': pa, '$else': {'all': [{'course': 'MUS 102'}]}}]},
            'if-not': {'all': [{'$if': {'$not': {'passed-proficiency-exam': 'Keyboard Level I'}}, '$then': {'course': 'MUS 101'}, '$else': pb}]},
            'compete': {'all': [pa, pb, {'any': [{'course': 'MUS 101'}, {'course': 'MUS 102'}]}]},
            'query': {'all': [pa, pb, q(1, {'subject': {'$eq': 'MUS'}})]},
            'at-most': {'all': [{'count': 1, 'at_most': True, 'of': [pa, pb]}]},
        }[shape]
        n = ch('rows', ['', 'a', 'b', 'ab', 'p', 'bp', 'abc'])
        pool = {'a': lambda: course('MUS 101', '1'), 'b': lambda: course('MUS 102', '2', grade='C'), 'c': lambda: course('MUS 103', '3'), 'p': lambda: ip('MUS 101', '1')}
        return {'student': student([pool[k]() for k in n], proficiencies={'keyboard_1': a, 'guitar': b}), 'spec': area(result),
                'complete': shape not in ('compete', 'query')}

    def areas(self, ch, tier):
        keys = ch('areas', ['', 'm', 'mw', 'mc', 'mcx', 'mwce', 'mdo', 'cdg', 'mwcedogx'])
        rule = {'from': 'areas'}
        w = ch('where', list(AREA_WHERE))
        if AREA_WHERE[w]:
            rule['where'] = AREA_WHERE[w]
        a = {'assert': {'count(areas)': {ch('op', OPS): ch('n', [0, 1, 2, 3] if tier != 'quick' else [0, 1, 2])}}}
        w2 = ch('where2', [None, 'code', 'kind', 'gpa'] if tier != 'quick' or w in ('none', 'kind') else [None])
        if w2:
            a['where'] = AREA_WHERE[w2]
            rule['all'] = [a]
        else:
            rule.update(a)
        return {'student': student([], areas=[AREAS[k]() for k in keys]), 'spec': area({'all': [rule]})}

    def perform(self, ch, tier):
        keys = ch('rows', ['', 'a', 'b', 'be', 'ab', 'cd', 'abcd', 'edcba'])
        rule = {'from': 'music performances'}
        w = ch('where', list(PERF_WHERE))
        if PERF_WHERE[w]:
            rule['where'] = PERF_WHERE[w]
        a = {'assert': {'count(performances)': {ch('op', OPS): ch('n', [0, 1, 2, 3] if tier != 'quick' else [0, 1, 2])}}}
        w2 = ch('where2', [None, 'role', 'exam', 'not-name'] if tier != 'quick' or w in ('none', 'in') else [None])
        if w2:
            a['where'] = PERF_WHERE[w2]
            rule['all'] = [a]
        else:
            rule.update(a)
        stu = student([], performances=[PERF[k]() for k in keys])
        if w == 'medium':
            stu['mediums'] = {'ppm': ch('ppm', ['Piano', 'Piano, Voice', 'Violin'])}
            if ',' not in stu['mediums']['ppm']:
                rule['where'] = {'name': {'$eq': '$primary-performing-medium'}}
        if w == 'if':
            stu['proficiencies'] = {'guitar': ch('guitar', ['E', 'C'])}
        return {'student': stu, 'spec': area({'all': [rule]})}

    def recitals(self, ch, tier):
        n = ch('n', range(4))
        rows = [dict(id=str(i), name=f'R{i}', year='2018', term='1') for i in range(n)]
        if n and ch('twice', [False, True]):
            rows.append(dict(rows[0]))
        if ch('backwards', [False, True]):
            rows.reverse()
        rule = {'from': 'music recitals', 'assert': {'count(recitals)': {ch('op', OPS): ch('bound', range(4))}}}
        stu = student([], performance_attendances=rows)
        if ch('performances', [False, True]):
            stu['performances'] = [PERF['a']()]
        e = ch('exception', [None, 'waive', 'waive-assert', 'value'])
        p = ['$', '.count', '[0]', '.query']
        if e == 'waive':
            stu['exceptions'].append(exc('override', p))
        elif e == 'waive-assert':
            stu['exceptions'].append(exc('override', [*p, '.assertions', '[0]', '.assert']))
        elif e:
            stu['exceptions'].append(exc('value', [*p, '.assertions', '[0]', '.assert'], value=2))
        return {'student': stu, 'spec': area({'all': [rule]})}

    # several of them at once, in groups and next to courses
    def mixed(self, ch, tier):
        stu = student([course('MUS 101', '1')], areas=[AREAS[k]() for k in ch('areas', ['', 'm', 'mc'])],
                      performances=[PERF[k]() for k in ch('perf', ['', 'a', 'ab'])],
                      performance_attendances=[dict(id=str(i), name='R', year='2018', term='1') for i in range(ch('recitals', [0, 1, 2]))])
        parts = [
            {'from': 'areas', 'all': [{'assert': {'count(areas)': {'$gte': 1}}}, {'where': {'code': {'$eq': '200'}}, 'assert': {'count(areas)': {'$lte': 0}}}]},
            {'from': 'music performances', 'where': {'status': {'$eq': 'entrance'}}, 'assert': {'count(performances)': {'$gte': 1}}},
            {'from': 'music recitals', 'assert': {'count(recitals)': {'$gte': 2}}},
            {'course': 'MUS 101'},
            {'requirement': 'R'},
        ]
        one, two = ch('pair', [(i, j) for i in range(5) for j in range(5) if i != j])
        items = [parts[one], parts[two]]
        top = ch('top', ['all', 'any', 'count', 'at-most', 'req'])
        reqs = {'R': {'result': {'any': [parts[2], parts[0]]}}} if 4 in (one, two) else {}
        result = {'all': {'all': items}, 'any': {'all': [{'any': items}]}, 'count': {'all': [{'count': 1, 'of': items + [{'course': 'MUS 109'}]}]},
                  'at-most': {'all': [{'count': 1, 'at_most': True, 'of': items}]},
                  'req': {'all': [{'requirement': 'S'}]}}[top]
        if top == 'req':
            reqs = {'S': {'result': {'all': items}, **({'requirements': reqs} if reqs else {})}}
        return {'student': stu, 'spec': area(result, reqs)}

    def judge(self, case, tree, o):
        # a proficiency the student has still takes its course, so that competing rules go without
        # ("exactly 0" and "not n" of nothing: a query without anything to look at is not looked at)
        self.COMPLETE = case.get('complete', True) and '$neq' not in (t := str(case['spec']).split("'assert'")[-1]) and "'$eq': 0" not in t
        return super().judge(case, tree, o)

    def bounds(self, tier):
        return ('5 proficiencies x 8 marks x other marks x course rules x records x exceptions; pairs of proficiencies in 8 shapes; 9 lists of areas x 16 filters x 6 operators x bounds; '
                '8 lists of performances x 14 filters x operators x bounds; up to 3 recitals; pairs of such rules in 5 groups')


PROP = P()
