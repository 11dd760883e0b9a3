"""Status: how the statuses of parts combine, in-progress work above all, for every combination of parts."""
from mc.auditprop import AuditProp
from mc.gen import q, qs, req, subj
from mc.world import area, course, exc, ip, student


def part(state, i, path):
    """(rule, transcript rows, exceptions) for a part which ends up in the given state"""
    s = f'S{i}'
    c = {'course': f'{s} 101'}
    if state == 'done':
        return c, [course(f'{s} 101', f'{i}1')], []
    if state == 'current':
        return c, [ip(f'{s} 101', f'{i}1')], []
    if state == 'registered':
        return c, [ip(f'{s} 101', f'{i}1', future=True)], []
    if state == 'incomplete':
        return c, [course(f'{s} 101', f'{i}1', grade='I', flag_in_progress=True, flag_incomplete=True, year='2019')], []
    if state == 'empty':
        return c, [], []
    if state == 'waived':
        return c, [course(f'{s} 101', f'{i}1')], [exc('override', [*path, f'*{s} 101'])]
    if state == 'waived-empty':
        return c, [], [exc('override', [*path, f'*{s} 101'])]
    if state == 'optional':
        return {**c, 'optional': True}, [], []
    if state == 'failed':
        return q(0, subj(s), op='$lte'), [course(f'{s} 101', f'{i}1')], []
    if state == 'more':
        return q(2, subj(s)), [course(f'{s} 101', f'{i}1')], []
    if state == 'half-ip':
        return q(2, subj(s)), [course(f'{s} 101', f'{i}1'), ip(f'{s} 102', f'{i}2')], []
    if state == 'half-reg':
        return q(2, subj(s)), [ip(f'{s} 101', f'{i}1'), ip(f'{s} 102', f'{i}2', future=True)], []
    if state == 'approval':
        return {'name': f'N{i}', 'department_audited': True}, [], []
    if state == 'contract':
        return req(f'N{i}', c, contract=True), [course(f'{s} 101', f'{i}1')], []
    if state == 'dept-ok':
        return {'name': f'N{i}', 'department_audited': True}, [], [exc('override', [*path, f'%N{i}'])]
    if state == 'req-waived':
        return req(f'N{i}', c), [], [exc('override', [*path, f'%N{i}'])]
    if state in ('spare-current', 'spare-registered', 'spare-failed'):
        # met by the finished course alone; the other one only counts for what looks at the group as a whole
        other = course(f'{s} 102', f'{i}2', grade='D') if state == 'spare-failed' else ip(f'{s} 102', f'{i}2', future=state == 'spare-registered')
        return q(1, subj(s), key='count(subjects)'), [course(f'{s} 101', f'{i}1'), other], []
    if state == 'grade':
        return {**c, 'grade': 'B'}, [ip(f'{s} 101', f'{i}1')], []
    raise KeyError(state)


STATES = ['done', 'current', 'registered', 'empty', 'waived', 'failed', 'more', 'approval', 'incomplete', 'optional', 'half-ip', 'half-reg', 'dept-ok',
          'req-waived', 'contract', 'waived-empty', 'grade']
SPARE = ['spare-current', 'spare-registered', 'spare-failed']
AUDITS = {
    'none': None,
    'ok': {'assert': {'count(courses)': {'$gte': 0}}},
    'some': {'assert': {'count(courses)': {'$gte': 2}}},
    'cap': {'assert': {'count(courses)': {'$lte': 1}}},
    'two': {'all': [{'assert': {'sum(credits)': {'$gte': 2}}}, {'assert': {'count(terms)': {'$gte': 2}}}]},
}
ASSERTS = {
    'done': {'count(courses)': {'$gte': 1}}, 'two': {'count(courses)': {'$gte': 2}}, 'three': {'count(courses)': {'$gte': 3}},
    'sum': {'sum(credits)': {'$gte': 2}}, 'lte': {'count(courses)': {'$lte': 2}}, 'lt': {'count(courses)': {'$lt': 1}}, 'terms': {'count(terms)': {'$gte': 2}},
    'ipok': {'count(courses)': {'$gte': 2, 'treat_in_progress_as_pass': True}}, 'waived': {'count(years)': {'$gte': 9}},
}


class P(AuditProp):
    ID = 'C14'
    TOPICS = {'status', 'rank', 'waive'}
    RULE = ('a case fails when the status or rank of a group, requirement, query or the area differs from the documented combination of its parts: in '
            'particular nothing that rests on unfinished courses is reported done')
    ASSUMPTIONS = []

    def worlds(self, tier):
        return [lambda ch: self.group(ch, tier), lambda ch: self.query(ch, tier), lambda ch: self.audited(ch, tier)]

    def audited(self, ch, tier):
        """group audits which count courses the parts could do without"""
        sets = [SPARE + ['done', 'current', 'registered', 'incomplete'], SPARE + ['done', 'current', 'registered', 'empty', 'waived-empty', 'optional', 'approval']]
        where = ch('where', ['inner', 'top'])
        base = ['$', '.count'] if where == 'top' else ['$', '.count', '[0]', '%R', '.count']
        items, rows, ex = [], [], []
        for i, states in enumerate(sets):
            r, c, e = part(ch(f'part{i}', states), i, [*base, f'[{i}]'])
            items.append(r)
            rows += c
            ex += e
        n = ch('n', [1, 2, 3, 4] if tier == 'thorough' else [2, 3])
        clauses = {'count': {'count(courses)': {'$gte': n}}, 'sum': {'sum(credits)': {'$gte': n}}, 'terms': {'count(terms)': {'$gte': n}}, 'cap': {'count(courses)': {'$lte': n}},
                   'one': {'count(courses)': {'$lte': 1}}, 'gpa': {'average(grades)': {'$gte': f'{n}.00'}}}
        one = {'assert': clauses[ch('clause', [x for x in clauses if x != 'one' or n == 2])]}
        other = ch('second', [None, {'assert': {'count(courses)': {'$gte': 2}}}, {'assert': {'count(subjects)': {'$gte': 2}}, 'where': {'level': {'$eq': 100}}}])
        if ch('waived', [False, True] if tier == 'thorough' or n == 2 else [False]):
            ex.append(exc('override', [*base, '.audit', '[0]', '.assert']))
        group = {ch('kind', ['all', 'any']): items, 'audit': {'all': [one, other]} if other else one}
        return {'student': student(rows, exceptions=ex), 'spec': area(group if where == 'top' else {'all': [req('R', group)]})}

    def group(self, ch, tier):
        n = 3
        if tier == 'quick':
            sets = [STATES[:12], STATES[:8], STATES]
        else:
            sets = [STATES] * 3
        kinds = ch('kind', ['all', 'any', '1', '2', '2most', '1most'])
        where = ch('where', ['inner', 'top'])
        aud = ch('audit', list(AUDITS) if where == 'inner' and kinds in ('all', '2', 'any') and tier == 'thorough' else ['none', 'some'] if where == 'inner' else ['none'])
        base = ['$', '.count'] if where == 'top' else ['$', '.count', '[0]', '%R', '.count']
        items, rows, ex = [], [], []
        for i in range(n):
            r, c, e = part(ch(f'part{i}', sets[i]), i, [*base, f'[{i}]'])
            items.append(r)
            rows += c
            ex += e
        group = {'all': {'all': items}, 'any': {'any': items}, '1': {'count': 1, 'of': items}, '2': {'count': 2, 'of': items},
                 '2most': {'count': 2, 'at_most': True, 'of': items}, '1most': {'count': 1, 'at_most': True, 'of': items}}[kinds]
        if AUDITS[aud]:
            group = {**group, 'audit': AUDITS[aud]}
        spec = area(group if where == 'top' else {'all': [req('R', group)]})
        return {'student': student(rows, exceptions=ex), 'spec': spec}

    def query(self, ch, tier):
        names = list(ASSERTS)
        picks = [ch('a', names), ch('b', [None] + names), ch('c', [None] + names if tier == 'thorough' else [None, 'waived', 'terms', 'lte'])]
        picks = [p for p in picks if p]
        ex = [exc('override', ['$', '.count', '[0]', '.query', '.assertions', f'[{i}]', '.assert']) for i, p in enumerate(picks) if p == 'waived']
        rows = []
        for i in range(3 if tier == 'quick' else 4):
            k = ch(f'course{i}', ['done', 'current', 'registered', None, 'incomplete'])
            if k:
                rows += part(k, i, [])[1]
        rule = qs([ASSERTS[p] for p in picks])
        rule.update(ch('mode', [{}, {'claim': False}] if tier == 'thorough' else [{}]))
        return {'student': student(rows, exceptions=ex), 'spec': area({'all': [rule]})}

    def bounds(self, tier):
        return ('groups of 3 parts in 17 states each (quick 12 x 8 x 17) under 6 kinds of group, at the top and inside a requirement, with 2-5 group audits; '
                'group audits over parts with spare unfinished courses; '
                'queries with every 1-3 of 9 assertions over every 3-4 courses in 5 states')


PROP = P()
