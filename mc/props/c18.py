"""Conditions: $if, $when, $changes and constants do what the student's record says, and only that."""
import copy

from mc.auditprop import AuditProp
from mc.gen import q, req, subj
from mc.world import area, course, exc, ip, student

ATOMS = [
    {'has-course': 'AAA 101'}, {'has-ip-course': 'AAA 101'}, {'has-completed-course': 'AAA 101'}, {'has-course': 'AAA 101.L'},
    {'has-declared-area-code': '130'}, {'student-has-course-with-attribute': 'x'}, {'passed-proficiency-exam': 'Guitar'},
    {'passed-proficiency-exam': 'Keyboard Level II'}, {'has-override-exception': 'go'}, {'has-course': 'CCC 101'},
]
ROWS = {
    'a': lambda: course('AAA 101', '1'),
    'p': lambda: ip('AAA 101', '2'),
    'l': lambda: course('AAA 101', '3', sub_type='lab'),
    'x': lambda: course('BBB 101', '4', attributes=['x']),
    't': lambda: course('CCC 101', '5', flag_stolaf=False, institution_short='CARL', attributes=['x']),
    'f': lambda: course('AAA 101', '6', grade='F'),
    'b': lambda: course('BBB 102', '7', attributes=['y']),
    'w': lambda: course('BBB 103', '8', attributes=['x', 'y'], credits='0.50'),
}
AREAS = [[], [{'code': '130', 'kind': 'major', 'name': 'M', 'degree': 'B.A.', 'status': 'declared', 'dept': None, 'gpa': 0, 'terms': ['20181']}]]
PROFS = [{}, {'guitar': 'E'}, {'keyboard_2': 'E', 'guitar': 'N'}, {'guitar': 'C', 'keyboard_2': 'N'}]
DYN = [{'query-has-course-with-attribute': 'x'}, {'query-has-single-course-with-attribute': 'x'}, {'query-has-course-with-attribute': 'y'},
       {'$and': [{'query-has-course-with-attribute': 'x'}, {'query-has-course-with-attribute': 'y'}]},
       {'$or': [{'query-has-single-course-with-attribute': 'y'}, {'query-has-course-with-attribute': 'z'}]}]
ACTIONS = [{'add': 1}, {'subtract': 1}, {'set': 3}]


class P(AuditProp):
    ID = 'C18'
    TOPICS = None
    COMPLETE = True
    RULE = ('a case fails when a condition is not decided as the record says, the branch in force is not the one audited, an adjusted bound is not the one the '
            'conditions yield, or a condition which does not apply asks something of the student')

    def worlds(self, tier):
        return [lambda ch: self.atoms(ch), lambda ch: self.compound(ch, tier), lambda ch: self.shapes(ch, tier), lambda ch: self.changes(ch, tier),
                lambda ch: self.when(ch, tier), lambda ch: self.ifs(ch, tier)]

    def atoms(self, ch):
        c = ch('condition', ATOMS)
        if ch('not', [0, 1]):
            c = {'$not': c}
        rows = ch('rows', ['', 'a', 'p', 'l', 'x', 't', 'f', 'ap', 'fl', 'tl', 'pf', 'aplxtf'])
        stu = student([ROWS[k]() for k in rows], areas=copy.deepcopy(ch('areas', AREAS)), proficiencies=dict(ch('proficiencies', PROFS)))
        e = ch('exception', [None, ['go'], ['$', 'go'], ['stop']])
        if e:
            stu['exceptions'].append(exc('override', e))
        return {'student': stu, 'spec': area({'all': [{'$if': c, '$then': req('T', {'course': 'ZZZ 101'}), '$else': req('F', {'course': 'BBB 101'})}]})}

    def compound(self, ch, tier):
        """every and/or/not over conditions which are true or false"""
        t, f = {'has-course': 'AAA 101'}, {'has-course': 'ZZZ 101'}

        def expr(d):
            k = ch('kind', ['T', 'F'] + (['not', 'and', 'or', 'and3', 'or3'] if d else []))
            if k == 'T':
                return t
            if k == 'F':
                return f
            if k == 'not':
                return {'$not': expr(d - 1)}
            if k in ('and3', 'or3'):
                return {'$' + k[:-1]: [expr(0), expr(d - 1), expr(0)]}
            return {'$' + k: [expr(d - 1), expr(d - 1 if tier != 'quick' or d == 1 else 0)]}
        c = expr(2)
        return {'student': student([ROWS['a'](), ROWS['x']()]),
                'spec': area({'all': [{'$if': c, '$then': {'course': 'AAA 101'}, '$else': {'course': 'BBB 101'}}]})}

    def shapes(self, ch, tier):
        """branches of every kind, with and without $else, hidden, nested, inside groups; claims, required courses and limits around them"""
        yes = ch('true', [True, False])
        cond = {'has-course': 'AAA 101' if yes else 'ZZZ 101'}
        kinds = [{'course': 'AAA 101'}, {'course': 'BBB 101'}, q(1, subj('BBB')), {'any': [{'course': 'ZZZ 101'}, {'course': 'BBB 102'}]}, req('R', q(2)),
                 {'$if': {'has-course': 'BBB 102'}, '$then': {'course': 'BBB 102'}, '$else': q(1)}, {'course': 'ZZZ 101'}]
        r = {'$if': cond, '$then': copy.deepcopy(ch('then', kinds))}
        o = ch('else', [None] + kinds)
        if o:
            r['$else'] = copy.deepcopy(o)
        other = copy.deepcopy(ch('other', [{'course': 'BBB 101'}, q(1), q(2), q(1, allow_claimed=True), {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 1}}}]))
        shape = ch('shape', ['all', 'two', 'req'])
        # (hiding the whole of a requirement is rejected: it would have no result)
        if shape != 'req' and ch('hide', [0, 1]):
            r['$hide-when-false'] = True
        items = {'all': [r, other], 'two': [{'count': 2, 'of': [r, {'course': 'ZZZ 102'}, other]}], 'req': [req('Q', r), req('S', other)]}[shape]
        rows = ch('rows', ['axb', 'ab', 'xb', 'apx'] if tier != 'quick' else ['axb', 'ab'])
        return {'student': student([ROWS[k]() for k in rows]), 'spec': area({'all': items})}

    def changes(self, ch, tier):
        n = ch('changes', [0, 1, 2] + ([3] if tier != 'quick' else []))
        chg = [[{'has-course': 'AAA 101' if ch(f'true{i}', [1, 0]) else 'ZZZ 101'}, ch(f'action{i}', ACTIONS)] for i in range(n)]
        a = {'count(courses)': {ch('op', ['$gte', '$lte', '$eq', '$gt']): ch('bound', [1, 2]), '$changes': chg}}
        rows = ch('rows', ['a', 'ax', 'axb', 'xb', 'axbw', ''])
        stu = student([ROWS[k]() for k in rows])
        v = ch('value', [None, '2'])
        if v:
            stu['exceptions'].append({**exc('value', ['$', '.count', '[0]', '.query', '.assertions', '[0]', '.assert']), 'value': v})
        return {'student': stu, 'spec': area({'all': [{'from': 'courses', 'assert': a}, {'course': 'ZZZ 103', 'optional': True}]}), 'skip': 1}

    def when(self, ch, tier):
        d = ch('when', DYN)
        a = {'$when': d, '$then': {**ch('filter', [{}, {'where': {'attributes': {'$eq': 'y'}}}]), 'assert': {ch('key', ['count(courses)', 'sum(credits)']): {ch('op', ['$gte', '$lte']): ch('n', [1, 2, 3])}}}}
        rest = ch('rest', [[], [{'assert': {'count(courses)': {'$gte': 1}}}], [{'assert': {'count(courses)': {'$gte': 2}}}]])
        pos = ch('order', [0, 1] if rest else [0])
        al = rest + [a] if pos else [a] + rest
        rows = ch('rows', ['ax', 'axb', 'axw', 'b', 'xbw', 'xwt', ''] if tier == 'quick' else [k for k in map(''.join, _subsets('axbwt'))])
        other = ch('other', [None, {'course': 'BBB 101'}, q(1, subj('BBB'))])
        return {'student': student([ROWS[k]() for k in rows]),
                'spec': area({'all': [req('R', {'from': 'courses', 'all': copy.deepcopy(al)})] + ([other] if other else [])})}

    def ifs(self, ch, tier):
        c = {'has-course': 'AAA 101' if ch('true', [1, 0]) else 'ZZZ 101'}
        kinds = [{'count(courses)': {'$gte': 1}}, {'count(courses)': {'$gte': 2}}, {'count(courses)': {'$lte': 1}}, {'sum(credits)': {'$gte': '1.50'}}, {'count(subjects)': {'$gte': 2}}]
        a = {'$if': c, '$then': {'assert': ch('then', kinds)}}
        o = ch('else', [None] + kinds)
        if o:
            a['$else'] = {'assert': o}
        rest = ch('rest', [[], [{'assert': {'count(courses)': {'$gte': 1}}}], [{'where': subj('BBB'), 'assert': {'count(courses)': {'$gte': 1}}}]])
        rows = ch('rows', ['a', 'ax', 'axb', 'xb', 'b', 'ap', ''])
        place = ch('place', ['query', 'group'])
        if place == 'query':
            top = [req('R', {'from': 'courses', 'all': copy.deepcopy([a] + rest)}), q(1, subj('BBB'))]
        else:
            top = [req('R', {'any': [{'course': 'AAA 101'}, {'course': 'BBB 101'}], 'audit': {'all': copy.deepcopy([a] + rest)}})]
        return {'student': student([ROWS[k]() for k in rows]), 'spec': area({'all': top})}

    def judge(self, case, tree, o):
        self.COMPLETE = not case.get('skip')
        return super().judge(case, tree, o)

    def bounds(self, tier):
        return ('each condition x negated or not x 12 transcripts x declared areas x 4 proficiency records x 4 exceptions; every and/or/not expression to depth 2; 7 branches x 8 '
                'else branches x hidden or not x 5 neighbours x 3 nestings; 0-2 changes (thorough 3) x operators x bounds; $when and $if assertions in queries and groups')


def _subsets(s):
    import itertools
    return [c for n in range(len(s) + 1) for c in itertools.combinations(s, n)]


PROP = P()
