"""Completeness: when some way of assigning the courses finishes the area, the audit finds one."""
import copy

from mc import gen
from mc.auditprop import AuditProp
from mc.gen import q, qs, req, subj
from mc.props.c01 import COMPETE, MULTI as MULTIS, SHAPES
from mc.world import area, student

EXTRA = {
    'eq1': q(1, subj('AAA'), op='$eq'),
    'eq2x': qs([{'where': {'level': {'$eq': 100}}, 'assert': {'count(courses)': {'$eq': 1}}}, {'count(courses)': {'$gte': 2}}]),
    'eqw': qs([{'where': {'level': {'$eq': 100}}, 'assert': {'count(courses)': {'$eq': 1}}}, {'count(subjects)': {'$gte': 2}}]),
    'eqt': qs([{'count(terms)': {'$eq': 2}}, {'sum(credits)': {'$gte': '2.5'}}]),
    'gt1': q(1, op='$gt'),
    'gt2': q(2, op='$gt'),
    'lte1': qs([{'sum(credits)': {'$gte': 2}}, {'where': subj('AAA'), 'assert': {'count(courses)': {'$lte': 1}}}]),
    'lt': qs([{'sum(credits)': {'$gte': 1}}, {'count(courses)': {'$lt': 2}}]),
    'wherec': qs([{'count(courses)': {'$gte': 1}}, {'where': subj('BBB'), 'assert': {'count(courses)': {'$gte': 1}}}]),
    'sumlte': qs([{'sum(credits)': {'$gte': 1}}, {'where': subj('BBB'), 'assert': {'sum(credits)': {'$lte': 1}}}]),
    'subjects': qs([{'count(subjects)': {'$gte': 2}}, {'sum(credits)': {'$gte': 2}}]),
    'gpa': qs([{'average(grades)': {'$gte': '3.00'}}, {'count(courses)': {'$gte': 2}}]),
    'ifa': qs([{'$if': {'has-course': 'AAA 101'}, '$then': {'assert': {'count(courses)': {'$gte': 1}}}, '$else': {'assert': {'count(courses)': {'$gte': 3}}}}]),
    'nif': qs([{'$if': {'has-course': 'ZZZ 101'}, '$then': {'assert': {'count(courses)': {'$gte': 3}}}, '$else': {'assert': {'count(courses)': {'$gte': 1}}}}]),
    'whenx': qs([{'count(courses)': {'$gte': 1}},
                 {'$when': {'query-has-course-with-attribute': 'att_x'}, '$then': {'assert': {'count(courses)': {'$gte': 2}}}}]),
    'limit': q(2, limit=[{'at_most': 1, 'where': subj('AAA')}]),
    'auditc': {'any': [{'course': 'AAA 101'}, {'course': 'BBB 101'}, {'course': 'AAA 201'}],
               'audit': {'assert': {'count(courses)': {'$gte': 2}}}},
    'nest': {'all': [{'any': [{'course': 'AAA 101'}, q(2, subj('BBB'))]}, {'count': 1, 'of': [{'course': 'BBB 101'}, {'course': 'AAA 201'}]}]},
    'exact1': {'count': 1, 'at_most': True, 'of': [{'course': 'AAA 101'}, q(1, subj('AAA'))]},
}
MULTI = {**MULTIS, 'R+S+T': {'AAA 101': [['R'], ['S'], ['T']], 'BBB 101': [['S'], ['R']]}, 'R2': {'AAA 101': [['R'], ['R', 'S']], 'AAA 201': [['S'], ['R']]}}
SKIP = {'A2opt'}


class P(AuditProp):
    ID = 'C03'
    TOPICS = set()
    COMPLETE = True
    RULE = ('a case fails when exhaustive search over all assignments of courses to rules finds one that finishes the area and the audit '
            'reports anything but done or waived')
    ASSUMPTIONS = ['courses that a mandatory course rule needs are not offered to queries (the auditor documents this); optional course rules are '
                   'left out, because the auditor always uses the optional course when there is one']

    def worlds(self, tier):
        return [lambda ch: self.pairs(ch, tier), lambda ch: self.triples(ch, tier), lambda ch: self.asserts(ch, tier), lambda ch: self.audits(ch, tier), lambda ch: self.shared(ch, tier)]

    def judge(self, case, tree, o):
        # a choice between parts goes by rank, in which two half-finished parts may be more than one which is pending;
        # the same goes for the assertions of one query
        text = str(case['spec']['result'])
        self.PENDING = not any(x in text for x in ("'any'", "'count': ", "'audit'", "'either'")) and not self.several(case['spec']['result'])
        return super().judge(case, tree, o)

    def several(self, x):
        if isinstance(x, dict):
            return ('from' in x and len(x.get('all', x.get('any', []))) > 1) or any(self.several(v) for v in x.values())
        return isinstance(x, list) and any(self.several(v) for v in x)

    def names(self):
        return [n for n in list(gen.LEAVES) + list(EXTRA) if n not in SKIP]

    def leaf(self, ch, name, names):
        k = ch(name, names)
        return copy.deepcopy(EXTRA.get(k) or gen.LEAVES[k])

    def pairs(self, ch, tier):
        names = self.names()
        x, y = self.leaf(ch, 'x', names), self.leaf(ch, 'y', names)
        shape = ch('shape', ['all', 'any', 'req'])
        items = [x, req('R', y)]
        spec = {'all': items} if shape == 'all' else {'all': [{'any': items}]} if shape == 'any' else {'all': [req('Outer', {'all': items}), {'course': 'BBB 201'}]}
        keys = ch('courses', ['abcd', 'abc', 'acdp', 'bcf', 'api', 'ac'] if tier == 'quick' else
                  ['abcd', 'abc', 'acdp', 'abcf', 'bcf', 'api', 'ac', 'bd', 'abcdp', 'cdf', 'ab', 'a', ''])
        return {'student': student(gen.rows(keys)), 'spec': area(spec)}

    def triples(self, ch, tier):
        names = ['A1', 'qA1', 'qA2', 'q1x', 'sum15', 'sumA', 'any', 'two', 'one', 'lte1', 'subjects'] if tier == 'quick' else \
            [n for n in self.names() if n not in ('B1', 'A2', 'lt', 'gt1', 'ifa')]
        x, y, z = (self.leaf(ch, n, names) for n in 'xyz')
        shape = ch('shape', ['all', '2of3'])
        spec = {'all': [x, y, req('R', z)]} if shape == 'all' else {'all': [{'count': 2, 'of': [x, y, req('R', z)]}]}
        keys = ch('courses', ['abcd', 'abcp'])
        return {'student': student(gen.rows(keys)), 'spec': area(spec)}

    def asserts(self, ch, tier):
        """one query with every pair of counting assertions, beside a rule which competes with it"""
        keys = ['count(courses)', 'sum(credits)', 'count(terms)', 'count(subjects)']
        out = []
        for n in 'xy':
            key = ch('key-' + n, keys + ([None] if n == 'y' else []))
            if key is None:
                break
            op = ch('op-' + n, ['$gte', '$gt', '$lt', '$lte', '$eq', '$neq'])
            a = {key: {op: ch('bound-' + n, [1, 2] if tier == 'quick' else [0, 1, 2, 3])}}
            where = ch('where-' + n, [None, subj('AAA')])
            out.append(a if where is None else {'where': where, 'assert': a})
        beside = ch('beside', [None, {'course': 'AAA 101'}])
        keys = ch('courses', ['abc'] if tier == 'quick' else ['abc', 'abcd', 'ab', 'a', 'abp'])
        return {'student': student(gen.rows(keys)), 'spec': area({'all': [qs(out)] + ([req('R', beside)] if beside else [])})}

    def shared(self, ch, tier):
        """rules which may share a course, as the area file says, in every nesting"""
        names = ['course', 'query', 'query2', 'any', 'every'] + ([] if tier == 'quick' else ['sum', 'free', 'look', 'record'])
        x, y, z = [copy.deepcopy(COMPETE[ch(f'rule{i}', names)]) for i in range(3)]
        shape = ch('shape', list(SHAPES))
        multi = MULTI[ch('multi', [m for m in MULTI if m != 'none' and (m.startswith('R/S/') <= (shape == 'steps'))])]
        kw = {'disjoint': ch('disjoint', [None, True] if tier == 'quick' else [None, True, False])}
        kw = {k: v for k, v in kw.items() if v is not None}
        spec = SHAPES[shape](x, y, z)
        for i in spec['all']:
            if 'name' in i:
                i.update(kw)
                break
        keys = ch('courses', ['ac'] if tier == 'quick' else ['ac', 'abp', 'a', 'ap', 'abc', 'bc'])
        return {'student': student(gen.rows(keys)), 'spec': area(spec, multicountable=multi)}

    def audits(self, ch, tier):
        """a group which also asks something of all the courses its parts use"""
        names = ['A1', 'B1', 'qA1', 'q1x', 'one', 'two', 'sum15', 'lt', 'subjects'] + ([] if tier == 'quick' else ['any', 'qA2', 'lte1', 'wherec', 'sumlte', 'exact1'])
        items = [self.leaf(ch, 'x', names), req('R', self.leaf(ch, 'y', names))] + ([{'course': 'AAA 201'}] if ch('third', [False, True]) else [])
        asked = ch('asked', [{'count(courses)': {'$gte': 3}}, {'count(courses)': {'$lt': 2}}, {'count(courses)': {'$eq': 2}}, {'count(courses)': {'$neq': 1}}, {'sum(credits)': {'$gte': '2.5'}},
                             {'sum(credits)': {'$lte': '1.5'}}, {'count(subjects)': {'$gte': 2}}, {'count(subjects)': {'$lt': 2}}, {'average(grades)': {'$gte': '3.30'}}])
        where = ch('where', [None, subj('BBB')])
        audit = {'audit': {'assert': asked} if where is None else {'all': [{'where': where, 'assert': asked}]}}
        group = ch('group', [{'all': items}, {'any': items}, {'count': 2, 'of': items}])
        top = ch('top', ['group', 'beside']) if tier != 'quick' else 'beside'
        spec = {'all': [{**group, **audit}] + ([{'any': [{'course': 'BBB 101'}, {'course': 'AAA 101'}]}] if top == 'beside' else [])}
        return {'student': student(gen.rows(ch('courses', ['abcd', 'abc'] if tier == 'quick' else ['abcd', 'abc', 'acdp', 'ac', 'bcf', 'a']))), 'spec': area(spec)}

    def bounds(self, tier):
        return 'every pair of 40 rule kinds in 3 nestings x 6-13 transcripts of up to 4-5 courses; every triple of 11 (thorough 33) rule kinds in 2 nestings; every one or two counting assertions (4 aggregates x 6 operators x bounds x filter) of a query, alone and beside a competing rule; every triple of 5 (thorough 9) competing rules in 6 nestings x 7-9 multicountable lists x disjoint'


PROP = P()
