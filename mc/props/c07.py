"""Limits: nothing emitted exceeds one, and no selection which they all allow is out of reach."""
import copy

from mc.auditprop import AuditProp
from mc.gen import q, req, subj
from mc.world import area, course, exc, ip, student

ROWS = [
    course('AAA 101', '1', year='2018', term='1'),
    course('AAA 201', '2', year='2018', term='3', credits='0.50'),
    course('BBB 101', '3', year='2019', term='1', attributes=['x']),
    course('AAA 102', '4', year='2019', term='1', credits='0.00'),
    ip('BBB 201', '5', attributes=['x']),
    course('AAA 301', '6', year='2019', term='3', attributes=['x'], credits='0.25'),
]
WHERE = {
    'AAA': subj('AAA'),
    'x': {'attributes': {'$eq': 'x'}},
    'low': {'level': {'$lt': 200}},
    'any': {'level': {'$gte': 100}},
    'two': {'$and': [subj('AAA'), {'level': {'$lt': 300}}]},
}
CAPS = [1, 0, 2, '1 credit', '0.50 credits', '1.25 credits', '3 credits', '1 course']
RULES = {
    'two': [q(2)],
    'three': [q(3)],
    'sum2': [q(2, key='sum(credits)')],
    'sum175': [q('1.75', key='sum(credits)')],
    'pair': [q(1, subj('AAA')), q(2)],
    'mix': [{'course': 'AAA 101'}, q(2)],
    'terms': [q(2, key='count(terms)')],
    'free': [{'course': 'AAA 101'}, q(2, allow_claimed=True)],
    'look': [q(2, claim=False)],
    'lookfree': [{'course': 'AAA 101'}, q(3, claim=False, allow_claimed=True)],
}


class P(AuditProp):
    ID = 'C07'
    TOPICS = {'limits', 'status', 'claims', 'shape', 'assert', 'match'}
    COMPLETE = True
    RULE = ('a case fails when the courses that count exceed a limit of the area or of a query (force-inserted ones aside), or when a selection '
            'exists which keeps every limit and finishes the area, and the audit reports something else')
    ASSUMPTIONS = []

    def worlds(self, tier):
        return [lambda ch: self.one(ch, tier), lambda ch: self.two(ch, tier), lambda ch: self.excs(ch, tier), lambda ch: self.places(ch, tier)]

    def places(self, ch, tier):
        """exceptions of every kind naming a course which an area limit may leave out"""
        spec = area({'all': [{'course': 'AAA 101'}, {'any': [{'course': 'ZZZ 101'}, {'course': 'ZZZ 102'}]}, req('Q', q(1)),
                             {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 0}}}]},
                    limit=[self.limit(ch, 'l', [1, '1.25 credits'] if tier == 'quick' else [1, 0, '1 credit', '1.25 credits'])])
        ex = []
        for name, path in (('course', ['[0]', '*AAA 101']), ('any', ['[1]', '.count']), ('alt', ['[1]', '.count', '[0]', '*ZZZ 101']),
                           ('query', ['[2]', '%Q', '.query']), ('assert', ['[2]', '%Q', '.query', '.assertions', '[0]', '.assert']),
                           ('claimed', ['[3]', '.query'])):
            if len(ex) < 2:
                kind = ch(name, [None, 'insert', 'force-insert', 'block'] if name != 'any' else [None, 'insert', 'force-insert'])
                if kind:
                    ex.append(exc(kind, ['$', '.count', *path], clbid=ch(name + 'which', ['1', '2', '3'] if len(ex) == 0 and tier != 'quick' else ['1', '3'])))
        cs = [copy.deepcopy(ROWS[i]) for i in ch('has', [(0, 1, 2, 5), (0, 1, 2)] if tier != 'quick' else [(0, 1, 2, 5)])]
        return {'student': student(cs, exceptions=ex), 'spec': spec}

    def limit(self, ch, name, caps, keys=('at_most',)):
        return {ch(name + 'key', list(keys)): ch(name + 'cap', caps), 'where': copy.deepcopy(WHERE[ch(name + 'where', list(WHERE))])}

    def rows(self, ch, n):
        return [copy.deepcopy(ROWS[i]) for i in range(n) if ch(f'has{i}', [True, False])]

    def spec(self, where, rules, limits):
        rules = copy.deepcopy(rules)
        if where == 'area':
            return area({'all': rules}, limit=limits)
        rules[-1]['limit'] = limits
        return area({'all': rules})

    def one(self, ch, tier):
        where = ch('where', ['area', 'query'])
        r = ch('rules', list(RULES))
        lim = self.limit(ch, 'l', CAPS)
        cs = self.rows(ch, 5 if tier == 'quick' else 6)
        return {'student': student(cs), 'spec': self.spec(where, RULES[r], [lim])}

    def two(self, ch, tier):
        where = ch('where', ['area', 'query'])
        r = ch('rules', ['sum175', 'pair', 'three', 'look'] if tier == 'quick' else list(RULES))
        a = self.limit(ch, 'a', [1, 2, '1 credit', '1.25 credits', '3 credits'])
        b = self.limit(ch, 'b', [1, '1 credit', '3 credits'], keys=('at most', 'at-most') if tier == 'thorough' else ('at most',))
        if tier == 'quick':
            cs = [copy.deepcopy(ROWS[i]) for i in ch('has', [(0, 1, 2, 3), (0, 1, 2, 5), (1, 2, 3, 4)])]
        else:
            cs = self.rows(ch, 5)
        return {'student': student(cs), 'spec': self.spec(where, RULES[r], [a, b])}

    def excs(self, ch, tier):
        where = ch('where', ['area', 'query'])
        r = ch('rules', ['two', 'sum2', 'mix', 'look'])
        lim = self.limit(ch, 'l', [0, 1, '1 credit'])
        more = ch('more', [None, {'at_most': 1, 'where': WHERE['x']}, {'at_most': '1 credit', 'where': WHERE['any']}])
        spec = self.spec(where, RULES[r], [lim] + ([copy.deepcopy(more)] if more else []))
        at = ['$', '.count', f'[{len(RULES[r]) - 1}]', '.query']
        if ch('where2', ['query', 'assert']) == 'assert':
            at = at + ['.assertions', '[0]', '.assert']
        ex = [exc(ch('kind', ['insert', 'force-insert']), at, clbid=ch('clbid', ['1', '2', '3']))]
        if ch('second', [False, True]):
            ex.append(exc(ch('kind2', ['insert', 'force-insert']), at, clbid='2'))
        cs = [copy.deepcopy(ROWS[i]) for i in ch('has', [(0, 1, 2), (0, 1, 2, 4), (0, 1, 2, 3)])]
        return {'student': student(cs, exceptions=ex), 'spec': spec}

    def bounds(self, tier):
        return ('one limit (8 caps x 5 filters) on the area or a query x 10 rule sets x every subset of 5-6 courses; every pair of limits (5x5 x 3x5); '
                '1-2 limits with 1-2 inserts or force-inserts')


PROP = P()
