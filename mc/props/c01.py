"""No double counting: every exclusive use of a course is the only one, except as the area file allows."""
import copy

from mc import gen
from mc.auditprop import AuditProp
from mc.gen import q, req, subj
from mc.world import area, exc, student

# rules which all compete for AAA 101
COMPETE = {
    'course': {'course': 'AAA 101'},
    'query': q(1, subj('AAA')),
    'query2': q(2, subj('AAA')),
    'sum': q(1, subj('AAA'), key='sum(credits)'),
    'any': {'any': [{'course': 'AAA 101'}, {'course': 'BBB 101'}]},
    'every': q(1),
    'free': {'course': 'AAA 101', 'allow_claimed': True},
    'look': q(1, subj('AAA'), claim=False),
    'record': q(1, subj('AAA'), claim='record'),
    'recycle': {'from': 'claimed', 'where': subj('AAA'), 'assert': {'count(courses)': {'$gte': 1}}},
    'reuse': {'course': 'AAA 101', 'from_claimed': True},
}
SHAPES = {
    # where the three competing rules sit; multicountable lists name R, S, R/S
    'flat': lambda x, y, z: {'all': [x, req('R', y), req('S', z)]},
    'nested': lambda x, y, z: {'all': [req('R', {'all': [x, req('S', y)]}), z]},
    'same': lambda x, y, z: {'all': [req('R', {'all': [x, y]}), req('S', z)]},
    'wrapped': lambda x, y, z: {'all': [x, {'all': [y]}, {'any': [z, req('S', {'course': 'CCC 101'})]}]},
    'deep': lambda x, y, z: {'all': [req('R', req('S', {'all': [x, y]})), req('S', z)]},
    'steps': lambda x, y, z: {'all': [req('S', x), req('R', {'all': [req('S', {'all': [req('T', z)]}), y]})]},
}
MULTI = {
    'none': None,
    'R': {'AAA 101': [['R']]},
    'R+S': {'AAA 101': [['R'], ['S']]},
    'R/S': {'AAA 101': [['R', 'S']]},
    'R/S+S': {'AAA 101': [['S'], ['R', 'S']]},
    'BBB': {'BBB 101': [['R'], ['S']]},
    'R/S/T': {'AAA 101': [['S'], ['R', 'S', 'T'], ['R']]},
    'R/S/': {'AAA 101': [['S'], ['R', 'S'], ['T'], ['S', 'T'], ['R', 'T']]},
}


class P(AuditProp):
    ID = 'C01'
    TOPICS = {'claims', 'required'}
    RULE = ('a case fails when two exclusive claims on one course coexist in an emitted result (beyond the multicountable list), a query '
            'counts a course twice, an unselected or waived rule holds a course, or a re-use rule shows a course nothing claimed')
    ASSUMPTIONS = ['the result tree handed to the student is what counts; the internal claim table is not inspected']

    def worlds(self, tier):
        return [lambda ch: self.compete(ch, tier), lambda ch: self.mixed(ch, tier), lambda ch: self.exceptions(ch, tier)]

    def compete(self, ch, tier):
        names = list(COMPETE)
        x, y, z = [copy.deepcopy(COMPETE[ch(f'rule{i}', names)]) for i in range(3)]
        shape = ch('shape', list(SHAPES))
        multi = ch('multi', ['none'] if shape == 'wrapped' else list(MULTI) if shape == 'steps' else list(MULTI)[:-2])
        keys = ch('courses', ['ac', 'abp', 'a', 'ap', 'abc', ''] if tier == 'thorough' else ['ac', 'abp'] if multi in ('none', 'R+S') else ['ac'])
        kw = {'multicountable': MULTI[multi]} if MULTI[multi] else {}
        return {'student': student(gen.rows(keys)), 'spec': area(SHAPES[shape](x, y, z), **kw)}

    def mixed(self, ch, tier):
        names = list(gen.LEAVES)
        n = 2 if tier == 'quick' else 3
        ls = [copy.deepcopy(gen.LEAVES[ch(f'leaf{i}', names)]) for i in range(n)]
        items = [ls[0]] + [req(f'R{i}', x) for i, x in enumerate(ls[1:])]
        top = ch('top', ['all', 'any', 'two'])
        spec = {'all': items} if top == 'all' else {'any': items} if top == 'any' else {'all': [{'count': n, 'of': items + [{'course': 'BBB 201'}]}]}
        keys = ch('courses', ['abcd', 'abcp', 'abcf', 'acdp', 'ab', 'bcd', 'api', ''] if tier == 'quick' else ['abcd', 'acdp', 'api'])
        return {'student': student(gen.rows(keys)), 'spec': area(spec)}

    def exceptions(self, ch, tier):
        """an exception on one of two competing rules"""
        a = ch('first', ['course', 'query', 'query2', 'every', 'any'])
        b = ch('second', ['course', 'query', 'query2', 'every', 'look', 'recycle'])
        spec = {'all': [copy.deepcopy(COMPETE[a]), req('R', copy.deepcopy(COMPETE[b]))]}
        p1 = ['$', '.count', '[0]'] + {'course': ['*AAA 101'], 'any': ['.count']}.get(a, ['.query'])
        p2 = ['$', '.count', '[1]', '%R'] + {'course': ['*AAA 101']}.get(b, ['.query'])
        ex = []
        for i, p in enumerate((p1, p2)):
            kind = ch(f'exc{i}', [None, 'insert', 'force-insert', 'override'])
            if kind == 'override':
                ex.append(exc(kind, p))
            elif kind:
                ex.append(exc(kind, p, clbid=ch(f'target{i}', ['1', '3'])))
        keys = ch('courses', ['ac', 'abc', 'acp'])
        return {'student': student(gen.rows(keys), exceptions=ex), 'spec': area(spec)}

    def bounds(self, tier):
        return ('every triple of 11 competing rules x 6 nestings x 6-8 multicountable lists x 1-2 (thorough 6) transcripts; every pair (thorough: triple) of 22 '
                'rule kinds under all/any/count; every pair of exceptions on two competing rules')


PROP = P()
