"""Shared material for the worlds: courses, leaf rules, ways of putting them together."""
from .world import course, ip, student, area, exc  # noqa: F401


def subj(s):
    return {'subject': {'$eq': s}}


def q(n, where=None, key='count(courses)', op='$gte', **kw):
    d = {'from': 'courses', 'assert': {key: {op: n}}}
    if where:
        d['where'] = where
    d.update(kw)
    return d


def qs(asserts, where=None, **kw):
    d = {'from': 'courses', 'all': [a if 'assert' in a or '$if' in a or '$when' in a else {'assert': a} for a in asserts]}
    if where:
        d['where'] = where
    d.update(kw)
    return d


def req(name, result, **kw):
    return {'name': name, 'result': result, **kw}


POOL = {
    'a': lambda: course('AAA 101', '1', year='2018', term='1', grade='B'),
    'b': lambda: course('AAA 201', '2', year='2018', term='3', grade='C', gereqs=['X']),
    'c': lambda: course('BBB 101', '3', year='2019', term='1', grade='A', attributes=['att_x'], gereqs=['X', 'Y']),
    'd': lambda: course('BBB 201', '4', year='2019', term='1', grade='B', credits='0.50'),
    # the same course once more, currently being taken / registered for
    'p': lambda: ip('AAA 101', '5'),
    'f': lambda: ip('BBB 101', '6', future=True),
    'i': lambda: ip('AAA 201', '7'),
}


def rows(keys):
    return [POOL[k]() for k in keys]


LEAVES = {
    'A1': {'course': 'AAA 101'},
    'A2': {'course': 'AAA 201'},
    'B1': {'course': 'BBB 101'},
    'A1g': {'course': 'AAA 101', 'grade': 'A'},
    'A2opt': {'course': 'AAA 201', 'optional': True},
    'A1free': {'course': 'AAA 101', 'allow_claimed': True},
    'qA1': q(1, subj('AAA')),
    'qA2': q(2, subj('AAA')),
    'q2': q(2),
    'q1x': q(1, {'gereqs': {'$eq': 'X'}}),
    'sum15': q(2, key='sum(credits)'),
    'sumA': q(1, subj('BBB'), key='sum(credits)'),
    'q100': q(1, {'level': {'$eq': 100}}),
    'terms2': q(2, key='count(terms)'),
    'subj2': q(2, key='count(subjects)'),
    'free2': q(2, allow_claimed=True),
    'look2': q(2, allow_claimed=True, claim=False),
    'atmost': qs([{'count(courses)': {'$gte': 1}}, {'where': {'level': {'$eq': 100}}, 'assert': {'count(courses)': {'$lte': 1}}}]),
    'any': {'any': [{'course': 'AAA 101'}, {'course': 'BBB 101'}]},
    'all': {'all': [{'course': 'AAA 101'}, {'course': 'AAA 201'}]},
    'two': {'count': 2, 'of': [{'course': 'AAA 101'}, {'course': 'AAA 201'}, {'course': 'BBB 101'}]},
    'one': {'count': 1, 'at_most': True, 'of': [{'course': 'AAA 201'}, {'course': 'BBB 101'}]},
}
TOPS = {
    'all': lambda items: {'all': items},
    'any': lambda items: {'any': items},
}
