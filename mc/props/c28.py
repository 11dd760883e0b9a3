"""The search looks at every combination of the ways to meet the parts, each of them once."""
import copy
import itertools
from functools import partial

from mc.core import Property, explore
from mc.gen import q, qs, req, rows, subj
from mc.world import area, course, run_audit, student

C, Z = {'course': 'CCC 101'}, {'course': 'ZZZ 101'}
ANY = {'subject': {'$neq': 'CCC'}}  # (a course which a mandatory rule names is kept out of queries)
# name: (the rule, which courses match, how many it takes at least, and at most)
LEAVES = {
    'C1': (C, 'course', 1, 1), 'Z': (Z, 'course', 1, 1),
    'q1': (q(1, ANY), '', 1, None), 'q2': (q(2, ANY), '', 2, None), 'qA': (q(1, subj('AAA')), 'AAA', 1, None), 'qA2': (q(2, subj('AAA')), 'AAA', 2, None), 'qA3': (q(3, subj('AAA')), 'AAA', 3, None),
    'qB': (q(1, subj('BBB')), 'BBB', 1, None), 'qZ': (q(1, subj('ZZZ')), 'ZZZ', 1, None), 'low': (q(1, subj('AAA'), op='$lte'), 'AAA', 0, 1), 'none': (q(0, subj('BBB'), op='$lte'), 'BBB', 0, 0),
    'sum': (q('1.5', subj('AAA'), key='sum(credits)'), 'AAA', 1.5, 'credits'), 'sum3': (q('3', ANY, key='sum(credits)'), '', 3, 'credits'), 'gpa': (q('2.5', subj('AAA'), key='average(grades)'), 'AAA', 1, None),
    'both': (qs([{'count(courses)': {'$gte': 1}}, {'sum(credits)': {'$gte': '2'}}], subj('BBB')), 'BBB', 1, None),
}
TAKEN = {'abcd': 'abcd', 'abc+': 'abc', 'ac': 'ac', 'a+': 'a', '+': '', '': ''}
HOW = ['all', 'any', '1', '2', '1most', '2most']


def subsets(items, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.combinations(items, n)


class Node:
    """one rule of the model: what it says, whether there is anything for it, and its solutions as {path: what was chosen there}"""


class Leaf(Node):
    def __init__(self, name, taken):
        self.rule, what, lo, hi = LEAVES[name]
        have = [c for c in taken if f"{c['subject']} {c['number']}" == self.rule.get('course')] if what == 'course' else [c for c in taken if c['subject'].startswith(what) and c['subject'] != 'CCC']
        ids = [c['clbid'] for c in have]
        self.tag = '*' + self.rule['course'] if what == 'course' else '.query'
        self.potential = bool(ids) or lo == 0
        if what == 'course':
            self.ways = ['taken'] if ids else ['-']
        else:
            if hi == 'credits':
                # every selection which reaches the credits; all there is if that is too little
                total = lambda s: sum(float(c['credits']) for c in s)  # noqa: E731
                self.ways = [frozenset(c['clbid'] for c in s) for s in subsets(have, 1, len(have)) if total(s) >= lo] or [frozenset(ids)]
                return
            self.ways = [frozenset(s) for s in subsets(ids, min(lo, len(ids)), len(ids) if hi is None else min(hi, len(ids)))]

    def spec(self):
        return copy.deepcopy(self.rule)

    def solutions(self, path):
        return [{(*path, self.tag): w} for w in self.ways]


class Req(Node):
    def __init__(self, name, child):
        self.name, self.child, self.potential = name, child, child.potential

    def spec(self):
        return req(self.name, self.child.spec())

    def solutions(self, path):
        return self.child.solutions((*path, '%' + self.name))


class Group(Node):
    def __init__(self, how, children):
        self.how, self.children = how, children
        self.potential = any(c.potential for c in children)
        self.count = {'all': len(children), 'any': 1}.get(how) or int(how[0])

    def spec(self):
        items = [c.spec() for c in self.children]
        return {self.how: items} if self.how in ('all', 'any') else {'count': self.count, 'of': items, **({'at_most': True} if 'most' in self.how else {})}

    def solutions(self, path):
        path = (*path, '.count')
        able = [(i, c) for i, c in enumerate(self.children) if c.potential]
        hi = self.count if 'most' in self.how else len(self.children)
        sizes = [n for n in range(self.count, hi + 1) if n <= len(able)] or [len(able)]
        out = []
        for n in sizes:
            for chosen in itertools.combinations(able, n):
                for ways in itertools.product(*(c.solutions((*path, f'[{i}]')) for i, c in chosen)):
                    out.append({k: v for w in ways for k, v in w.items()})
        return out


class Cond(Node):
    def __init__(self, true, child, other):
        self.true, self.child, self.other = true, child, other
        self.chosen = child if true else other
        self.potential = bool(self.chosen) and self.chosen.potential

    def spec(self):
        d = {'$if': {'has-course': 'AAA 101'}, '$then': self.child.spec()}
        return {**d, '$else': self.other.spec()} if self.other else d

    def solutions(self, path):
        return self.chosen.solutions((*path, '.cond', '/t' if self.true else '/f')) if self.chosen else [{}]


def seen(tree):
    out = {}

    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get('state') != 'rule':
            if n.get('type') == 'query':
                out[tuple(n['path'])] = frozenset(o['value'][1:] for o in n['output'])
            elif n.get('type') == 'course':
                out[tuple(n['path'])] = 'taken'
        if n.get('type') == 'conditional':
            # only the branch which the condition selects is looked at
            walk(n['when_true'] if n['condition'].get('result') else n.get('when_false'))
            return
        for v in (n.get('items') or []) + [n.get('result')]:
            walk(v)
    walk(tree)
    return out


def world(ch, tier):
    kind = ch('kind', ['product', 'leaf', 'group', 'nested', 'wrapped'])
    if kind == 'product':
        n = ch('iterables', [0, 1, 2, 3])
        return dict(kind=kind, sizes=[ch(f'size{i}', [0, 1, 2, 3]) for i in range(n)], repeat=ch('repeat', [1, 0, 2, 3] if n < 3 else [1, 2]))
    taken = ch('taken', list(TAKEN))
    if kind == 'leaf':
        return dict(kind=kind, taken=taken, tree=ch('leaf', list(LEAVES)))
    few = ['C1', 'Z', 'qA', 'qA2', 'qA3', 'qB', 'qZ', 'low', 'sum', 'gpa'] + (['q1', 'q2', 'none'] if tier == 'thorough' else [])
    if kind == 'group':
        how = ch('how', HOW)
        n = ch('n', [2, 3] if how[0] == '2' else [1, 2, 3])
        return dict(kind=kind, taken=taken, tree=[how, *[ch(f'c{i}', few if n < 3 or tier == 'thorough' else few[::2] + ['qB']) for i in range(n)]])
    two = [ch('x', ['C1', 'qA', 'qA3', 'low', 'qZ']), ch('y', ['qB', 'Z', 'qA2', 'low'])]
    if kind == 'nested':
        inner = [ch('inner', HOW), *two]
        return dict(kind=kind, taken=taken, tree=[ch('outer', HOW), inner, ch('z', ['qA', 'Z', 'q2'])])
    return dict(kind=kind, taken=taken, tree=[ch('outer', ['all', 'any', '2most']), ch('wrap', [['req', two[0]], ['if', two[0]], ['ifelse', *two], ['req', ['any', *two]], ['if', ['any', *two]]]), ch('z', ['qB', 'Z'])])


def build(tree, taken):
    if isinstance(tree, str):
        return Leaf(tree, taken)
    head, *rest = tree
    kids = [build(t, taken) for t in rest if t]
    if head == 'req':
        return Req('R', kids[0])
    if head in ('if', 'ifelse'):
        has = any(c['subject'] == 'AAA' and c['number'] == '101' for c in taken)
        return Cond(has, kids[0], kids[1] if len(kids) > 1 else None)
    return Group(head, kids)


class P(Property):
    ID = 'C28'
    RULE = ('a case fails when lazy_product does not yield what itertools.product yields, in its order; or when the solutions which an audit of an area that never is done goes through are not '
            'exactly the combinations of the solutions of its parts, each once')
    BUDGET = {'quick': 300, 'thorough': 3000}
    ASSUMPTIONS = ['the solutions are observed through the results which an audit with print_all reports', 'an impossible audit clause at the top keeps the search going and the shortcut out']

    def cases(self, tier):
        yield from explore(lambda ch: world(ch, tier))

    def bounds(self, tier):
        return 'products of up to 3 iterables of up to 3 items, repeated up to 3 times; groups of up to 3 rules, groups in groups, requirements and conditionals, every count, over up to 4 courses'

    def run_case(self, case):
        if case['kind'] == 'product':
            return self.product(case)
        taken = rows(TAKEN[case['taken']]) + ([course('CCC 101', '9')] if '+' in case['taken'] else [])
        root = build(case['tree'], taken)
        want = root.solutions(('$', '.count', '[0]'))
        spec = area({'all': [root.spec()], 'audit': {'assert': {'count(courses)': {'$gte': 99}}}})
        o = run_audit(student(taken), spec, print_all=True)
        got = [seen(m.result.to_dict()) for m in o.messages if hasattr(m, 'result')]
        if not root.potential:
            want = [{}]
        count = lambda sols: sorted((sorted((str(k), str(sorted(v)) if not isinstance(v, str) else v) for k, v in s.items()) for s in sols))  # noqa: E731
        want, got = count(want), count(got)
        bad = []
        if want != got:
            lost = [w for w in want if w not in got][:2]
            more = [g for g in got if g not in want][:2]
            bad.append(f'{len(want)} combinations, the search went through {len(got)}; not tried {lost}; tried besides {more}')
        return bad, [case['tree'], case['taken'], len(got)], 1

    def product(self, case):
        from dp.lazy_product import lazy_product
        items = [[f'{i}{j}' for j in range(n)] for i, n in enumerate(case['sizes'])]
        want = list(itertools.product(*items, repeat=case['repeat']))
        bad = []
        try:
            got = list(itertools.islice(lazy_product(*(partial(iter, x) for x in items), repeat=case['repeat']), len(want) + 5))
        except Exception as e:
            return [f'crash: lazy_product of iterables of {case["sizes"]} items, repeat={case["repeat"]}: {type(e).__name__}'], 'crash', 1
        if got != want:
            bad.append(f'lazy_product of iterables of {case["sizes"]} items, repeat={case["repeat"]}: {got[:6]} instead of {want[:6]}')
        return bad, [case['sizes'], len(got)], 1


PROP = P()
