"""Inserted courses: they count where they were put, exactly once, without the rule's own conditions, and nowhere they were not."""
from mc.auditprop import AuditProp
from mc.exworlds import base, places
from mc.world import exc, walk

KINDS = ['insert', 'force-insert']


class P(AuditProp):
    ID = 'C09'
    TOPICS = None
    COMPLETE = True
    RULE = ('a case fails when an inserted course does not count at its place although nothing else holds it (a force-inserted one: although anything '
            'holds it), counts there twice, or when the result around it is not what the area file, record and insertions mean')
    ASSUMPTIONS = ['a course which is the only match of a mandatory course rule is kept out of queries even if it is inserted there; force-inserting overrides that',
                   'insertions into a query are added on top of what it selects without them, which the auditor documents; so whether they could finish the area is '
                   'only checked for insertions into course rules and groups']

    def worlds(self, tier):
        return [lambda ch: self.one(ch, tier), lambda ch: self.two(ch, tier)]

    def at(self, stu, spec):
        return [p for k, p in places(stu, spec) if k in ('course', 'query', 'count', 'assert')]

    def one(self, ch, tier):
        name, spec, stu = base(ch, ['abcd', 'abp', 'bcd', 'acf', 'cd'])
        p = ch('path', self.at(stu, spec))
        kind = ch('kind', KINDS)
        c = ch('course', [x['clbid'] for x in stu['courses']])
        stu['exceptions'].append(exc(kind, p, clbid=c))
        if ch('again', [False, True]):
            stu['exceptions'].append(exc(kind, p, clbid=c))
        return {'student': stu, 'spec': spec}

    def two(self, ch, tier):
        specs = ['flat', 'nest', 'cond', 'multi', 'claim', 'opt'] if tier == 'quick' else None
        name, spec, stu = base(ch, ['abcd', 'bcp'] if tier == 'quick' else ['abcd', 'bcp', 'acf', 'abcdp'], specs)
        at = self.at(stu, spec)
        i = ch('first', list(range(len(at))))
        j = ch('second', list(range(len(at))))
        ids = [x['clbid'] for x in stu['courses']]
        c = ch('course', ids)
        d = ch('course2', ids)
        k1 = ch('kind', KINDS)
        k2 = ch('kind2', KINDS if tier == 'thorough' else [KINDS[0] if k1 == KINDS[1] else KINDS[1]])
        if i == j and c == d:
            k2 = k1      # filing one course both ways at one place contradicts itself
        stu['exceptions'] += [exc(k1, at[i], clbid=c), exc(k2, at[j], clbid=d)]
        return {'student': stu, 'spec': spec}

    def judge(self, case, tree, o):
        # a query's insertions are added on top of a selection that would do without them, so they need not help to finish it
        self.COMPLETE = not any('.query' in e['path'] for e in case['student']['exceptions']) and 'optional' not in str(case['spec'])
        return super().judge(case, tree, o) + effective(case, tree)

    def bounds(self, tier):
        return '13 area files; every place x every course x insert/force-insert (also twice) x 5 transcripts; every pair of places and courses in 6-13 area files'


def effective(case, tree):
    """every insertion into a query which was used shows up there"""
    v = []
    nodes = {tuple(n['path']): n for n in walk(tree)}
    blocked = {(tuple(e['path']), e['clbid']) for e in case['student']['exceptions'] if e['type'] == 'block'}
    for e in case['student']['exceptions']:
        n = nodes.get(tuple(e['path']))
        if n is None or n['type'] != 'query' or n['source'] not in ('courses', 'claimed') or n['state'] != 'result' or n['overridden'] or (tuple(e['path']), e['clbid']) in blocked:
            continue
        if e['type'] == 'force-insert' and e['clbid'] not in [c['clbid'] for c in n['claims']] and e['clbid'] not in outputs(n, case):
            v.append(f"insert: {e['clbid']} is forced into {'/'.join(e['path'])} and does not count there")
    return v


def outputs(n, case):
    by = {c['schedid']: c['clbid'] for c in case['student']['courses']}
    return {by.get(o['value']) for o in n['output']}


PROP = P()
