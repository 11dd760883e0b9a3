"""Soundness: every emitted result is a certificate that checks out, node by node, against the area file and the record."""
import copy

from mc import exworlds, gen
from mc.auditprop import AuditProp
from mc.gen import q, qs, req, subj
from mc.world import area, exc, student

EXTRA = {
    'auditcount': {'all': [{'course': 'AAA 101'}, {'course': 'BBB 101'}],
                   'audit': {'assert': {'count(terms)': {'$gte': 2}}}},
    'auditlevel': {'any': [{'course': 'AAA 201'}, {'course': 'BBB 101'}, {'course': 'AAA 101'}],
                   'audit': {'all': [{'where': {'level': {'$gte': 200}}, 'assert': {'count(courses)': {'$gte': 1}}},
                                     {'assert': {'sum(credits)': {'$gte': 1}}}]}},
    'gpa': q(2, subj('AAA'), key='average(grades)'),
    'eq1': q(1, subj('AAA'), op='$eq'),
    'gt1': q(1, op='$gt'),
    'dept': None,
    'contract': None,
    'nest': {'all': [{'any': [{'course': 'AAA 101'}, q(2, subj('BBB'))]}, {'count': 1, 'of': [{'course': 'BBB 101'}, {'course': 'AAA 201'}]}]},
    'ipgrade': {'course': 'AAA 201', 'grade': 'C'},
    'when': qs([{'count(courses)': {'$gte': 1}},
                {'$when': {'query-has-course-with-attribute': 'att_x'}, '$then': {'assert': {'count(subjects)': {'$gte': 2}}}}]),
}


class P(AuditProp):
    ID = 'C02'
    TOPICS = None
    RULE = 'a case fails when any node of the emitted result tree disagrees with its recomputation from the area file, the record and its children'
    ASSUMPTIONS = ['the recomputation (mc/ref.py, mc/cert.py) is the reference semantics; it imports nothing from the auditor']

    def worlds(self, tier):
        return [lambda ch: self.flat(ch, tier), lambda ch: self.deep(ch, tier), lambda ch: self.excepted(ch, tier)]

    def leaf(self, ch, name, names):
        k = ch(name, names)
        if k == 'dept':
            return {'name': f'D{name}', 'department_audited': True, 'message': 'm'}
        if k == 'contract':
            return req(f'K{name}', {'course': 'AAA 101'}, contract=True)
        return copy.deepcopy(EXTRA.get(k) or gen.LEAVES[k])

    def flat(self, ch, tier):
        names = list(gen.LEAVES) + list(EXTRA)
        x, y = self.leaf(ch, 'x', names), self.leaf(ch, 'y', names)
        top = ch('top', ['all', 'any', 'req'])
        items = [x, y if 'name' in y else req('R', y)]
        spec = {'all': items} if top == 'all' else {'any': items} if top == 'any' else {'all': [req('Outer', {'all': items}), {'course': 'BBB 201'}]}
        keys = ch('courses', ['abcd', 'acdp', 'abcf', 'bcd', 'api', 'a', 'fi', ''] if tier == 'thorough' else ['abcd', 'acdp', 'bcf', 'api', ''])
        return {'student': student(gen.rows(keys)), 'spec': area(spec)}

    def deep(self, ch, tier):
        if tier == 'quick':
            names = ['A1', 'A1g', 'qA2', 'q2', 'sum15', 'look2', 'any', 'two', 'one', 'nest', 'auditlevel', 'dept']
        else:
            names = [x for x in list(gen.LEAVES) + list(EXTRA) if x not in ('B1', 'q100', 'terms2')]
        x, y, z = (self.leaf(ch, n, names) for n in 'xyz')
        shape = ch('shape', ['2of3', 'anyall'])
        if shape == '2of3':
            spec = {'all': [{'count': 2, 'of': [x, y, req('R', z)]}, {'course': 'BBB 201'}]}
        else:
            spec = {'any': [{'all': [x, y]}, req('R', {'any': [z, {'course': 'BBB 201'}]})]}
        keys = ch('courses', ['abcd', 'bcp'])
        return {'student': student(gen.rows(keys)), 'spec': area(spec)}

    def excepted(self, ch, tier):
        """every waiver and every block (thorough: and insertion), in area files which have every kind of place"""
        name, spec, stu = exworlds.base(ch, ['abcd', 'a', ''] if tier == 'quick' else list(exworlds.SETS))
        places = exworlds.places(stu, spec)
        got = []
        for i in range(2):
            i = ch(f'place {i}', [None] + list(range(len(places))) if not got else [None] + list(range(got[-1] + 1, len(places))))
            if i is None:
                break
            got.append(i)
            kind, path = places[i]
            if tier == 'thorough' and kind in ('course', 'query', 'assert') and stu['courses']:
                what = ch('what', ['override', 'insert', 'force-insert', 'block'])
            else:
                what = 'override'
            kw = dict(status='done') if what == 'override' else dict(clbid=ch('clbid', [c['clbid'] for c in stu['courses']]))
            stu['exceptions'].append(exc(what, path, **kw))
        return {'student': stu, 'spec': spec}

    def bounds(self, tier):
        return 'every pair of waivers (thorough: of any exceptions) in 13 area files x 3-7 transcripts; every pair of 32 rule kinds under 3 tops x 5-8 transcripts; every triple of 12 (thorough 29) rule kinds in two nestings x 2 transcripts'


PROP = P()
