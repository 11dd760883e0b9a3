"""Waivers: wherever one is filed, exactly that rule is waived, for this area only, and it uses up nothing."""
from mc.auditprop import AuditProp
from mc.exworlds import base, places
from mc.world import exc, run_audit, walk


def essence(tree):
    return [(n['path'], n['status'], n['rank'], n['overridden'], n.get('claims')) for n in walk(tree)]


class P(AuditProp):
    ID = 'C08'
    TOPICS = {'waive', 'status', 'rank', 'claims', 'shape', 'assert', 'match'}
    COMPLETE = True
    RULE = ('a case fails when a rule with a waiver on file is not reported waived (done for department-audited and contract requirements), a rule '
            'without one is reported waived, a waived rule uses a course, or the rest of the area is not audited as without it')
    ASSUMPTIONS = ['optional courses and inserted courses are reported as waived too, by design; the reference says where']

    def worlds(self, tier):
        return [lambda ch: self.filed(ch, tier), lambda ch: self.beside(ch, tier), lambda ch: self.elsewhere(ch, tier)]

    def filed(self, ch, tier):
        name, spec, stu = base(ch, ['abcd', 'abp', 'acf', 'bcd', 'cd', 'a', ''] if tier == 'quick' else ['abcd', 'abp', 'acf', 'bcd', 'cd', 'a', '', 'abcdp', 'bf', 'acdi', 'bd'])
        at = [p for _k, p in places(stu, spec)]
        k = -1
        for i in range(3 if tier == 'quick' else 5):
            k = ch(f'waiver{i}', ([None] if i else []) + list(range(k + 1, len(at)))) if k + 1 < len(at) or i else None
            if k is None:
                break
            stu['exceptions'].append(exc('override', at[k]))
        return {'student': stu, 'spec': spec}

    def beside(self, ch, tier):
        """other exceptions at the same place, before or after it"""
        name, spec, stu = base(ch, ['abcd', 'abp', 'cd'])
        k, p = ch('path', places(stu, spec))
        kinds = ['override'] + (['insert', 'force-insert', 'block'] if k in ('course', 'query', 'count') or k.startswith('assert') else []) + (['value'] if k.startswith('assert') else [])
        for i in range(1 if tier == 'quick' else 2):
            t = ch(f'kind{i}', kinds)
            e = exc(t, p)
            if t in ('insert', 'force-insert', 'block'):
                e['clbid'] = ch(f'course{i}', [c['clbid'] for c in stu['courses']])
            if t == 'value':
                e['value'] = ch(f'value{i}', ['1', '3'])
            stu['exceptions'].append(e)
        stu['exceptions'].insert(ch('order', list(range(len(stu['exceptions']) + 1))), exc('override', p))
        return {'student': stu, 'spec': spec}

    def elsewhere(self, ch, tier):
        """a waiver which is none of this area's business changes nothing"""
        name, spec, stu = base(ch, ['abcd', 'abp'])
        at = [p for _k, p in places(stu, spec)]
        p = ch('path', at)
        how = ch('how', ['other area', 'longer', 'shorter', 'cousin'])
        if how == 'other area':
            e = exc('override', p, area_code='001')
        elif how == 'longer':
            e = exc('override', p + ['[0]', '*NOPE 101'])
        elif how == 'shorter':
            e = exc('override', p[:-1])
        else:
            e = exc('override', p[:-1] + [p[-1] + 'x'])
        stu['exceptions'].append(e)
        return {'student': stu, 'spec': spec, 'inert': (list(e['path']) not in at or how == 'other area') and '%E' not in p}

    def judge(self, case, tree, o):
        v = super().judge(case, tree, o)
        if case.get('inert'):
            plain = run_audit({**case['student'], 'exceptions': []}, case['spec']).tree()
            if essence(plain) != essence(tree):
                v.append('waive: a waiver which names no rule of this area changed the result')
        return v

    def bounds(self, tier):
        return ('13 area files with every rule kind; every set of up to 3 (thorough 5) places waived x 7-11 transcripts; every place with 1-2 other exceptions before and after the waiver; every place with a waiver for another area, '
                'or a path which is longer, shorter or different')


PROP = P()
