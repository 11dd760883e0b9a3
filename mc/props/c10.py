"""Blocks: a blocked course never counts where it is blocked, and still counts everywhere else."""
from mc.auditprop import AuditProp
from mc.exworlds import base, places
from mc.world import exc

KINDS = ['block', 'insert', 'force-insert', 'override']


class P(AuditProp):
    ID = 'C10'
    TOPICS = None
    COMPLETE = True
    RULE = ('a case fails when a course counts at a place where it is blocked (even if it is also inserted there), or when the area is not audited as if '
            'exactly that course were missing at exactly that place')
    ASSUMPTIONS = ['a block on a group or requirement has no meaning and is not filed here']

    def worlds(self, tier):
        return [lambda ch: self.some(ch, tier)]

    def some(self, ch, tier):
        name, spec, stu = base(ch, ['abcd', 'abp', 'bcd', 'acf'])
        at = [(k, p) for k, p in places(stu, spec) if k in ('course', 'query', 'assert')]
        kind, p = ch('path', at)
        ids = [x['clbid'] for x in stu['courses']]
        c = ch('course', ids)
        stu['exceptions'].append(exc('block', p, clbid=c))
        k2 = ch('kind2', [None] + KINDS)
        if k2:
            e = exc(k2, ch('path2', [x for _k, x in at] if tier != 'quick' or k2 == 'block' else [p]))
            if k2 != 'override':
                e['clbid'] = ch('course2', ids)
            if e != stu['exceptions'][0]:
                stu['exceptions'].append(e)
        return {'student': stu, 'spec': spec}

    def judge(self, case, tree, o):
        self.COMPLETE = not any('.query' in e['path'] and 'insert' in e['type'] for e in case['student']['exceptions']) and 'optional' not in str(case['spec'])
        return super().judge(case, tree, o)

    def bounds(self, tier):
        return '13 area files; every place x every course blocked, alone and with a second block, insertion or waiver (quick: at the same place) x 4 transcripts'


PROP = P()
