"""Base of the properties which are decided by running whole audits: world -> audit -> judge."""
from . import cert, ref
from .core import Property, explore
from .world import run_audit


class AuditProp(Property):
    """case = {'student':…, 'spec':…, …}"""
    TOPICS = None          # None: every topic of the certificate
    COMPLETE = False
    PENDING = False        # also when courses in progress would finish it
    BOUND = {'quick': None, 'thorough': None}
    ARGS = {}

    def world(self, tier):
        raise NotImplementedError

    def cases(self, tier):
        for w in self.worlds(tier):
            yield from explore(w, self.BOUND.get(tier))

    def worlds(self, tier):
        return [self.world(tier)]

    def run_case(self, case):
        stu, spec = case['student'], case['spec']
        o = run_audit(stu, spec, **self.ARGS)
        if not o.results:
            return [f'no result: {[type(m).__name__ for m in o.messages]}'], 'none', 1
        tree = o.tree()
        v = self.judge(case, tree, o)
        return v, self.outcome(case, tree), 1

    def judge(self, case, tree, o):
        bad = cert.check(case['student'], case['spec'], tree)
        v = [f'{t}: {m}' for t, m in bad if self.TOPICS is None or t in self.TOPICS]
        if self.COMPLETE and tree['status'] not in ('done', 'waived') and cert.achievable(case['student'], case['spec']):
            v.append(f"complete: an assignment exists which finishes the area, reported {tree['status']}")
        if self.PENDING and tree['status'] not in ref.PASSING and cert.achievable(case['student'], case['spec'], ref.PASSING):
            v.append(f"complete: an assignment exists which the courses in progress may finish, reported {tree['status']}")
        return v

    def outcome(self, case, tree):
        return [tree['status'], tree['rank'], outputs(tree), sorted((c['clbid'], '/'.join(c['claimed_by'])) for c in claims(tree))]


def claims(tree):
    from .world import walk
    out = []
    for n in walk(tree):
        if n['type'] in ('course', 'query'):
            out.extend(n['claims'])
    return out


def outputs(tree):
    from .world import walk
    return [[[o.get('value') for o in n['output']], [a.get('resolved') for a in n['assertions']]] for n in walk(tree) if n['type'] == 'query']
