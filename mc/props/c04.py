"""The audit loop: of the solutions it looks at it reports the best, and it tells the caller what it was asked to tell."""
import copy
import json
from decimal import Decimal

from mc.core import Property, explore
from mc import gen
from mc.exworlds import SPECS
from mc.gen import LEAVES, q, qs, req, subj
from mc.world import area, exc, load_all, run_audit, student

OK = ('done', 'waived')
EXTRA = {
    'any3': {'any': [req('A', {'all': [{'course': 'AAA 101'}, {'course': 'ZZZ 101'}]}), q(3), {'course': 'ZZZ 101'}]},
    'q2q2': {'all': [q(2), q(2), {'course': 'ZZZ 101'}]},
    'of': {'all': [req('R', {'count': 2, 'of': [LEAVES['A1'], LEAVES['qA1'], LEAVES['B1'], {'course': 'ZZZ 101'}]}), q(2, subj('AAA'))]},
    'lt': {'all': [req('R', qs([{'count(courses)': {'$gte': 1}}, {'where': subj('BBB'), 'assert': {'count(courses)': {'$lte': 0}}}])), q(2)]},
    'sum': {'all': [q('2.50', key='sum(credits)'), q(1, subj('BBB')), {'course': 'ZZZ 101'}]},
}
SHARED = {'multicountable': {'AAA 101': [['A'], ['B'], ['C']], 'BBB 101': [['B'], ['C']]}}
TOP = {
    'shared': ({'all': [req('A', {'course': 'AAA 101'}, disjoint=True), req('B', {'any': [{'course': 'AAA 101'}, {'course': 'BBB 101'}]}), {'course': 'ZZZ 101'}]}, SHARED),
    'shared2': ({'all': [req('A', q(1, subj('AAA')), disjoint=True), req('B', {'any': [{'course': 'AAA 101'}, {'course': 'AAA 201'}]}), req('C', q(1, subj('BBB'))), {'course': 'ZZZ 101'}]}, SHARED),
    'shared3': ({'all': [req('A', {'course': 'AAA 101'}, disjoint=True), req('B', q(1)), req('C', {'any': [{'course': 'AAA 101'}, {'course': 'BBB 101'}]}), q(3)]}, SHARED),
}
PLAIN = [(k, None) for k in SPECS if k != 'areas'] + [(k, None) for k in EXTRA] + [(k, None) for k in TOP]
CAP = 60


def tree_of(r):
    return json.loads(json.dumps(r.to_dict()))


def solutions_of(stu, spec):
    """every solution, audited one after the other: [(rank, status, tree)]; None if there are too many for this bound"""
    a, loaded, exceptions = load_all(stu, spec)
    out = []
    for s in a.solutions(student=loaded, exceptions=exceptions):
        r = s.audit()
        t = tree_of(r)
        out.append((Decimal(t['rank']), t['status'], t))
        if len(out) > CAP:
            return None
    return out


def model(sols, args):
    """the messages an audit with these arguments sends: [('result', tree, best_i, audited, seen) | ('progress', best_rank, best_i, audited, seen) | ('none',)]"""
    every, each, stop = args.get('progress_every', 1000), args.get('audit_each', 1), args.get('stop_after')
    only, show_all = args.get('print_only', []), args.get('print_all', False)
    out, best, audited, seen, printed = [], None, 0, 0, False
    for seen, (rank, status, tree) in enumerate(sols, 1):
        if (only and seen not in only) or seen % each:
            continue
        audited += 1
        if best is None or rank > best[0] or status in OK:
            best = (rank, seen, tree)
        asked = show_all or seen in only
        if status in OK and not asked:
            break
        if audited % every == 0:
            out.append(('progress', best[0], best[1], audited, seen))
        if asked:
            printed = True
            out.append(('result', tree, best[1], audited, seen))
        if status in OK or (stop is not None and audited >= stop):
            break
    if best is None:
        return out + [('none',)]
    if not printed:
        out.append(('result', best[2], best[1], audited, seen))
    return out


class P(Property):
    ID = 'C04'
    RULE = ('a case fails when the reported result is not the best-ranked of the solutions looked at (or the first finished one), when the search goes on after it or stops '
            'short of it, when a solution is audited differently because others were or were not audited before it, or when the messages are not those asked for')
    ASSUMPTIONS = ['the auditor enumerates the solutions; that their enumeration is complete is property C03, and that each is audited correctly is C02']

    def cases(self, tier):
        yield from explore(lambda ch: self.one(ch, tier), 2 if tier == 'quick' else None)

    def one(self, ch, tier):
        name, _ = ch('spec', PLAIN, free=True)
        spec = area(copy.deepcopy(TOP[name][0]), **copy.deepcopy(TOP[name][1])) if name in TOP else area(copy.deepcopy(SPECS.get(name) or EXTRA[name]))
        stu = student(gen.rows(ch('courses', ['abcd', 'abp', 'cd', 'acf', ''] if tier == 'quick' else ['abcd', 'abp', 'cd', 'acf', 'bcd', 'abcp', 'ab', ''], free=True)))
        w = ch('waiver', [None, ['$', '.count', '[1]', '%R'], ['$', '.count']], free=True)
        if w:
            stu['exceptions'].append(exc('override', w))
        args = {}
        mode = ch('print', ['best', 'all', 'only'], free=True)
        if mode == 'all':
            args['print_all'] = True
        if mode == 'only':
            i = ch('only1', [1, 2, 3, 4, 6, 9], free=True)
            j = ch('only2', [None, 2, 3, 5])
            args['print_only'] = [i] + ([j] if j else [])
        n = ch('stop', [None, 1, 2, 3, 5])
        if n:
            args['stop_after'] = n
        n = ch('progress', [None, 1, 2, 3] if tier != 'quick' else [None, 1, 2])
        if n:
            args['progress_every'] = n
        n = ch('each', [1, 2, 3] if tier != 'quick' else [1, 2])
        if n != 1:
            args['audit_each'] = n
        return {'student': stu, 'spec': spec, 'args': args}

    _memo = {}

    def run_case(self, case):
        from mc.core import digest
        k = digest([case['student'], case['spec']])
        if k not in self._memo:
            if len(self._memo) > 50:
                self._memo.clear()
            self._memo[k] = solutions_of(case['student'], case['spec'])
        sols = self._memo[k]
        if sols is None:
            return [], 'too many solutions for this bound', 1
        o = run_audit(case['student'], case['spec'], **copy.deepcopy(case['args']))
        want = model(sols, case['args'])
        got = []
        bad = []
        for i, m in enumerate(o.messages):
            t = type(m).__name__
            if t == 'EstimateMsg':
                if i != 0:
                    bad.append('the estimate is not the first message')
                elif m.estimate < 1:
                    bad.append(f'estimate {m.estimate}')
            elif t == 'ResultMsg':
                got.append(('result', tree_of(m.result), m.best_i, m.iters, m.total_iters))
                rows = [c.clbid for c in m.transcript]
                if sorted(rows) != sorted(r['clbid'] for r in case['student']['courses']):
                    bad.append(f'transcript {rows}')
                if m.elapsed_ms < 0 or m.avg_iter_ms < 0:
                    bad.append('negative times')
            elif t == 'ProgressMsg':
                got.append(('progress', m.best_rank, m.best_i, m.iters, m.total_iters))
            elif t == 'NoAuditsCompletedMsg':
                got.append(('none',))
            else:
                bad.append(f'unknown message {t}')
        if not o.estimates:
            bad.append('no estimate')
        if got != want:
            def brief(x):
                return [(e[0], e[1] if e[0] == 'progress' else (e[1]['status'], e[1]['rank'])) + tuple(e[2:]) if len(e) > 1 else e for e in x]
            d = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
            bad.append(f'messages {brief(got)}, expected {brief(want)}, first difference at {d}')
        if got and got[-1][0] == 'result' and not case['args']:
            # said once more, without the loop: nothing that was enumerated is better than what is reported
            last = got[-1]
            if last[1]['status'] not in OK:
                if any(s[1] in OK for s in sols):
                    bad.append(f"reported {last[1]['status']}, although solution {[i for i, s in enumerate(sols, 1) if s[1] in OK][0]} is done")
                if Decimal(last[1]['rank']) != max(s[0] for s in sols):
                    bad.append(f"reported rank {last[1]['rank']}, although one of {max(s[0] for s in sols)} exists")
            else:
                first = next(i for i, s in enumerate(sols, 1) if s[1] in OK)
                if last[2] != first:
                    bad.append(f'reported solution {last[2]}; the first finished one is {first}')
        return bad, [len(got), [(e[0], e[2:]) for e in got[-1:]], sols and len(sols)], 1

    def bounds(self, tier):
        return f'{len(PLAIN)} area files x transcripts x waivers x every combination of the arguments of an audit (quick: of up to two besides what to print of them), over areas with at most {CAP} solutions'


PROP = P()
