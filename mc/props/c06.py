"""No history: what an audit says does not depend on the audits the process ran before it, or is in the middle of; nor does it change its inputs."""
import copy
import json
import os
import pickle

from mc.core import Property, digest, explore
from mc import exworlds
from mc.gen import q, qs, req, subj
from mc.world import area, course, exc, ip, run_audit, student  # noqa: F401

AAA = [course('AAA 101', '1', grade='B', credits='1.00'), course('AAA 201', '2', grade='A', year='2019', credits='0.50', attributes=['x']), course('BBB 101', '3', grade='C', gereqs=['G'])]
# the same ids, other courses
BBB = [course('BBB 101', '1', grade='C', credits='0.50', attributes=['x']), ip('AAA 101', '2'), course('AAA 201', '3', grade='A', sub_type='lab', gereqs=['G', 'H'])]
# the same courses, with values that compare equal but are written otherwise
EQ = [course('AAA 101', '1', grade='B', credits='1'), course('AAA 201', '2', grade='A', year='2019', credits='0.5', attributes=['x']), course('BBB 101', '3', grade='C', gereqs=['G'], credits='1.0')]
TRANSCRIPTS = {'A': AAA, 'B': BBB, 'E': EQ, '': []}
AREAS = {
    'flat': {'all': [{'course': 'AAA 101'}, q(1, subj('AAA'))]},
    'claimed': {'all': [req('R', q(2)), {'from': 'claimed', 'assert': {'count(courses)': {'$gte': 2}}}]},
    'one': {'all': [q(1, {'level': {'$eq': 100}}), q(1, {'is_stolaf': {'$eq': True}}, allow_claimed=True)]},
    'credits': {'all': [q(1, {'credits': {'$eq': 1}}), q(1, {'lab': {'$eq': True}}, allow_claimed=True)]},
    'credits-text': {'all': [q(1, {'credits': {'$eq': '1.00'}}), q(1, {'number': {'$eq': '101'}}, allow_claimed=True)]},
    'text': {'all': [q(1, {'level': {'$eq': '100'}}), q(1, {'number': {'$eq': 101}}, allow_claimed=True), q(1, {'semester': {'$eq': 1}}, allow_claimed=True)]},
    'tags': {'all': [q(1, {'attributes': {'$eq': 'x'}}), q(1, {'gereqs': {'$neq': 'G'}}, allow_claimed=True)]},
    'tags2': {'all': [q(1, {'attributes': {'$in': ['x', 'y']}}), q(1, {'gereqs': {'$in': ['H']}}, allow_claimed=True)]},
    'grade': {'all': [q(1, {'grade': {'$gte': 'B'}}), q('3.10', key='average(grades)', allow_claimed=True)]},
    'year': {'all': [q(1, {'year': {'$eq': '$matriculation-year'}}), q(1, {'year': {'$gte': 2019}}, allow_claimed=True)]},
    'if': {'all': [{'$if': {'has-ip-course': 'AAA 101'}, '$then': {'course': 'AAA 201.L'}, '$else': {'course': 'AAA 201'}}, q(1)]},
    'when': {'all': [req('R', qs([{'count(courses)': {'$gte': 1}}, {'$if': {'has-course': 'AAA 101'}, '$then': {'assert': {'count(courses)': {'$gte': 2}}}}]))]},
    'dept': {'all': [{'name': 'D', 'department_audited': True, 'message': 'm'}, req('R', q(1))]},
    'major': {'all': [q(2)]},
    'choice': {'any': [{'course': 'BBB 201'}, req('R', {'any': [{'course': 'BBB 202'}, q(9)]}), q(9)]},
}
WITH = {'': [], 'waive': [exc('override', ['$', '.count', '[0]']), exc('override', ['$', '.count', '[0]', '.query'])],
        'force': [exc('force-insert', ['$', '.count', '[0]', '.query'], clbid='3')], 'block': [exc('block', ['$', '.count', '[0]', '.query'], clbid='1')],
        'credits': [exc('course-credits', ['$'], clbid='1', credits='0.25')]}
# further exceptions of one area file
BENEATH = {f'{n}:{kind}': [exc(kind, p, **({} if kind == 'override' else {'clbid': '3'}))] for n, p, kinds in [
    ('course', ['$', '.count', '[0]', '*BBB 201'], ['override', 'insert', 'force-insert']), ('requirement', ['$', '.count', '[1]', '%R'], ['override']),
    ('within', ['$', '.count', '[1]', '%R', '.count', '[0]', '*BBB 202'], ['override', 'insert']), ('query', ['$', '.count', '[2]', '.query'], ['override', 'force-insert', 'insert']),
] for kind in kinds}


A, B = {'course': 'AAA 101'}, {'course': 'BBB 101'}
EMPHASES = {'901': {'name': 'One', 'type': 'emphasis', 'result': {'all': [req('E', q(1))]}}, '902': {'name': 'Two', 'result': {'all': [A]}}}
# area files using every key of the format
FILES = [{'student': student(copy.deepcopy(AAA), **kw), 'spec': s} for s, kw in [
    (area({'all': [A, {'template': 't'}, B]}), {'templates': {'t': ['AAA 201', 'BBB 101']}}),
    (area({'all': [A, {'requirement': 'R'}]}, {'R': {'result': {'all': [{'requirement': 'S'}]}, 'requirements': {'S': {'result': q(1), 'message': 'm'}}}}), {}),
    (area({'all': [A]}, emphases=EMPHASES), {'areas': [{'code': c, 'kind': 'emphasis', 'name': 'E', 'degree': None, 'status': 'declared', 'dept': None, 'gpa': 0, 'terms': []} for c in ('901', '902')]}),
    (area({'all': [A, B, q(1)]}, limit=[{'where': subj('AAA'), 'at_most': '1 course'}], multicountable={'AAA 101': [['R'], ['S']]}, credit={'AAA 201': '0.75'}), {}),
    (area({'all': [A, req('R', q(1))]}, **{'exceptions-migrations': [{'from-path': ['$', '.count', '[1]', '%Q'], 'to-path': ['$', '.count', '[1]', '%R'], 'comment': 'c', 'date': 'd'}]}),
     {'exceptions': [exc('override', ['$', '.count', '[1]', '%Q'])]}),
    (area({'any': [A, B, {'count': 1, 'of': [A, B], 'at_most': True}]}), {}), (area({'both': [A, B]}), {}), (area({'either': [A, B]}), {}),
    (area({'all': [{'from': 'music performances', 'assert': {'count(performances)': {'$gte': 1}}}, {'from': 'music recitals', 'assert': {'count(recitals)': {'$gte': 1}}}, A]}),
     {'performances': [{'id': '1', 'name': 'Guitar', 'term': '1', 'year': '2018'}], 'performance_attendances': [{'id': '2', 'name': 'n', 'term': '1', 'year': '2018'}]}),
]]


def catalogue(tier):
    out = []
    for n, (name, spec) in enumerate(AREAS.items()):
        for t in TRANSCRIPTS:
            if t == '' and n % 4:
                continue
            for w in (WITH if name != 'choice' else {'': [], **BENEATH}):
                if w and t != 'A' or (w and tier == 'quick' and name not in ('flat', 'claimed', 'one', 'tags', 'major', 'choice')):
                    continue
                if w in WITH and w and '.query' in str(WITH[w]) and 'course' in str(spec['all'][0])[:12] and w != 'waive':
                    continue
                s = area(copy.deepcopy(spec), **({'type': 'major', 'degree': 'B.A.'} if name == 'major' else {}))
                if name == 'claimed':
                    s['limit'] = [{'where': subj('AAA'), 'at_most': 2}]
                stu = student(copy.deepcopy(TRANSCRIPTS[t]), exceptions=copy.deepcopy({**WITH, **BENEATH}[w]), matriculation='2019' if t == 'B' else '2018')
                out.append({'student': stu, 'spec': s})
    return out


def messages(stu, spec, **args):
    import contextlib
    import io
    from dp.run import run
    from dp.audit import Arguments
    with contextlib.redirect_stdout(io.StringIO()):
        yield from run(Arguments(**args), student=stu, area_spec=spec)


def say(m):
    if hasattr(m, 'result'):
        return ['result', json.dumps(m.result.to_dict()), m.best_i, m.iters, m.total_iters]
    if hasattr(m, 'estimate'):
        return ['estimate', m.estimate]
    return [type(m).__name__, getattr(m, 'iters', None)]


def whole(w):
    """(what it says, did it leave its inputs alone)"""
    stu, spec = copy.deepcopy(w['student']), copy.deepcopy(w['spec'])
    try:
        said = [say(m) for m in messages(stu, spec)]
    except Exception as e:
        said = f'crash: {type(e).__name__}: {str(e)[:200]}'
    return said, stu == w['student'] and spec == w['spec'] and json.dumps([stu, spec]) == json.dumps([w['student'], w['spec']])


def interleaved(ws, schedule):
    """several audits in one process, advanced message by message in the given order; whoever is left over is finished in turn"""
    gens = [messages(copy.deepcopy(w['student']), copy.deepcopy(w['spec']), print_all=True) for w in ws]
    said = [[] for _ in ws]

    def step(i):
        try:
            said[i].append(say(next(gens[i])))
            return True
        except StopIteration:
            return False
    for i in schedule:
        step(i)
    for i in range(len(ws)):
        while step(i):
            pass
    return said


def clean(f):
    """run f in a child of this process, which itself never ran an audit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(f())
        except BaseException as e:
            data = pickle.dumps(f'crash: {type(e).__name__}: {str(e)[:200]}')
        with os.fdopen(w, 'wb') as out:
            out.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


class P(Property):
    ID = 'C06'
    RULE = ('a case fails when an audit in a process that ran, or is running, other audits says anything (in any byte) other than it says in a fresh process, or when an audit '
            'changes the record or area file it was given')

    def worlds(self, tier):
        return self.catalogue(tier)

    _cat = {}
    _fresh = {}

    def catalogue(self, tier):
        if tier not in self._cat:
            self._cat[tier] = catalogue(tier)
        return self._cat[tier]

    def setup_worker(self, tier):
        import dp.run  # noqa: F401

    def cases(self, tier):
        n = len(self.catalogue(tier))

        def seq(ch):
            """all b, then each w once more after it; the prefix grows to the whole catalogue"""
            return {'tier': tier, 'sequence': [ch('first', list(range(n))), ch('second', list(range(n)))]}

        def walk(ch):
            k = ch('offset', list(range(n)))
            d = ch('step', [1, -1, 7, 11] if tier == 'quick' else [1, -1, 3, 5, 7, 11, 13, 17])
            return {'tier': tier, 'sequence': [(k + d * i) % n for i in range(2 * n)]}

        def inter(ch):
            i = ch('one', list(range(0, n, 4 if tier == 'quick' else 2)))
            j = ch('other', list(range(0, n, 5 if tier == 'quick' else 2)))
            m = 5 if tier == 'quick' else 7
            return {'tier': tier, 'pair': [i, j], 'schedule': [ch(f's{k}', [0, 1]) for k in range(m)]}
        yield from explore(lambda ch: self.inputs(ch, tier))
        yield from explore(seq)
        yield from explore(walk)
        yield from explore(inter)

    def inputs(self, ch, tier):
        """one audit after another of the very same objects"""
        kind = ch('what', ['place', 'file'])
        if kind == 'file':
            return {'tier': tier, 'same': ch('file', FILES), 'exceptions': ch('exceptions', [[], [exc('insert', ['$', '.count'], clbid='3')], [exc('course-credits', ['$'], clbid='1', credits='0.50')]])}
        name, spec, stu = exworlds.base(ch, ['abcd'])
        what, path = ch('place', exworlds.places(stu, spec))
        e = exc(ch('kind', ['override', 'insert', 'force-insert', 'block', 'value']), path)
        if e['type'] == 'value':
            e['value'] = '1'
        elif e['type'] != 'override':
            e['clbid'] = ch('course', ['1', '3'])
        return {'tier': tier, 'same': {'student': {**stu, 'exceptions': [e]}, 'spec': spec}, 'exceptions': []}

    def fresh(self, tier, i, all_=False):
        k = (tier, i, all_)
        if k not in self._fresh:
            w = self.catalogue(tier)[i]
            self._fresh[k] = clean((lambda: interleaved([w], [])[0]) if all_ else (lambda: whole(w)))
        return self._fresh[k]

    def run_case(self, case):
        tier = case['tier']
        cat = self.catalogue(tier)
        bad = []
        if 'same' in case:
            w = copy.deepcopy(case['same'])
            w['student']['exceptions'] = w['student']['exceptions'] + case['exceptions']
            was = json.dumps(w)

            def said():
                try:
                    return [say(m) for m in messages(w['student'], w['spec'], print_all=True)]
                except Exception as e:
                    return f'crash: {type(e).__name__}: {str(e)[:200]}'
            one = said()
            if json.dumps(w) != was:
                bad.append(f'changed its inputs: {was[:300]} is now {json.dumps(w)[:600]}')
            two = said()
            if one != two:
                bad.append(f'the second audit of the same objects says {str(two)[:300]}, the first {str(one)[:300]}')
            return bad, digest(one), 2
        if 'sequence' in case:
            got = clean(lambda: [whole(cat[i]) for i in case['sequence']])
            if isinstance(got, str):
                return [got], 'crash', 1
            for pos, (i, (said, kept)) in enumerate(zip(case['sequence'], got)):
                if not kept:
                    bad.append(f'audit {i} changed its inputs: {json.dumps(cat[i])[:300]}')
                if said != self.fresh(tier, i)[0]:
                    bad.append(f'audit {i}, run at position {pos} of {case["sequence"][:pos + 1][-4:]}, says {str(said)[:300]}, on its own {str(self.fresh(tier, i)[0])[:300]}; {json.dumps(cat[i])[:300]}')
            return bad[:3], digest([g[0] for g in got[-1:]]), len(got)
        got = clean(lambda: interleaved([cat[i] for i in case['pair']], case['schedule']))
        want = [self.fresh(tier, i, True) for i in case['pair']]
        for k in (0, 1):
            if got == want or (not isinstance(got, str) and got[k] == want[k]):
                continue
            bad.append(f'audit {case["pair"][k]}, advanced in turns with {case["pair"][1 - k]} as {case["schedule"]}, says {str(got)[:300]}')
        return bad, digest(got), 2

    def bounds(self, tier):
        n = len(self.catalogue(tier))
        return ('every kind of exception at every place of 13 area files and area files using every key of the format, audited twice from the same objects; '
                f'{n} audits chosen to share course ids, paths, equal-but-differently-written values and cached comparisons; every ordered pair in one process; the whole catalogue '
                'twice over from every starting point with several strides; two audits interleaved message by message under every schedule of 5 (thorough 7) steps')


PROP = P()
