"""The explorer: choice trees, parallel exhaustive runs, evidence, replays.

A *model* here is a generator of executions: a function `world(ch)` that asks
`ch(name, options)` at each of its choice points and returns one case, a
JSON-able description of a closed world (area specification, student record,
history, schedule, ...).  `explore` enumerates every choice sequence, depth
first, optionally bounding the number of deviations from the first (default)
option of each choice point.  Each case is then executed on the real code and
judged by the property's oracle.
"""
import glob
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
CASE_TIMEOUT_S = int(os.environ.get('MC_CASE_TIMEOUT', '100'))


class Diverged(Exception):
    """a recorded choice no longer exists: the harness is not deterministic"""


class Chooser:
    __slots__ = ('prefix', 'bound', 'trace', 'cost')

    def __init__(self, prefix, bound):
        self.prefix = prefix
        self.bound = bound
        self.trace = []     # (name, chosen, number of options, free)
        self.cost = 0

    def __call__(self, name, options, free=False):
        """pick one option. free: choosing a non-default costs no deviation."""
        n = len(options)
        if n == 0:
            raise Diverged(f'choice point {name} has no options')
        i = len(self.trace)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n:
            raise Diverged(f'choice {k} of {n} at {name}')
        if k and not free:
            self.cost += 1
        self.trace.append((name, k, n, free))
        return options[k]

    def flag(self, name):
        return self(name, (False, True))


def explore(world, bound=None, shard=(0, 1)):
    """yield (case, new_edges) for every choice sequence of `world` within the deviation bound (or for the first and one share of the others)"""
    stack = [()]
    first = True
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, bound)
        case = world(ch)
        trace = ch.trace
        if len(trace) < len(prefix):
            raise Diverged('replaying a prefix made fewer choices than recorded')
        chosen = tuple(t[1] for t in trace)
        spent = 0
        alts = []
        for i, (name, k, n, free) in enumerate(trace):
            if i >= len(prefix):
                for alt in range(1, n):
                    if bound is not None and not free and spent + 1 > bound:
                        break
                    alts.append(chosen[:i] + (alt,))
            if k and not free:
                spent += 1
        if first:
            alts = alts[shard[0]::shard[1]]
            first = False
        stack.extend(reversed(alts))
        # edges of the choice tree which this execution is the first to walk
        yield case, len(trace) - max(0, len(prefix) - 1)


class Violation(Exception):
    pass


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:16]


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def judge(prop, case):
    """run one case: returns (violations:[str], outcome_key, runs)"""
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(prop, 'CASE_TIMEOUT', CASE_TIMEOUT_S)
    signal.alarm(limit)
    try:
        return prop.run_case(case)
    except _Timeout:
        return [f'did not terminate within {limit}s'], 'timeout', 1
    except Diverged:
        raise
    except Violation as e:
        return [str(e)], 'violation', 1
    except RecursionError as e:
        return [f'crash: {e!r}'], 'crash', 1
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-4:]))
        return [f'crash: {type(e).__name__}: {str(e)[:300]} at {where}'], 'crash', 1
    finally:
        signal.alarm(0)


def _worker(prop, tier, k, n, deadline, q, stop):
    try:
        os.environ['MC_WORKER'] = str(k)
        seen, states, edges, runs, cases = {}, set(), 0, 0, 0
        bad, samples, capped = [], [], False
        if hasattr(prop, 'setup_worker'):
            prop.setup_worker(tier)
        for i, (case, new_edges) in enumerate(prop.cases(tier)):
            if i % n != k:
                continue
            if time.time() > deadline or stop.value:
                capped = True
                break
            edges += new_edges
            if case is None:        # these choices make no case
                continue
            h = digest(case)
            if h in states:
                continue
            states.add(h)
            cases += 1
            v, outcome, r = judge(prop, case)
            runs += r
            o = outcome if isinstance(outcome, str) else digest(outcome)
            seen[o] = seen.get(o, 0) + 1
            if v:
                bad.append((i, case, v))
                if len(bad) >= 40:
                    stop.value = 1
                    capped = True
                    break
            elif len(samples) < 2:
                samples.append({'case': case, 'outcome': outcome})
        extra = prop.worker_extra() if hasattr(prop, 'worker_extra') else {}
        q.put({'states': states, 'edges': edges, 'runs': runs, 'cases': cases, 'seen': seen, 'bad': bad,
               'samples': samples, 'capped': capped, 'extra': extra})
    except BaseException:
        q.put({'error': traceback.format_exc()})


def run_parallel(prop, tier, budget_s, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    stop = ctx.Value('i', 0)
    deadline = time.time() + budget_s
    procs = [ctx.Process(target=_worker, args=(prop, tier, k, jobs, deadline, q, stop), daemon=False) for k in range(jobs)]
    for p in procs:
        p.start()
    out = []
    while len(out) < jobs:
        try:
            out.append(q.get(timeout=1))
        except Exception:
            dead = [p for p in procs if p.exitcode is not None]
            if len(dead) == jobs:
                try:
                    while len(out) < jobs:
                        out.append(q.get(timeout=1))
                except Exception:
                    pass
                break
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    if len(out) < jobs:
        out.append({'error': f'{jobs - len(out)} worker(s) died without an answer'})
    return out


def load_known():
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def write_replay(pid, n, case, violations):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{n}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'case': case, 'violations': violations,
                   'how': f'/verif/check replay {path}'}, f, indent=1, default=str)
    return path


def write_evidence(prop, tier, cov, violations, wall, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    doc = {
        'property': prop.ID,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': prop.LEVEL,
        'coverage': cov,
        'assumptions': assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if violations:
        doc['coverage']['violation_details'] = violations
    tmp = os.path.join(EVIDENCE, f'.{prop.ID}.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f'{prop.ID}.json'))


def run_check(prop, tier):
    t0 = time.time()
    for old in glob.glob(os.path.join(EVIDENCE, 'replay', f'{prop.ID}-*.json')):
        os.unlink(old)
    budget = prop.BUDGET.get(tier, 600)
    try:
        if hasattr(prop, 'prepare'):
            prop.prepare(tier)
        out = run_parallel(prop, tier, budget, jobs=getattr(prop, 'JOBS', None))
    except Exception:
        out = [{'error': traceback.format_exc()}]
    errors = [o['error'] for o in out if 'error' in o]
    out = [o for o in out if 'error' not in o]
    states = set().union(*[o['states'] for o in out]) if out else set()
    seen = {}
    for o in out:
        for k, v in o['seen'].items():
            seen[k] = seen.get(k, 0) + v
    bad = sorted([b for o in out for b in o['bad']], key=lambda b: b[0])
    capped = any(o['capped'] for o in out)

    if hasattr(prop, 'finish') and not bad and not errors:
        try:
            for case, v in prop.finish(out, tier):
                bad.append((10**9, case, v))
        except Exception:
            errors.append(traceback.format_exc())

    known = [k for k in load_known() if k['property'] == prop.ID and k['status'] == 'known']
    hits, fresh = {}, []
    for i, case, v in bad:
        left = []
        for msg in v:
            m = next((k for k in known if prop.matches_known(k, case, msg)), None)
            if m:
                hits.setdefault(m['id'], (m, case, msg))
            else:
                left.append(msg)
        if left:
            fresh.append((i, case, left))

    samples = [s for o in out for s in o['samples']][:4]
    cov = {
        'states': len(states),
        'transitions': sum(o['edges'] for o in out),
        'traces_validated_against_impl': sum(o['runs'] for o in out),
        'distinct_outcomes': len(seen),
        'bounds': prop.bounds(tier),
        'exhaustive': not capped and not errors,
        'rule': prop.RULE,
        'samples': samples,
    }
    if capped:
        cov['cap'] = f'stopped after {round(time.time() - t0)}s (budget {budget}s) or after too many violations; the counts above are what was covered'
    for o in out:
        for k, v in (o.get('extra') or {}).items():
            if isinstance(v, int):
                cov[k] = cov.get(k, 0) + v
            elif isinstance(v, (set, list)):
                cov[k] = sorted(set(cov.get(k, [])) | set(v))
    wall = time.time() - t0

    vio = []
    for m, case, msg in hits.values():
        print(f"KNOWN-FINDING: property={prop.ID} {m['id']}: {m['what']}")
    for n, (i, case, v) in enumerate(fresh[:5]):
        path = write_replay(prop.ID, n, case, v)
        vio.append({'case': case, 'what': v[:5], 'replay': path})
    for e in errors[:2]:
        path = write_replay(prop.ID, 'error', {}, [e])
        vio.append({'case': None, 'what': [e], 'replay': path})

    write_evidence(prop, tier, cov, vio, wall, prop.ASSUMPTIONS)
    print(f"{prop.ID} {tier}: states={cov['states']} transitions={cov['transitions']} runs={cov['traces_validated_against_impl']}"
          f" outcomes={len(seen)} exhaustive={cov['exhaustive']} wall={wall:.1f}s")
    if vio:
        for n, x in enumerate(vio[:3]):
            for w in x['what'][:3]:
                print('  ' + str(w)[:600])
        print(f"VIOLATION property={prop.ID} replay={vio[0]['replay']}")
        return 1
    return 0


class Property:
    ID = None
    LEVEL = 'model_checking'
    RULE = ''
    ASSUMPTIONS = []
    BUDGET = {'quick': 600, 'thorough': 3000}

    def cases(self, tier):
        raise NotImplementedError

    def run_case(self, case):
        raise NotImplementedError

    def bounds(self, tier):
        return ''

    def matches_known(self, known, case, msg):
        m = known.get('match', {})
        return all(s in msg for s in m.get('message_has', [])) and bool(m.get('message_has')) \
            and all(s in canon(case) for s in m.get('case_has', []))
