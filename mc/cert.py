"""The specification as a plain tree, a checker for result trees ("certificates"), and a brute-force search.

`build(student, spec)` expands an area file against a student record into `N` nodes with exception paths.
`check(student, spec, tree)` judges every node of an emitted result tree against it, bottom-up, and
returns a list of (topic, message).  `achievable(...)` enumerates every assignment of courses to rules.
No dp imports here either.
"""
import itertools
from decimal import Decimal as D

from . import ref
from .ref import Env, WAIVED, DONE, CURRENT, REGISTERED, MORE, EMPTY, APPROVAL, FAILED, PASSING  # noqa: F401

TINY = D('0.000001')      # the order in which ranks are added up is free
OPNAME = {'$lt': 'LessThan', '$lte': 'LessThanOrEqualTo', '$gt': 'GreaterThan', '$gte': 'GreaterThanOrEqualTo',
          '$eq': 'EqualTo', '$neq': 'NotEqualTo'}


class N:
    def __init__(self, kind, path, **kw):
        self.kind = kind
        self.path = tuple(path)
        self.waived = False
        for k, v in kw.items():
            setattr(self, k, v)

    def walk(self):
        yield self
        for k in self.kids():
            yield from k.walk()

    def kids(self):
        if self.kind == 'count':
            return list(self.items)
        if self.kind == 'req':
            return [self.kid] if self.kid else []
        if self.kind == 'cond':
            return [k for k in (self.then, self.other) if k]
        if self.kind == 'prof':
            return [self.course] if self.course else []
        return []

    def live(self):
        """the children that matter (the branch a conditional took)"""
        if self.kind == 'cond':
            b = self.then if self.result else self.other
            return [b] if b else []
        return self.kids()

    def __repr__(self):
        return f'{self.kind}@{"/".join(self.path)}'


class A:
    """one assertion"""

    def __init__(self, kind, path, **kw):
        self.kind = kind
        self.path = tuple(path)
        for k, v in kw.items():
            setattr(self, k, v)

    def is_lt(self):
        if self.kind == 'plain':
            return self.op in ('$lt', '$lte')
        return self.t.is_lt() or (self.kind == 'if' and self.f is not None and self.f.is_lt())


def load_assertion(d, path, env):
    if '$when' in d:
        return A('when', path, cond=d['$when'], t=load_plain(d['$then'], (*path, '/t'), env))
    if '$if' in d:
        return A('if', path, result=env.condition(d['$if']), t=load_plain(d['$then'], (*path, '/t'), env),
                 f=load_plain(d['$else'], (*path, '/f'), env) if d.get('$else') is not None else None)
    return load_plain(d, path, env)


def load_plain(d, path, env):
    path = (*path, '.assert')
    (key, body), = d['assert'].items()
    op = next(o for o in ref.OPS if o in body)
    expected = D(env.constant(body[op]))
    for cond, action in body.get('$changes', []):
        if env.condition(cond):
            (mode, amount), = action.items()
            amount = D(amount)
            expected = {'add': expected + amount, 'subtract': expected - amount, 'set': amount}[mode]
    v = env.at('value', path)
    if v:
        expected = D(v[0]['value'])
    return A('plain', path, key=key, op=op, expected=expected, where=d.get('where'), at_most=body.get('at_most', False),
             as_pass=body.get('treat_in_progress_as_pass', False), waived=env.waived(path), inserts=env.inserts(path), blocked=env.blocked(path))


def course_path(d):
    s = '*' + (d.get('course') or d.get('ap') or d.get('name') or d.get('clbid') or 'crsid:' + d['crsid'])
    if d.get('section'):
        s += d['section']
    if d.get('sub_type'):
        s += '.' + d['sub_type']
    if d.get('year') is not None:
        s += f" {d['year']}-{d['term']}"
    if d.get('institution'):
        s += f"(institution={d['institution']})"
    if d.get('grade'):
        s += f"(grade >= {d['grade']})"
    return s


def template_items(name, env):
    out = []
    for t in env.student.get('templates', {}).get(name, []) or []:
        if isinstance(t, dict):
            out.append(t)
    return out


def load(d, path, reqs, env, emphases=()):
    if 'proficiency' in d:
        p = (*path, f".proficiency={d['proficiency']}")
        n = N('prof', p, name=d['proficiency'], course=None)
        if 'course' in d:
            n.course = load(d['course'], p, {}, env)
        n.waived = env.waived(p)
        return n
    if any(k in d for k in ('course', 'clbid', 'crsid', 'ap')):
        p = (*path, course_path(d))
        return N('course', p, rule=d, from_claimed=d.get('from_claimed', False), allow=d.get('allow_claimed', False) or d.get('from_claimed', False),
                 optional=d.get('optional', False), pre=d.get('inserted', False), waived=env.waived(p), inserts=env.inserts(p),
                 blocked=env.blocked(p))
    if 'from' in d:
        p = (*path, '.query')
        raw = [{'assert': d['assert']}] if 'assert' in d else d['all']
        claim = d.get('claim', True)
        return N('query', p, source=d['from'], where=d.get('where'), limit=d.get('limit'), include_failed=d.get('include_failed', False),
                 allow=d.get('allow_claimed', False) or d['from'] == 'claimed', attempt=claim is True, record=claim in (True, 'record'),
                 asserts=[load_assertion(x, (*p, '.assertions', f'[{i}]'), env) for i, x in enumerate(raw)],
                 waived=env.waived(p), inserts=env.inserts(p), blocked=env.blocked(p), required=set())
    if '$if' in d:
        p = (*path, '.cond')
        r = env.condition(d['$if'])
        w = env.waived(p)
        if not r and d.get('$hide-when-false') and not w:
            return None
        return N('cond', p, result=r, then=load(d['$then'], (*p, '/t'), reqs, env),
                 other=load(d['$else'], (*p, '/f'), reqs, env) if d.get('$else') is not None else None, waived=w)
    word = next((k for k in ('all', 'any', 'both', 'either', 'of') if k in d and (k != 'of' or 'count' in d)), None)
    if word:
        p = (*path, '.count')
        items = []
        for x in d[word]:
            items.extend(template_items(x['template'], env) if 'template' in x else [x])
        kids = dict(reqs)
        items = [(x, f'[{i}]') for i, x in enumerate(items)]
        for e in emphases:
            key = f"Emphasis: {e['name']}"
            body = e['result'].get('all')
            if body is not None and 'audit' not in e['result'] and all('requirement' in r or 'name' in r for r in body) and \
                    ('requirements' in e or any('name' in r for r in body)):
                rs = e['requirements'] if 'requirements' in e else {r['name']: r for r in body}
                for name, b in rs.items():
                    kids[f'{key} → {name}'] = b
                    items.append(({'requirement': f'{key} → {name}'}, '.emphasis'))
            else:
                kids[key] = e
                items.append(({'requirement': key}, '.emphasis'))
        ins = env.inserts(p)
        for e in ins:
            c = env.by_clbid[e['clbid']]
            items.append(({'course': c.ident, 'clbid': c.clbid, 'allow_claimed': e['type'] == 'force-insert', 'inserted': True}, f'[{len(items)}]'))
        loaded = [load(x, (*p, part), kids, env) for x, part in items]
        loaded = [x for x in loaded if x]
        n = d.get('count')
        if word == 'all' or n == 'all':
            n = len(loaded)
        elif word in ('any', 'either') or n == 'any':
            n = 1
        elif word == 'both':
            n = len(loaded) if ins else 2
        else:
            n = int(n)
        raw = d.get('audit')
        raw = [] if raw is None else raw['all'] if 'all' in raw else [raw]
        return N('count', p, n=n, items=loaded, at_most=d.get('at_most', False), waived=env.waived(p),
                 audits=[load_assertion(x, (*p, '.audit', f'[{i}]'), env) for i, x in enumerate(raw)])
    if 'name' in d or 'requirement' in d:
        name = d.get('name') or d['requirement']
        body = d if 'name' in d else reqs[name]
        p = (*path, f'%{name}')
        kid = load(body['result'], p, body.get('requirements', {}), env) if body.get('result') is not None else None
        return N('req', p, name=name, kid=kid, audited=body.get('department_audited', body.get('department-audited', False)),
                 contract=body.get('contract', False), in_gpa=body.get('in_gpa', True), waived=env.waived(p))
    raise ValueError(d)


def required(n, env):
    """courses which are the only possible match of a course rule that every way of finishing the area goes through"""
    if n is None:
        return []
    if n.kind == 'course':
        if n.from_claimed:
            return []
        m = [c for c in env.all if ref.matches(n.rule, c)]
        ins = {e['clbid'] for e in n.inserts}
        m = [c for c in m if c.clbid not in ins]
        return m if len(m) == 1 else []
    if n.kind == 'count':
        if n.n != len(n.items):
            return []
        return [c for k in n.items for c in required(k, env)]
    if n.kind in ('req', 'cond', 'prof'):
        return [c for k in n.live() for c in required(k, env)]
    return []


class World:
    def __init__(self, student, spec):
        self.student, self.spec = student, spec
        self.env = env = Env(student, spec['code'], spec.get('credit'))
        migrate(env, spec)
        emph = spec.get('emphases', {})
        declared = {a['code'] for a in student.get('areas', []) if a.get('kind') == 'emphasis'}
        self.root = load(spec['result'], ('$',), spec.get('requirements', {}), env,
                         [v for k, v in emph.items() if str(k) in declared])
        req = {c.clbid for c in required(self.root, env)}
        self.required = req
        for n in self.root.walk():
            if n.kind == 'query':
                n.required = req
        self.multi = {k: [tuple('%' + s for s in p) for p in v] for k, v in spec.get('multicountable', {}).items()}
        self.limits = spec.get('limit') or []
        self.forced = {e['clbid'] for e in env.exceptions if e['type'] == 'force-insert'}
        self.by_sched = {}
        for c in env.all_failed:
            self.by_sched.setdefault(c.schedid, []).append(c)


def migrate(env, spec):
    ms = spec.get('exceptions-migrations') or []
    if not ms:
        return
    out = []
    for e in env.exceptions:
        p = list(e['path'])
        for m in ms:
            if p[:len(m['from-path'])] == list(m['from-path']):
                p = list(m['to-path']) + p[len(m['from-path']):]
        out.append({**e, 'path': p})
    env.exceptions = out


def req_path(p):
    return tuple(x for x in p if x.startswith('%'))


# --- the certificate checker ---------------------------------------------------------------------------

class Cert:
    def __init__(self, student, spec, tree):
        self.w = World(student, spec)
        self.env = self.w.env
        self.tree = tree
        self.bad = []
        self.claims = []      # (clbid, path, exclusive) in audit order
        self.gpa_claims = []
        self.counted = []     # (course, query/course node) everything that counts somewhere
        self.dangling = 0

    def say(self, topic, msg):
        self.bad.append((topic, msg))

    def run(self):
        t = self.tree
        r = self.node(self.w.root, t['result'], True)
        st, rank = r
        items = t['result'].get('items') or [None]
        if t['kind'] == 'major' and items[-1] and items[-1]['path'] == ['$', '%Common Requirements'] and items[-1]['status'] not in PASSING:
            st = {x if x not in PASSING else 'needs-more-items' for x in st}
        if t['status'] not in st:
            self.say('status', f"area status {t['status']}, its rule says {sorted(st)}")
        if rank is not None and abs(D(t['rank']) - rank) > TINY:
            self.say('rank', f"area rank {t['rank']}, recomputed {rank}")
        if D(t['max_rank']) != D(t['result']['max_rank']):
            self.say('rank', f"area greatest rank {t['max_rank']}, of its rule {t['result']['max_rank']}")
        if t['ok'] != (t['status'] in (DONE, WAIVED)):
            self.say('status', f"ok={t['ok']} but status={t['status']}")
        if t['code'] != self.w.spec['code']:
            self.say('shape', 'area code')
        self.exclusive()
        self.area_limits()
        self.gpa()
        return self.bad

    # -- tree-wide
    def exclusive(self):
        by = {}
        for clbid, path, excl in self.claims:
            if excl:
                by.setdefault(clbid, []).append(path)
        for clbid, paths in by.items():
            if len(paths) < 2:
                continue
            c = self.env.by_clbid_failed[clbid]
            allowed = self.w.multi.get(c.ident)
            if allowed is None:
                self.say('claims', f'{c} counts {len(paths)} times: {["/".join(p) for p in paths]}')
                continue
            # the first claimer is free; every further one has to be listed, and no listed place counts it twice
            rps = [req_path(p) for p in paths]
            outside = [rp for rp in rps if rp not in allowed]
            if len(outside) > 1 or (outside and rps[0] != outside[0]):
                self.say('claims', f'{c} counts at {rps}, beyond its multicountable list {allowed}')
            if len(set(rps)) != len(rps):
                self.say('claims', f'{c} counts twice for one requirement: {rps}')

    def area_limits(self):
        cs = [c for c, n in self.counted if not (n.kind == 'query' and n.include_failed)]
        for lim in self.w.limits:
            used, cap = ref.limit_used(lim, [c for c in cs if c.clbid not in self.w.forced], self.env)
            if used > cap:
                self.say('limits', f'area limit {lim}: {used} used')

    def gpa(self):
        kind = self.w.spec.get('type')
        if kind == 'degree':
            want = ref.gpa(self.env.all_failed)
        else:
            want = ref.gpa(ref.uniq([self.env.by_clbid_failed[x] for x in self.gpa_claims]))
        if D(self.tree['gpa']) != want:
            self.say('gpa', f"gpa {self.tree['gpa']}, recomputed {want}")

    # -- nodes; returns (admissible statuses, rank)
    def node(self, n, t, in_gpa):
        kind = {'req': 'requirement', 'cond': 'conditional', 'prof': 'proficiency'}.get(n.kind, n.kind)
        if t is None or t['type'] != kind or tuple(t['path']) != n.path:
            self.say('shape', f"expected {kind} at {n.path}, got {t and (t['type'], t['path'])}")
            return {t['status'] if t else None}, None
        f = getattr(self, n.kind)
        st, rank = f(n, t, in_gpa)
        if t['status'] not in st:
            topic = 'waive' if (n.waived or t['status'] == WAIVED) else 'status'
            self.say(topic, f"{n} status {t['status']}, should be one of {sorted(st)}")
        if rank is not None and abs(D(t['rank']) - rank) > TINY:
            self.say('rank', f"{n} rank {t['rank']}, recomputed {rank}")
        if not D(0) <= D(t['rank']) <= D(t['max_rank']):
            self.say('rank', f"{n} rank {t['rank']} of {t['max_rank']}")
        most = self.greatest(n, t)
        if most is not None and abs(D(t['max_rank']) - most) > TINY:
            self.say('rank', f"{n} greatest rank {t['max_rank']}, recomputed {most}")
        return {t['status']}, D(t['rank'])

    def greatest(self, n, t):
        """the rank of the node if all of it were finished, from what is shown of its parts"""
        if n.kind in ('course', 'prof') or t.get('overridden'):
            return D(1)
        if n.kind == 'query':
            return D(len(t['assertions']))
        if n.kind == 'cond':
            b = t['when_true'] if t['condition']['result'] is True else t['when_false']
            return D(b['max_rank']) if b else D(1)
        if n.kind == 'req':
            if n.audited or not t['result']:
                return D(1)
            return D(t['result']['max_rank']) + (1 if t['status'] in PASSING else 0)
        if n.kind == 'count':
            parts = [D(x['max_rank']) for x in t['items']]
            most = max(parts) if t['count'] == 1 and n.at_most else sum(parts)
            return max(most, sum(D(x['rank']) for x in t['items'])) + len(t['audit'])
        return None

    def waiver(self, n, t):
        """is this node waived? (unselected alternatives stay untouched rules)"""
        if t['state'] == 'rule':
            return False
        if bool(t['overridden']) != n.waived:
            self.say('waive', f"{n} overridden={t['overridden']}, waiver on file={n.waived}")
        return n.waived

    def silent(self, n, t):
        """nothing beneath may hold a course"""
        from .world import walk
        for x in walk(t):
            if x.get('claims'):
                self.say('claims', f"{'/'.join(x['path'])} holds {x['claims']} though it is waived or was not selected")

    def count(self, n, t, in_gpa):
        if t['count'] != n.n and not (n.path == ('$', '.count') and self.w.spec.get('type') == 'major' and t['state'] == 'result' and t['count'] == n.n + 1):
            self.say('shape', f"{n} needs {n.n}, reported {t['count']}")
        items = list(t['items'])
        kids = list(n.items)
        extra = None
        if n.path == ('$', '.count') and self.w.spec.get('type') == 'major' and t['state'] == 'result':
            extra = items.pop() if items else None
            if extra is None or extra['path'] != ['$', '%Common Requirements']:
                self.say('common', f'the common major requirements are missing')
                extra = None
        by = {}
        for x in items:
            by.setdefault(tuple(x['path']), []).append(x)
        if sorted(by) != sorted({k.path for k in kids}) or any(len(v) != 1 for v in by.values()):
            self.say('shape', f'{n} children {sorted(by)} expected {sorted(k.path for k in kids)}')
            return {t['status']}, None
        if self.waiver(n, t):
            for x in items:
                self.silent(n, x)
            return {WAIVED}, D(1)
        before = len(self.claims)
        # audit order = the order the items are listed in
        order = {k.path: k for k in kids}
        sts, rank, picked = [], D(0), 0
        for x in items:
            s, r = self.node(order[tuple(x['path'])], x, in_gpa)
            sts.append(x['status'])
            rank = None if r is None or rank is None else rank + r
            picked += x['state'] != 'rule'
        need = n.n
        if extra is not None:
            sts.append(extra['status'])
            rank = None if rank is None else rank + D(extra['rank'])
            need += 1
        if n.at_most and picked > n.n and t['state'] == 'result' and n.path != ('$', '.count'):
            self.say('status', f'{n} uses {picked} of its children, at most {n.n} are allowed')
        mine = ref.uniq([self.env.by_clbid_failed[c] for c, _p, _e in self.claims[before:]])
        if len(t['audit']) != len(n.audits):
            self.say('shape', f'{n} audit clauses')
            return {t['status']}, None
        ast = []
        for a, x in zip(n.audits, t['audit']):
            s, r = self.assertion(a, x, mine, evaluated=t['state'] == 'result')
            ast.append(s)
            rank = None if r is None or rank is None else rank + r
        if t['audit'] and all('status' in x for x in t['audit']):
            want = ref.audit_status([x['status'] for x in t['audit']])
            if t['audit_status'] != want:
                self.say('status', f"{n} has a post-audit which is {t['audit_status']}, its clauses are {[x['status'] for x in t['audit']]}")
        st = {ref.count_status(need, sts, combo) for combo in itertools.product(*[sorted(s) for s in ast])}
        return st, rank

    def req(self, n, t, in_gpa):
        for k, v in (('name', n.name), ('is_audited', n.audited), ('is_contract', n.contract), ('in_gpa', n.in_gpa)):
            if t[k] != v:
                self.say('shape', f'{n} {k}={t[k]!r}, declared {v!r}')
        w = self.waiver(n, t)
        if w or n.audited:
            if w and t['result']:
                self.silent(n, t['result'])
            return {ref.requirement_status(None, w, n.audited, n.contract)}, (D(1) if w else D(0))
        if n.kid is None:
            self.say('shape', f'{n} has neither')
            return {t['status']}, None
        s, r = self.node(n.kid, t['result'], in_gpa and n.in_gpa)
        st = s
        if r is not None and t['status'] in PASSING:
            r = r + 1
        return st, r

    def cond(self, n, t, in_gpa):
        if t['condition']['result'] != n.result:
            self.say('cond', f"{n} decided {t['condition']['result']}, the record says {n.result}")
            return {t['status']}, None
        if n.waived:
            if not t['overridden']:
                self.say('waive', f'{n} is waived on file')
            for k in ('when_true', 'when_false'):
                if t[k]:
                    self.silent(n, t[k])
            return {WAIVED}, D(1)
        if t['overridden']:
            self.say('waive', f'{n} overridden with no waiver on file')
        branch = n.then if n.result else n.other
        other = t['when_false'] if n.result else t['when_true']
        if other:
            self.silent(n, other)
        if branch is None:
            return {DONE}, D(1)
        return self.node(branch, t['when_true'] if n.result else t['when_false'], in_gpa)

    def prof(self, n, t, in_gpa):
        if self.waiver(n, t):
            if t['course']:
                self.silent(n, t['course'])
            return {WAIVED}, D(1)
        have = proficiency(self.env.student, n.name)
        if n.course is not None:
            s, r = self.node(n.course, t['course'], in_gpa)
        else:
            s, r = {EMPTY}, D(0)
        if t['state'] != 'rule' and have:
            return {DONE}, D(1)
        if t['state'] == 'rule':
            return s, r
        return s, {DONE: D(1), WAIVED: D(1), CURRENT: D('0.75'), REGISTERED: D('0.5')}.get(t['status'], D(0))

    def course(self, n, t, in_gpa):
        for k in ('course', 'ap', 'name', 'institution', 'clbid', 'crsid'):
            if t[k] != n.rule.get(k):
                self.say('shape', f'{n} {k}={t[k]}')
        if self.waiver(n, t):
            if t['claims']:
                self.say('claims', f'{n} is waived yet holds {t["claims"]}')
            return {WAIVED}, D(1)
        if t['state'] == 'rule' and t['claims']:
            self.say('claims', f'{n} was not selected yet holds {t["claims"]}')
        if len(t['claims']) > 1:
            self.say('claims', f'{n} holds {t["claims"]}')
        ins = {e['clbid']: e for e in n.inserts}
        got = t['claims'][0]['clbid'] if t['claims'] else None
        if got is None:
            st = ref.course_status(None, n.optional)
        else:
            c = self.env.by_clbid.get(got)
            if c is None:
                self.say('match', f'{n} holds {got}, which is not on the transcript')
                return {t['status']}, None
            if tuple(t['claims'][0]['claimed_by']) != n.path:
                self.say('claims', f"{n} reports a claim by {t['claims'][0]['claimed_by']}")
            inserted = bool(t['inserted'])
            forced = False
            if got in n.blocked:
                self.say('block', f'{n} holds the blocked {c}')
            if n.pre:
                if got != n.rule['clbid'] or not inserted:
                    self.say('insert', f'{n} inserted alternative holds {c}')
            elif inserted:
                if got not in ins:
                    self.say('insert', f'{n} reports {c} as inserted; on file: {sorted(ins)}')
                forced = got in ins and any(e['type'] == 'force-insert' for e in n.inserts if e['clbid'] == got)
            else:
                if not ref.qualifies(n.rule, c):
                    self.say('match', f'{n} holds {c} ({c.grade} {c.option} {c.inst}), which does not satisfy it')
            if n.from_claimed and not any(x == got and e for x, _p, e in self.claims):
                self.dangling += 1
                if not any(x == got and e for x, _p, e in self.later(t)):
                    self.say('claims', f'{n} re-uses {c}, which nothing claimed')
            self.claims.append((got, n.path, not (n.allow or forced)))
            self.counted.append((c, n))
            if in_gpa:
                self.gpa_claims.append(got)
            st = WAIVED if inserted else ref.course_status(c, n.optional)
        if t['inserted'] and got is None and not n.pre and not ins:
            self.say('insert', f'{n} inserted with nothing on file')
        rank = {DONE: D(1), WAIVED: D(1), CURRENT: D('0.75'), REGISTERED: D('0.5')}.get(st, D(0))
        if n.optional:
            rank = D(1)
        return {st}, rank

    def later(self, t):
        """exclusive claims anywhere in the emitted tree"""
        from .world import walk
        out = []
        nodes = {k.path: k for k in self.w.root.walk()}
        for x in walk(self.tree):
            k = nodes.get(tuple(x['path']))
            for cl in x.get('claims') or []:
                if k is None:
                    continue
                forced = any(e['type'] == 'force-insert' and e['clbid'] == cl['clbid'] for e in getattr(k, 'inserts', []))
                excl = not k.allow and not forced and (k.kind == 'course' or (k.attempt and k.source == 'courses'))
                out.append((cl['clbid'], k.path, excl))
        return out

    def query(self, n, t, in_gpa):
        if n.waived and t['overridden']:
            if t['claims']:
                self.say('claims', f'{n} is waived yet holds {t["claims"]}')
            return {WAIVED}, D(1)
        if bool(t['overridden']) != n.waived:
            self.say('waive', f"{n} overridden={t['overridden']}, on file {n.waived}")
        if len(t['assertions']) != len(n.asserts):
            self.say('shape', f'{n} has {len(t["assertions"])} assertions')
            return {t['status']}, None
        evaluated = t['state'] == 'result'
        items = []
        if not evaluated:
            if t['claims'] or t['output']:
                self.say('claims', f'{n} was not selected yet holds something')
        elif n.source in ('courses', 'claimed'):
            items = self.query_items(n, t, in_gpa)
            if items is None:
                return {t['status']}, None
        else:
            items = other_items(n, self.env)
            got = sorted(x['value'] if 'value' in x else str(x) for x in t['output']) if False else len(t['output'])
            if got != len(items):
                self.say('match', f'{n} looked at {got} records, {len(items)} match')
        mixed = any(a.is_lt() for a in n.asserts) and not all(a.is_lt() for a in n.asserts)
        skip = n.source == 'courses' and not items and mixed
        sts, rank = [], D(0)
        for a, x in zip(n.asserts, t['assertions']):
            s, r = self.assertion(a, x, items, evaluated=evaluated and not skip, source=n.source)
            sts.append(s)
            rank = None if r is None or rank is None else rank + r
        st = {ref.query_status(combo) for combo in itertools.product(*[sorted(s) for s in sts])}
        return st, rank

    def query_items(self, n, t, in_gpa):
        env = self.env
        ins = {e['clbid'] for e in n.inserts}
        forced = {e['clbid'] for e in n.inserts if e['type'] == 'force-insert'}
        pool = env.by_clbid_failed if n.include_failed else env.by_clbid
        claims = [c['clbid'] for c in t['claims']]
        fails = [c['clbid'] for c in t['failures']]
        out = []
        for o in t['output']:
            m = self.w.by_sched.get(o['value']) or []
            if len(m) != 1:
                out = None
                break
            out.append(m[0].clbid)
        if len(set(claims)) != len(claims):
            self.say('claims', f'{n} counts a course twice: {claims}')
        for cl in t['claims']:
            if tuple(cl['claimed_by']) != n.path:
                self.say('claims', f"{n} reports a claim by {cl['claimed_by']}")
        if n.source == 'claimed':
            held = claims
            if not n.record:
                return None
        elif n.attempt:
            held = claims
            if out is not None and sorted(set(claims) | set(fails)) != sorted(set(out)):
                self.say('claims', f'{n} output {out}, claims {claims}, failures {fails}')
        elif n.record:
            held = claims
        else:
            held = out
            if claims:
                self.say('claims', f'{n} takes no claims yet reports {claims}')
        if held is None:
            return None
        items = []
        for x in held:
            c = pool.get(x) or (env.by_clbid_failed.get(x) if x in ins else None)
            if c is None:
                self.say('match', f'{n} holds {x}, which is not among its courses')
                continue
            if x in n.blocked:
                self.say('block', f'{n} holds the blocked {c}')
            elif x in n.required and x not in forced:
                self.say('required', f'{n} holds {c}, which a mandatory course rule needs')
            if x not in ins and not ref.where(n.where, c, env):
                self.say('match', f'{n} holds {c}, which fails its filter')
            items.append(c)
        lim = [pool[x] for x in (out if out is not None else held) if x in pool]
        if not ref.within_limits(n.limit, lim, env, forced):
            self.say('limits', f'{n} breaks its own limit with {lim}')
        if n.source == 'claimed':
            before = {x for x, _p, e in self.claims if e}
            anywhere = {x for x, _p, e in self.later(t) if e}
            ok = lambda x: x not in n.blocked and x not in n.required and ref.where(n.where, env.by_clbid[x], env)  # noqa: E731
            must = {x for x in before if x in env.by_clbid and ok(x)} | {x for x in ins if x in env.by_clbid and x not in n.blocked and (x in forced or x not in n.required)}
            may = {x for x in anywhere if x in env.by_clbid and ok(x)} | ins
            if self.w.limits:
                # an area limit may keep a course which was merely inserted off this transcript
                must -= {x for x in ins - forced if any(ref.where(l['where'], env.by_clbid[x], env) for l in self.w.limits if x in env.by_clbid)}
            if not must <= set(held):
                self.say('claims', f'{n} sees {sorted(held)} of the claimed {sorted(must)}')
            if not set(held) <= may:
                self.say('claims', f'{n} sees {sorted(held)}, only {sorted(may)} are claimed')
        elif not n.attempt:
            # nothing is chosen here: everything that matches has to be there (up to the limits)
            want = {x for x, c in pool.items() if x not in n.blocked and x not in n.required and ref.where(n.where, c, env)}
            want |= {x for x in ins if x not in n.blocked and x in env.by_clbid and (x in forced or x not in n.required)}
            if not n.limit and not self.w.limits and set(held) != want:
                self.say('match', f'{n} looked at {sorted(held)}, its filter selects {sorted(want)}')
        excl = n.attempt and not n.allow and n.source == 'courses'
        for c in items:
            listed = c.clbid in claims
            self.claims.append((c.clbid, n.path, excl and c.clbid not in forced)) if listed else None
            self.counted.append((c, n))
            if listed and in_gpa:
                self.gpa_claims.append(c.clbid)
        return items

    # -- assertions; returns (admissible statuses, rank)
    def assertion(self, a, t, items, evaluated, source='courses'):
        env = self.env
        if a.kind == 'if':
            if t['type'] != 'assertion--if' or t['condition']['result'] != a.result:
                self.say('cond', f"{a.path} decided {t.get('condition')}")
                return {EMPTY}, None
            b, x = (a.t, t['when_true']) if a.result else (a.f, t['when_false'])
            if b is None:
                return {DONE}, D(1)
            return self.assertion(b, x, items, evaluated, source)
        if a.kind == 'when':
            if t['type'] != 'assertion--when':
                self.say('shape', f'{a.path}')
                return {EMPTY}, None
            if evaluated and ref.dynamic_condition(a.cond, items):
                if t['condition']['result'] is not True:
                    self.say('cond', f'{a.path} condition should hold over {items}')
                return self.assertion(a.t, t['when_true'], items, True, source)
            if t['condition']['result'] is True:
                self.say('cond', f'{a.path} condition should not hold over {items}')
            return {DONE}, D(1)
        for k, v in (('type', 'assertion'), ('key', a.key), ('operator', OPNAME[a.op])):
            if t[k] != v:
                self.say('shape', f'{a.path} {k}={t[k]}')
        if D(t['expected']) != a.expected:
            self.say('value', f"{a.path} expects {t['expected']}, should expect {a.expected}")
        if a.waived:
            if t['status'] != WAIVED:
                self.say('waive', f"{a.path} is waived on file, status {t['status']}")
            return {WAIVED}, D(1)
        if not evaluated:
            if t['status'] != EMPTY or t['resolved'] is not None:
                self.say('status', f"{a.path} has status {t['status']} without having been evaluated")
            return {EMPTY}, D(0)
        if source in ('courses', 'claimed'):
            got = [c for c in items if ref.where(a.where, c, env)]
            for e in a.inserts:
                c = env.by_clbid.get(e['clbid'])
                if c is not None:
                    if e['type'] == 'insert' and self.w.limits and c.clbid not in [x.clbid for x in got]:
                        # an area limit may have put the course out of reach: what was reported decides
                        if c.clbid not in t['inserted_clbids']:
                            continue
                    got.append(c)
                    self.counted.append((c, N('assert', a.path)))
            got = ref.uniq([c for c in got if c.clbid not in a.blocked])
            values = ref.aggregate(a.key, got)
            st = ref.assertion_statuses(a.key, a.op, a.expected, got, a.as_pass)
            strict = {x.clbid for x in got}
            if not set(t['resolved_clbids']) <= strict:
                self.say('assert', f"{a.path} counts {t['resolved_clbids']} of {sorted(strict)}")
            elif a.key == 'count(courses)' and set(t['resolved_clbids']) != strict:
                self.say('assert', f"{a.path} lists {t['resolved_clbids']}, counted are {sorted(strict)}")
            if not set(t['inserted_clbids']) <= {e['clbid'] for e in a.inserts} or not {e['clbid'] for e in a.inserts if e['type'] == 'force-insert' and e['clbid'] not in a.blocked} <= set(t['inserted_clbids']):
                self.say('insert', f"{a.path} lists {t['inserted_clbids']} as inserted, on file are {a.inserts}")
        else:
            values = other_aggregate(a, items, env)
            v, = values
            st = {DONE} if ref.holds(a.op, v, a.expected) else {FAILED} if a.op in ('$lt', '$lte') else \
                {MORE} if a.op != '$neq' and v > 0 and (v < a.expected or (a.op == '$gt' and v <= a.expected)) else {EMPTY}
        if t['resolved'] is None or D(t['resolved']) not in values:
            self.say('assert', f"{a.path} {a.key} = {t['resolved']}, recomputed {sorted(values)} over {items}")
        if t['status'] not in st:
            self.say('status', f"{a.path} {a.key} {a.op} {a.expected} over {items}: {t['status']}, should be one of {sorted(st)}")
        s = t['status']
        if s in (DONE, WAIVED):
            r = D(1)
        elif a.op in ('$lt', '$lte') or t['resolved'] is None or a.expected == 0:
            r = D(0)
        else:
            r = min(D(1), D(t['resolved']) / a.expected)
        if abs(D(t['rank']) - r) > TINY:
            self.say('rank', f"{a.path} rank {t['rank']}, recomputed {r}")
        return {s}, r


PROFICIENCY_KEYS = {'Keyboard Level I': 'keyboard_1', 'Keyboard Level II': 'keyboard_2', 'Keyboard Level III': 'keyboard_3',
                    'Keyboard Level IV': 'keyboard_4', 'Guitar': 'guitar'}


def proficiency(student, name):
    # passed by exam, by a class, or otherwise
    return student.get('proficiencies', {}).get(PROFICIENCY_KEYS[name], 'N') in ('E', 'Y', 'C', True)


def other_items(n, env):
    if n.source == 'areas':
        src = env.areas
    elif n.source == 'music performances':
        src = env.student.get('performances', [])
    else:
        src = env.student.get('performance_attendances', [])
    return [x for x in src if record_where(n.where, x, env)]


def record_where(spec, x, env):
    if spec is None:
        return True
    if '$and' in spec:
        return all(record_where(s, x, env) for s in spec['$and'])
    if '$or' in spec:
        return any(record_where(s, x, env) for s in spec['$or'])
    if '$not' in spec:
        return not record_where(spec['$not'], x, env)
    if '$if' in spec:
        if env.condition(spec['$if']):
            return record_where(spec['$then'], x, env)
        return record_where(spec['$else'], x, env) if spec.get('$else') is not None else False
    for k, cl in spec.items():
        op = next(o for o in ref.OPS if o in cl)
        want = env.constant(cl[op])
        if 'kind' in x:                     # an area
            k = 'kind' if k == 'type' else k
            value = x.get(k)
            if k in ('kind', 'status'):
                # both spellings are always given, e.g. ['Major', 'major']; which one the format has is left open
                value, want = plain(value), [plain(w) for w in want]
            elif k == 'gpa' and value is not None:
                value, want = D(value), D(want)
        else:
            value = x.get(k) or None
            if k == 'status' and value:
                value = {'E': 'entrance', 'C': 'continuance'}[value]
        if value is None or not ref.compare(op, value, want):
            return False
    return True


def plain(s):
    return s.lower().replace('-', '')


def other_aggregate(a, items, env):
    got = [x for x in items if record_where(a.where, x, env)]
    if a.key == 'count(areas)':
        return {D(len({x['code'] for x in got}))}
    return {D(len({x['id'] for x in got}))}


def check(student, spec, tree):
    return Cert(student, spec, tree).run()


# --- brute force --------------------------------------------------------------------------------------

def achievable(student, spec, good=(DONE, WAIVED)):
    """is there any assignment of courses to rules under which the area's own rule is done (or waived)?"""
    w = World(student, spec)
    env = w.env
    limits = w.limits
    if limits:
        # every selection of the limited courses that the area's limits allow
        touched = [c for c in env.all if c.clbid not in w.forced and any(ref.where(l['where'], c, env) for l in limits)]
        rest = [c for c in env.all if c not in touched]
        seen = [rest + list(s) for s in ref.powerset(touched) if ref.within_limits(limits, s, env)]
        # dominated selections cannot help unless something wants fewer courses: keep them all
    else:
        seen = [env.all]
    for avail in seen:
        b = Brute(w, sorted(avail, key=ref.C.key))
        for st, _used, _m in b.outcomes(w.root, ()):
            if st in good:
                return True
    return False


class Brute:
    def __init__(self, w, avail):
        self.w, self.env = w, w.env
        self.avail = avail
        self.ids = {c.clbid for c in avail}
        self.memo = {}

    def free(self, c, path, used):
        """may rule `path` claim c, given the exclusive claims so far"""
        prior = [p for x, p in used if x == c.clbid]
        if not prior:
            return True
        allowed = self.w.multi.get(c.ident)
        return allowed is not None and req_path(path) in allowed and req_path(path) not in [req_path(p) for p in prior]

    def outcomes(self, n, used):
        """all (status, exclusive claims so far, matched courses of this node)"""
        k = (id(n), used)
        if k not in self.memo:
            self.memo[k] = list(dict.fromkeys(getattr(self, n.kind)(n, used)))
        return self.memo[k]

    def unselected(self, n):
        if n.kind == 'course':
            return WAIVED if n.optional else EMPTY
        if n.kind == 'query':
            if n.waived:
                return WAIVED
            return ref.query_status([self.unassert(a) for a in n.asserts])
        if n.kind == 'count':
            return ref.count_status(n.n, [self.unselected(k) for k in n.items], [self.unassert(a) for a in n.audits])
        if n.kind == 'req':
            return APPROVAL if n.audited else self.unselected(n.kid)
        if n.kind == 'cond':
            if n.waived:
                return WAIVED
            b = n.live()
            return self.unselected(b[0]) if b else DONE
        if n.kind == 'prof':
            return self.unselected(n.course) if n.course else EMPTY

    def unassert(self, a):
        if a.kind == 'when':
            return DONE
        if a.kind == 'if':
            b = a.t if a.result else a.f
            return self.unassert(b) if b else DONE
        return WAIVED if a.waived else EMPTY

    def course(self, n, used):
        if n.waived:
            yield WAIVED, used, frozenset()
            return
        yield ref.course_status(None, n.optional), used, frozenset()
        forced = {e['clbid'] for e in n.inserts if e['type'] == 'force-insert'}
        ins = {e['clbid'] for e in n.inserts}
        for c in (self.env.all if forced else self.avail):
            if c.clbid in n.blocked:
                continue
            inserted = c.clbid in ins or n.pre
            if c.clbid not in self.ids and c.clbid not in forced:
                continue
            if not (c.clbid in ins or ref.qualifies(n.rule, c)):
                continue
            for how in ((True, False) if inserted and ref.qualifies(n.rule, c) and not n.pre else (inserted,)):
                excl = not n.allow and not (how and c.clbid in forced)
                if n.from_claimed and not any(x == c.clbid for x, _p in used):
                    continue
                st = WAIVED if how else ref.course_status(c, n.optional)
                if not excl:
                    yield st, used, frozenset([c.clbid])
                elif self.free(c, n.path, used):
                    yield st, (*used, (c.clbid, n.path)), frozenset([c.clbid])

    def query(self, n, used):
        env = self.env
        if n.waived:
            yield WAIVED, used, frozenset()
            return
        if n.source not in ('courses', 'claimed'):
            items = other_items(n, env)
            c = Cert.__new__(Cert)
            sts = []
            for a in n.asserts:
                v, = other_aggregate(a, items, env)
                sts.append(WAIVED if a.waived else DONE if ref.holds(a.op, v, a.expected) else FAILED if a.op in ('$lt', '$lte') else EMPTY)
            yield ref.query_status(sts), used, frozenset()
            return
        forced = {e['clbid'] for e in n.inserts if e['type'] == 'force-insert'}
        ins = {e['clbid'] for e in n.inserts}
        pool = env.all_failed if n.include_failed else self.avail
        cand = [c for c in pool if c.clbid not in n.blocked and c.clbid not in n.required and ref.where(n.where, c, env)]
        must = [c for c in env.all if c.clbid in ins and c.clbid not in n.blocked and
                (c.clbid in forced or (c.clbid in self.ids and c.clbid not in n.required))]
        if n.source == 'claimed':
            held = {x for x, _p in used}
            cs = ref.uniq([c for c in cand if c.clbid in held] + must)
            for st in self.judge(n, cs):
                yield st, used, frozenset(c.clbid for c in cs) if n.record else frozenset()
            return
        if not n.attempt:
            cs = ref.uniq(cand + must)
            touched = [c for c in cs if c.clbid not in forced and any(ref.where(l['where'], c, env) for l in n.limit or [])]
            rest = [c for c in cs if c not in touched]
            for s in ref.powerset(touched):
                if ref.within_limits(n.limit, s, env):
                    x = rest + list(s)
                    for st in self.judge(n, x):
                        yield st, used, frozenset(c.clbid for c in x) if n.record else frozenset()
            return
        for s in ref.powerset(cand):
            x = ref.uniq(list(s) + must)
            if not ref.within_limits(n.limit, x, env, forced):
                x2 = ref.uniq(list(s) + [c for c in must if c.clbid in forced])
                if not ref.within_limits(n.limit, x2, env, forced):
                    continue
                x = x2
            u, ok, got = used, True, []
            for c in x:
                if n.allow or c.clbid in forced:
                    got.append(c)
                elif self.free(c, n.path, u):
                    u = (*u, (c.clbid, n.path))
                    got.append(c)
                elif c in must:
                    continue
                else:
                    ok = False
                    break
            if ok:
                for st in self.judge(n, got):
                    yield st, u, frozenset(c.clbid for c in got)

    def judge(self, n, cs):
        mixed = any(a.is_lt() for a in n.asserts) and not all(a.is_lt() for a in n.asserts)
        if n.source == 'courses' and not cs and mixed:
            yield ref.query_status([self.unassert(a) for a in n.asserts])
            return
        sts = [self.assess(a, cs) for a in n.asserts]
        for combo in itertools.product(*[sorted(s) for s in sts]):
            yield ref.query_status(combo)

    def assess(self, a, cs):
        if a.kind == 'if':
            b = a.t if a.result else a.f
            return self.assess(b, cs) if b else {DONE}
        if a.kind == 'when':
            return self.assess(a.t, cs) if ref.dynamic_condition(a.cond, cs) else {DONE}
        if a.waived:
            return {WAIVED}
        got = [c for c in cs if ref.where(a.where, c, self.env)]
        got += [self.env.by_clbid[e['clbid']] for e in a.inserts if e['clbid'] in self.ids or e['type'] == 'force-insert']
        got = [c for c in ref.uniq(got) if c.clbid not in a.blocked]
        return ref.assertion_statuses(a.key, a.op, a.expected, got, a.as_pass)

    def count(self, n, used):
        if n.waived:
            yield WAIVED, used, frozenset()
            return
        states = {((), used, frozenset(), 0)}
        for k in n.items:
            nxt = set()
            for sts, u, m, picked in states:
                nxt.add(((*sts, self.unselected(k)), u, m, picked))
                if n.at_most and picked >= n.n:
                    continue
                for st, u2, m2 in self.outcomes(k, u):
                    if n.audits and st not in ref.PASSING:
                        continue        # the courses of an unfinished part are not offered to the audit of the group
                    nxt.add(((*sts, st), u2, m | m2, picked + 1))
            states = nxt
        for sts, u, m, _p in states:
            cs = [self.env.by_clbid_failed[x] for x in sorted(m)]
            aud = [self.assess(a, cs) for a in n.audits]
            for combo in itertools.product(*[sorted(s) for s in aud]):
                yield ref.count_status(n.n, sts, combo), u, m

    def req(self, n, used):
        if n.waived or n.audited:
            yield ref.requirement_status(None, n.waived, n.audited, n.contract), used, frozenset()
            return
        yield from self.outcomes(n.kid, used)

    def cond(self, n, used):
        if n.waived:
            yield WAIVED, used, frozenset()
            return
        b = n.live()
        if not b:
            yield DONE, used, frozenset()
            return
        yield from self.outcomes(b[0], used)

    def prof(self, n, used):
        if n.waived:
            yield WAIVED, used, frozenset()
            return
        have = proficiency(self.env.student, n.name)
        if n.course is None:
            yield (DONE if have else EMPTY), used, frozenset()
            return
        for st, u, m in self.outcomes(n.course, used):
            yield (DONE if have else st), u, m
