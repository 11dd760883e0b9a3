"""python -m mc.hashrun < cases.jsonl: audits every case in a process with its own string-hash seed, prints a digest of everything observable per case"""
import json
import sys

from .core import digest
from .world import run_audit


def observe(stu, spec):
    try:
        o = run_audit(stu, spec)
    except Exception as e:
        return f'crash: {type(e).__name__}: {str(e)[:200]}'
    out = []
    for m in o.messages:
        if hasattr(m, 'result'):
            out.append([json.dumps(m.result.to_dict()), m.best_i, m.iters, m.total_iters, [c.clbid for c in m.transcript]])
        elif hasattr(m, 'estimate'):
            out.append(m.estimate)
        else:
            out.append(type(m).__name__)
    return out


def brief(stu, spec):
    """[status, rank, most rank, is it done] of the audit, or the crash"""
    try:
        t = run_audit(stu, spec).tree()
    except Exception as e:
        return f'crash: {type(e).__name__}: {str(e)[:200]}'
    return [t['status'], t['rank'], t['max_rank'], t['ok']]


def order(n):
    return ''.join(str(x) for x in {str(i) for i in range(1, n + 1)})


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'order':
        print(order(int(sys.argv[2])))
    elif len(sys.argv) > 1 and sys.argv[1] == 'serve':
        for line in sys.stdin:
            c = json.loads(line)
            print(json.dumps(brief(c['student'], c['spec'])), flush=True)
    else:
        for line in sys.stdin:
            c = json.loads(line)
            x = observe(c['student'], c['spec'])
            print(json.dumps([digest(x), x if len(sys.argv) > 1 and sys.argv[1] == 'full' else None]))
