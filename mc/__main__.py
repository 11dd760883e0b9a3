"""python -m mc check <ID> [--tier quick|thorough] | replay <file> | list"""
import importlib
import json
import os
import sys


def prop_for(pid):
    mod = importlib.import_module(f'mc.props.{pid.lower()}')
    return mod.PROP


def main(argv):
    if argv[0] == 'check':
        pid = argv[1]
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        from mc.core import run_check
        return run_check(prop_for(pid), tier)
    if argv[0] == 'replay':
        with open(argv[1]) as f:
            doc = json.load(f)
        from mc.core import judge
        prop = prop_for(doc['property'])
        if hasattr(prop, 'prepare'):
            prop.prepare('quick')
        if hasattr(prop, 'setup_worker'):
            prop.setup_worker('quick')
        v, outcome, _ = judge(prop, doc['case'])
        v2, outcome2, _ = judge(prop, doc['case'])
        assert v == v2, ('the replay is not deterministic', v, v2)
        print(json.dumps({'violations': v, 'outcome': outcome}, indent=1, default=str))
        return 1 if v else 0
    raise SystemExit(__doc__)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
