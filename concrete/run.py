"""Cross-check of the real code against the executable contracts.

run.py PROPERTY --seed N --seconds S [--cases N] [--out FILE]   explores; exit 0
run.py PROPERTY --replay FILE                                   runs the case of a replay file; exit 1 when it fails
"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concrete import env  # noqa: E402


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def run_case(mod, case, limit=30):
    """None when the contract holds on the case, else a description"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return mod.run(case)
    except CaseTimeout:
        return 'no result within %d s' % limit
    except Exception:
        return 'unexpected failure: ' + traceback.format_exc(limit=-6)
    finally:
        signal.alarm(0)


def shrink(mod, case, budget=20):
    """Smaller failing case by generic JSON shrinking (lists lose elements)"""
    end = time.time() + budget

    def variants(x):
        if isinstance(x, list):
            n = len(x)
            step = n // 2
            while step >= 1:
                for i in range(0, n, step):
                    yield x[:i] + x[i + step:]
                step //= 2
            for i, e in enumerate(x):
                for v in variants(e):
                    yield x[:i] + [v] + x[i + 1:]
        elif isinstance(x, dict):
            for k in x:
                for v in variants(x[k]):
                    yield dict(x, **{k: v})

    ok = getattr(mod, 'valid', lambda c: True)
    progress = True
    while progress and time.time() < end:
        progress = False
        for v in variants(case):
            if time.time() > end:
                break
            try:
                if not ok(v):
                    continue
                r = run_case(mod, v, 5)
            except Exception:
                continue
            if r is not None and not r.startswith('unexpected failure') and not r.startswith('no result'):
                case = v
                progress = True
                break
    return case


def nontrivial(x):
    """Some list, text or mapping other than the case itself has at least two members"""
    def big(v):
        if isinstance(v, (list, dict)):
            return len(v) >= 2 or any(big(e) for e in (v.values() if isinstance(v, dict) else v))
        return False
    return any(big(v) or (isinstance(v, str) and k != 'kind' and len(v) >= 2) for k, v in x.items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--cases', type=int, default=10 ** 9)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--focus', default='')
    args = ap.parse_args()
    env.setup()
    out = {'property': args.prop, 'cases': 0, 'failure': None}
    try:
        mod = importlib.import_module('concrete.' + args.prop.lower())
    except Exception:
        # The code under test cannot even be imported or set up
        out['failure'] = {'case': None, 'what': 'setup failed: ' + traceback.format_exc(limit=-8)}
        mod = None
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        r = run_case(mod, rec['case']) if mod else out['failure']['what']
        print('REPRODUCED: ' + r if r else 'not reproduced')
        sys.exit(1 if r else 0)
    if mod:
        rng = random.Random(args.seed * 7919 + 17)
        end = time.time() + args.seconds
        corners = list(mod.CORNERS() if callable(mod.CORNERS) else mod.CORNERS)
        kinds = {}
        seen = set()
        samples = []
        while time.time() < end and out['cases'] < args.cases or corners:
            if corners:
                case = corners.pop(0)
            else:
                case = mod.gen(rng)
            case = json.loads(json.dumps(case))
            out['cases'] += 1
            kinds[str(case.get('kind'))] = kinds.get(str(case.get('kind')), 0) + 1
            text = json.dumps(case, sort_keys=True)
            if nontrivial(case):
                seen.add(hash(text))
                if len(samples) < 2 and len(text) < 1500:
                    samples.append(case)
            r = run_case(mod, case)
            if r is not None:
                small = shrink(mod, case)
                r2 = run_case(mod, small) or r
                out['failure'] = {'case': small, 'what': r2[:4000], 'hashseed': os.environ.get('PYTHONHASHSEED', 'random')}
                break
        out['kinds'] = kinds
        out['distinct'] = len(seen)
        out['samples'] = samples
    if args.out:
        with open(args.out, 'w') as f:
            json.dump(out, f, indent=1, ensure_ascii=False)
    else:
        print(json.dumps(out, indent=1, ensure_ascii=False))
    sys.stdout.flush()
    sys.exit(0)


if __name__ == '__main__':
    main()
