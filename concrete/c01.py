"""C01: parallel map, splitting and batching"""
import time

from concrete.env import sb
from specs import parallel as spec

MT = sb('utils.multithreading')
MU = sb('utils.mutables')


class Boom(Exception):
    pass


def gen(rng):
    kind = rng.choice(['map', 'map', 'divide', 'divide', 'batch'])
    n = rng.choice([0, 1, 2, 3, 5, 7, 10, 13, 29, 64, 100, 257])
    n = rng.randint(max(0, n - 2), n)
    items = [rng.randint(0, 5) if rng.random() < .3 else i for i in range(n)]
    k = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 33, max(1, n - 1), max(n, 1), n + 1, n + 7, 49])
    case = dict(kind=kind, items=items, n=k)
    if kind == 'map':
        case['n'] = min(k, 40)
        case['fails'] = sorted(rng.sample(range(n), rng.randint(1, min(3, n)))) if n and rng.random() < .3 else []
        case['slow'] = sorted(rng.sample(range(n), min(3, n))) if rng.random() < .15 else []
    return case


def CORNERS():
    out = [dict(kind=k, items=list(range(n)), n=m, fails=[], slow=[]) for k in ('divide', 'batch')
           for n in range(0, 25) for m in range(1, 28)]
    out += [dict(kind='map', items=list(range(n)), n=m, fails=f, slow=s) for n in (0, 1, 2, 3, 8) for m in (1, 2, 3, 8, 9)
            for f in ([], [n - 1] if n else []) for s in ([], [0] if n else [])]
    out += [dict(kind='divide', items=list(range(n)), n=m) for n, m in ((50, 49), (98, 49), (100, 7), (1000, 333))]
    return out


def valid(case):
    return case['n'] >= 1 and all(i < len(case['items']) for i in case.get('fails', []) + case.get('slow', []))


def run(case):
    items = [(i, x) for i, x in enumerate(case['items'])]
    n = case['n']
    if case['kind'] == 'map':
        def process(item):
            if item[0] in case['slow']:
                time.sleep(0.03)
            if item[0] in case['fails']:
                raise Boom(item[0])
            return ('out', item)

        import threading
        hook, threading.excepthook = threading.excepthook, lambda *a: None
        join = threading.Thread.join

        def hasty_join(self, timeout=None):
            """The schedule in which any given time limit is too short"""
            if timeout is None:
                join(self)

        if case['slow']:
            threading.Thread.join = hasty_join
        try:
            got = ('value', MT.run_multithreads(list(items), process, n))
        except Exception as e:
            got = ('raise', repr(e))
        finally:
            threading.excepthook = hook
            threading.Thread.join = join
        if case['fails']:
            return None if got[0] == 'raise' else 'a failing item did not make the call fail: got %r' % (got,)
        exp = ('value', spec.parallel_map(items, process))
        if got[0] == 'value':
            got = ('value', list(got[1]))
        return None if got == exp else 'run_multithreads: expected %r, got %r' % (exp, got)
    if case['kind'] == 'divide':
        parts = [list(p) for p in MU.divide_list(list(items), n)]
        if spec.flatten(parts) != items:
            return 'divide_list(%d items, %d) loses or moves items: %r' % (len(items), n, parts)
        if len(parts) != spec.nb_parts(len(items), n):
            return 'divide_list(%d items, %d): %d parts' % (len(items), n, len(parts))
        sizes = [len(p) for p in parts]
        if sizes and max(sizes) - min(sizes) > 1:
            return 'divide_list(%d items, %d): unbalanced sizes %r' % (len(items), n, sizes)
        return None
    got = [list(b) for b in MU.make_batches(list(items), n)]
    exp = spec.batches(items, n)
    return None if got == exp else 'make_batches: expected %r, got %r' % (exp, got)
