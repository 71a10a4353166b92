"""C08: smoothing"""
import fractions
import math

from concrete.env import sb
from specs import smoothing as spec

MLE = sb('langmodel.mle_smoother')
MKN = sb('langmodel.mkn_smoother')
NG = sb('langmodel.ngram')


def gen(rng):
    kind = rng.choice(['mle', 'mkn', 'mkn', 'mkn'])
    order = rng.choice([1, 2, 2, 3, 4]) if kind == 'mle' else rng.choice([2, 2, 3, 3, 4])
    vocab = ['w%d' % i for i in range(rng.choice([2, 3, 4, 5]))]
    counts = {}
    for _ in range(rng.choice([1, 3, 8, 20, 30])):
        sent = [rng.choice(vocab) for _ in range(rng.choice([1, 2, 3, 5, 8]))]
        for n in range(1, order + 1):
            for i in range(len(sent) - n + 1):
                t = ' '.join(sent[i:i + n])
                counts[t] = counts.get(t, 0) + 1
    if rng.random() < .6:
        # Any counts will do
        for t in counts:
            counts[t] = rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 5, 9])
    ngrams = [[t, c] for t, c in counts.items()]
    if rng.random() < .5:
        rng.shuffle(ngrams)
    return dict(kind=kind, ngrams=ngrams, order=order, procs=rng.choice([1, 1, 2, 3, 4, 5, 8, 16, 60]))


def CORNERS():
    base = [['a', 1], ['b', 2], ['c', 3], ['d', 4], ['a b', 1], ['b c', 2], ['c d', 3], ['d a', 4], ['a a', 5]]
    return [dict(kind=k, ngrams=base, order=2, procs=p) for k in ('mle', 'mkn') for p in range(1, 14)] + \
           [dict(kind='mle', ngrams=[], order=1, procs=2), dict(kind='mle', ngrams=[['a', 2]], order=2, procs=2)]


def valid(case):
    texts = [t for t, _ in case['ngrams'] if isinstance(t, str)]
    if any(len(x) != 2 for x in case['ngrams']):
        return False
    for t in texts:
        w = t.split()
        if not w or len(w) > case['order']:
            return False
        if len(w) > 1 and (' '.join(w[1:]) not in texts or ' '.join(w[:-1]) not in texts):
            return False
    return case['order'] >= (1 if case['kind'] == 'mle' else 2)


def run(case):
    ngrams = []
    for t, c in case['ngrams']:
        g = NG.Ngram(t)
        g.count = c
        ngrams.append(g)
    data = [(tuple(t.split()), c) for t, c in case['ngrams']]
    if case['kind'] == 'mle':
        s = MLE.MLESmoother(ngrams, case['order'], case['procs'])()
        exp = {' '.join(t): spec.mle(data, t, fractions.Fraction(c)) for t, c in data}
    else:
        try:
            m = MKN.MKNSmoother(ngrams, case['order'], case['procs'])
        except MKN.ModifiedKneserNeyNotEnoughDataError:
            return None if not spec.enough_data(data, case['order']) else 'refused rich enough data'
        if not spec.enough_data(data, case['order']):
            return 'accepted too poor data'
        s = m()
        tables = spec.Tables(data, case['order'], fractions.Fraction)
        exp = {' '.join(t): spec.mkn(tables, t) for t, c in data}
        for n in range(2, case['order'] + 1):
            got = (m.discount_1(n), m.discount_2(n), m.discount_3(n))
            if not all(math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12) for a, b in zip(got, tables.d[n])):
                return 'discounts of order %d: expected %r, got %r' % (n, tables.d[n], got)
    found = [g for n in range(1, case['order'] + 1) for g in s.ngrams(n)]
    if sorted(g.text for g in found) != sorted(exp) or any(g.order != n for n in range(1, case['order'] + 1) for g in s.ngrams(n)):
        return 'n-grams by order: %r' % found
    for g in found:
        e = float(exp[g.text])
        if not math.isclose(g.proba, e, rel_tol=1e-9, abs_tol=1e-12):
            return 'probability of %r with %d processes: expected %r, got %r' % (g.text, case['procs'], e, g.proba)
        lp = math.log(g.proba) if g.proba > 0 else float('-inf')
        if g.logp != lp and not math.isclose(g.logp, lp, rel_tol=1e-12):
            return 'log-probability of %r: expected %r, got %r' % (g.text, lp, g.logp)
        if [g.count] != [c for t, c in case['ngrams'] if t == g.text]:
            return 'count of %r changed' % g.text
    if case['kind'] == 'mle':
        for n in range(1, case['order'] + 1):
            if s.ngrams(n) and not math.isclose(sum(g.proba for g in s.ngrams(n)), 1, rel_tol=1e-9):
                return 'order %d does not sum to one' % n
    return None
