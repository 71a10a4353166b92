"""C07: n-gram extraction and counting"""
from concrete.env import sb
from specs import ngrams as spec

EX = sb('langmodel.ngrams_extraction')
ST = sb('langmodel.ngram_store')
TOKENS = ['a', 'b', 'cat', 'I', 'dog', '', 'The', 'iPhone', "'s", 'x1', '7', 'é', 'ı', 'ſ', 'aB', 'Z', '.', 'a-b', 'i',
          'A', 'II', 'Iz', 'zI', 'a\n', 'z', 'az', '@', '[', '`', '{', '•', 'K', 'ǅ']


def gen(rng):
    if rng.random() < .35:
        pool = rng.sample(['a', 'b', 'a b', 'b a', 'a b c', 'c', ' a', ''], rng.randint(1, 6))
        return dict(kind='store', texts=[rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 5, 12]))])
    good = rng.random()
    lists = [[rng.choice(TOKENS[:5] if rng.random() < good else TOKENS) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]))]
             for _ in range(rng.randint(0, 4))]
    return dict(kind='extract', lists=lists, order=rng.choice([1, 1, 2, 2, 3, 4, 5]), tuples=rng.random() < .1)


def CORNERS():
    out = [dict(kind='extract', lists=[[t]], order=1) for t in TOKENS]
    out += [dict(kind='extract', lists=[[t, 'a', t, 'b']], order=2) for t in TOKENS]
    out += [dict(kind='extract', lists=[['a', 'b', 'I', 'cat'], ['dog', 'a'], []], order=n) for n in (1, 2, 3, 4, 5)]
    out += [dict(kind='store', texts=t) for t in ([], ['a'], ['a', 'a'], ['a', 'b', 'a'], ['a b', 'a', 'a b', 'a b'])]
    return out


def valid(case):
    return case.get('order', 1) >= 1


def run(case):
    if case['kind'] == 'extract':
        got = list(EX.extract_ngrams(case['lists'], case['order']))
        exp = spec.extract_ngrams(case['lists'], case['order'])
        return None if got == exp else 'extract_ngrams(%r, %d): expected %r, got %r' % (
            case['lists'], case['order'], exp, got)
    store = ST.NgramStore()
    texts = []
    entries = {}
    for t in case['texts']:
        e = store.make_ngram(t)
        texts.append(t)
        if entries.setdefault(t, e) is not e:
            return 'adding %r again returned another entry' % t
        got = [(g.text, g.count) for g in store.ngrams]
        exp = spec.counts(texts)
        if got != exp or len(store) != len(exp):
            return 'store after %r: expected %r, got %r' % (texts, exp, got)
        if not any(g is e for g in store.ngrams):
            return 'the returned entry is not in the store'
        if e.tokens != t.split() or e.order != len(t.split()):
            return 'entry of %r: tokens %r' % (t, e.tokens)
    return None if len(store) == len(spec.counts(texts)) else 'wrong size'
