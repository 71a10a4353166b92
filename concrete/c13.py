"""C13: spelling standardization and past participles"""
from concrete.env import sb
from concrete import fake
from specs import spelling as spec

STD = sb('normalization.standardizer')
INF = sb('normalization.inflector')
STARTS = ['', 'a', 'co', 'col', 'colo', 'standard', 'anal', 'defen', 'catal', 'trav', 'leuk', 'trax', 'x1', 'Co', 'COL',
          'é', 'ır', 'abc', 'ab', 'or', 'our', 'ooell', 'izis']
MIDS = ['our', 'or', 'ys', 'yz', 'is', 'iz', 'c', 's', 'og', 'ogue', 'el', 'ell', 'ae', 'oe', '', 'OUR', 'Is', 'aeoe', 'oeae']
ENDS = ['ing', 'ed', 's', '', 'ations', 'ation', 'ers', 'er', 'es', 'e', 'ives', 'ive', 'mia', 'ING', 'x', '.', '\n']
LEMMAS = ['tie', 'die', 'ie', 'cry', 'play', 'bake', 'free', 'see', 'stop', 'fix', 'a', 'e', 'y', 'b', 'oy', 'by', 'be',
          'ab', 'aie', 'lie', 'stay', 'glue', 'row', 'go', 'sing', 'do', 'x1', "'s", 'ee', 'at', 'rye', '-ie', 'Aie', 'eE',
          'tY', '', 'zz', 'aaie', 'ae', 'ya', 'yb']


def gen(rng):
    if rng.random() < .3:
        lemma = rng.choice(LEMMAS) if rng.random() < .5 else \
            ''.join(rng.choice('abeiytosxl') for _ in range(rng.randint(1, 5)))
        return dict(kind='pp', word=lemma, lm=rng.randrange(10 ** 6), share=rng.choice([0, .3, .6, 1]))
    w = rng.choice(STARTS) + rng.choice(MIDS) + rng.choice(ENDS)
    if rng.random() < .15:
        w = rng.choice(MIDS) + w
    return dict(kind='std', word=w, lm=rng.randrange(10 ** 6), share=rng.choice([0, .2, .5, .8, 1]))


def CORNERS():
    out = [dict(kind='pp', word=w, lm=m, share=s) for w in LEMMAS for m in (1, 2, 3) for s in (0, .5, 1)]
    out += [dict(kind='std', word=a + b + c, lm=m, share=s) for a in STARTS for b in MIDS for c in ENDS
            for m, s in ((1, .5), (2, 1))]
    return out


def run(case):
    lm = fake.FakeLM(case['lm'], case['share'])
    w = case['word']
    if case['kind'] == 'pp':
        irregular = {'sing': 'sung', 'do': 'done'}
        got = INF.Inflector(lm, irregular).past_participle(w)
        exp = spec.past_participle(w, lm, irregular)
        return None if got == exp else 'past_participle(%r): expected %r, got %r' % (w, exp, got)
    got = STD.Standardizer(lm)(w)
    exp = spec.standardize(w, lm, spec.alternation)
    return None if got == exp else 'standardize(%r): expected %r, got %r' % (w, exp, got)
