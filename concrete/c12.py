"""C12: lemmatization"""
from concrete.env import sb
from concrete import fake
from specs import lemma as spec

LEM = sb('normalization.lemmatizer')
TAGS = sb('syntax.tags')
ENDINGS = ['est', 'er', 'iest', 'ier', 'icking', 'icked', 'ing', 'icks', 'ed', 'ied', 'ies', 'es', 's', 'a', 'ieves', 'i',
           'ves', 'men', 'ss', '', 'y', 'e', 'ting', 'tted', 'lled', 'tter', 'ttest', 'yying', 'xxed']
STEMS = ['', 'a', 'b', 'ab', 'ba', 'bat', 'batt', 'run', 'runn', 'th', 'wol', 'wo', 'fre', 'part', 'l', 'boy', 'happ',
         'reb', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand', 're-b', 're', 'grandch', 'a-b-c', 'x-', '-x', '-', "o'n",
         'É', 'ßt', 'tall', 'fatt', 'criteri', 'nucle', 'berr', 'fox', 'analys', 'gla', 'picn', 'oot', 'eell', 'bakk']
FIXED = ["'m", 'am', "'re", 'are', "'s", 'is', 'being', 'has', 'doing', 'need', 'better', 'best', "'", 'acumen', 'Am',
         'needs', 'went', 'gone', 'mice', 'worse', 'worst', 'rewent', 're-gone', 'submice', 'grandmice', 'unworst',
         'up-mice', 'outworse', 'comen', 'need-mice', 're-need', '1', '&', 'mis-went', 'sub-', '-mice', 'dismice', 'ss',
         'hot mice', 'i', 'a', 's', 'es', 'ed', 'ing', 'er', 'est']
TABLES = [['mice', 'mouse'], ['gone', 'go'], ['went', 'go'], ['worse', 'bad'], ['worst', 'bad']]


def gen(rng):
    if rng.random() < .2:
        word = rng.choice(FIXED)
    else:
        word = rng.choice(['', '', '', 're', 'un', 'co-', 'Out', 'sub']) + rng.choice(STEMS) + rng.choice(ENDINGS)
        if rng.random() < .2:
            word = ''.join(rng.choice('abeeiksttny-') for _ in range(rng.randint(1, 4))) + rng.choice(ENDINGS)
    word = word or 'x'
    if rng.random() < .1:
        word = word.capitalize()
    tag = rng.choice([14, 14, 14, 8, 8, 8, 1, 1, 1, 3, 12, 11, 15, 9, rng.randrange(17)])
    extra = [[word.lower(), 'irr%d' % i] if rng.random() < .06 else None for i in range(5)]
    return dict(kind='lemma', word=word, tag=tag, lm=rng.randrange(10 ** 6), share=rng.choice([0, .05, .2, .5, .9, 1]),
                adjs=[word.lower()] if rng.random() < .4 else [], extra=extra)


def CORNERS():
    out = []
    for tag in range(17):
        for w in FIXED:
            out.append(dict(kind='lemma', word=w, tag=tag, lm=1, share=.5, adjs=[], extra=[None] * 5))
    for tag in (1, 14, 8):
        for s in STEMS:
            for e in ENDINGS:
                if s + e:
                    for lm, share in ((1, 1), (2, .3)):
                        out.append(dict(kind='lemma', word=s + e, tag=tag, lm=lm, share=share, adjs=[], extra=[None] * 5))
    return out


def valid(case):
    return bool(case['word']) and len(case['extra']) == 5 and all(x is None or len(x) == 2 for x in case['extra'])


def run(case):
    tables = [dict([t] + ([x] if x else [])) for t, x in zip(TABLES, case['extra'])]
    plurals, pps, preterits, comparatives, superlatives = tables
    lm = fake.FakeLM(case['lm'], case['share'])
    adjs = set(case['adjs'])
    lem = LEM.Lemmatizer(lm, adjs, preterits, pps, plurals, comparatives, superlatives, {v: k for k, v in pps.items()})
    tag = TAGS.Tag(case['tag'])
    got = lem(case['word'], tag)
    exp = spec.lemmatize(case['word'], tag, lm, adjs, tables)
    return None if tuple(got) == tuple(exp) else 'lemmatize(%r, %s): expected %r, got %r' % (case['word'], tag, exp, got)
