"""C09: language model lookups"""
import math

from concrete import env
from concrete.env import sb
from specs import lm as spec

LM = sb('langmodel.language_model')
TC = sb('langmodel.token_context')
TOK = sb('preprocessing.tokenizer')
TOKENIZE = TOK.Tokenizer()
VOCAB = ['a', 'b', 'c', 'd', 'e']
PROBAS = ['0.50000000000000000', '0.25000000000000000', '0.10000000000000001', '0.00100000000000000', '1.00000000000000000',
          '0.33333333333333331', '0.00000001000000000']


def gen(rng):
    if rng.random() < .1:
        return dict(kind='context', token='t', before=['b%d' % i for i in range(rng.randint(0, 5))],
                    after=['a%d' % i for i in range(rng.randint(0, 5))], order=rng.choice([2, 3, 4, 5]))
    top = rng.choice([1, 2, 2, 3, 4])
    files = {}
    for n in range(1, top + rng.choice([1, 1, 2])):
        texts = {' '.join(rng.choice(VOCAB) for _ in range(n)) for _ in range(rng.choice([0, 2, 5, 12]))}
        files[str(n)] = [[t, rng.randint(1, 6), rng.choice(PROBAS[:rng.choice([2, 7])])] for t in sorted(texts)]
        rng.shuffle(files[str(n)])

    def text(k):
        return ' '.join(rng.choice(VOCAB + ['zz']) for _ in range(rng.randint(0, k)))

    return dict(kind='lm', files=files, mins=[rng.choice([1, 1, 2, 4]) for _ in range(top)],
                args=[text(3) or 'a' for _ in range(rng.randint(0, 5))],
                tokens=[rng.choice(VOCAB + ['zz']) for _ in range(rng.randint(0, 4))],
                before=rng.choice([None, '', text(4)]), after=rng.choice([None, '', text(4)]),
                limit=rng.choice([None, None, 0, 1, 2, 5]), context=text(5), min=rng.choice([0, 1, 2, 3, 5, -1]))


def CORNERS():
    out = [dict(kind='context', token='t', before=['b%d' % i for i in range(b)], after=['a%d' % i for i in range(a)], order=n)
           for b in range(5) for a in range(5) for n in range(2, 6)]
    out.append(dict(kind='lm', files={'1': [['a', 1, PROBAS[0]], ['b', 1, PROBAS[0]]]}, mins=[1], args=['b', 'a'], tokens=['a', 'b'],
                    before=None, after=None, limit=None, context='a', min=1))
    return out


def valid(case):
    if case['kind'] == 'context':
        return True
    if any(len(x) != 3 or not isinstance(x[0], str) for f in case['files'].values() for x in f):
        return False
    return len(case['mins']) >= 1 and all(str(i + 1) in case['files'] for i in range(len(case['mins'])))


def cut(what, got, found, proba, limit):
    """got must be `found` by decreasing probability (ties in any order), cut at the limit"""
    got = [tuple(x) for x in got]
    rest = [tuple(x) for x in found]
    n = len(rest) if limit is None else min(limit, len(rest))
    if len(got) != n:
        return '%s: %d entries instead of %d (%r)' % (what, len(got), n, got)
    for x in got:
        if x not in rest:
            return '%s: unexpected entry %r, matching entries %r' % (what, x, found)
        rest.remove(x)
        if rest and max(map(proba, rest)) > proba(x):
            return '%s: %r comes before a more probable entry' % (what, x)
    return None


def run(case):
    if case['kind'] == 'context':
        got = list(TC.TokenContext(case['token'], case['before'], case['after']).candidates(case['order']))
        exp = spec.contexts(case['token'], case['before'], case['after'], case['order'])
        return None if got == exp else 'contexts: expected %r, got %r' % (exp, got)
    env.write_langmodel({int(k): v for k, v in case['files'].items()})
    details = {}
    for i, m in enumerate(case['mins']):
        for t, c, p in case['files'][str(i + 1)]:
            if c >= m:
                details[t] = (c, float(p), math.log(float(p)))
    lm = LM.LanguageModel(*case['mins'])
    texts = sorted({t for f in case['files'].values() for t, _, _ in f} | {'zz', 'a zz'} | set(case['args']))
    if len(lm) != len(details):
        return 'size %d instead of %d' % (len(lm), len(details))
    for t in texts:
        if (t in lm) != (t in details):
            return '%r in the model: %r' % (t, t in lm)
        for m in (case['min'], 1, 2):
            if bool(lm.has_ngram(t, m)) != spec.has_ngram(details, t, m):
                return 'has_ngram(%r, %d)' % (t, m)
        if bool(lm.has_ngram(t)) != spec.has_ngram(details, t):
            return 'has_ngram(%r)' % t
    got, exp = lm.best_ngram(*case['args']), spec.best_ngram(details, case['args'])
    if got != exp:
        return 'best_ngram%r: expected %r, got %r' % (tuple(case['args']), exp, got)
    top = len(case['mins'])
    before, after = TOKENIZE(case['before']), TOKENIZE(case['after'])
    got = lm.best_token(*case['tokens'], before=case['before'], after=case['after'])
    exp = spec.best_token(details, top, case['tokens'], before, after)
    if (got is None) != (exp is None) or (got is not None and (
            got not in case['tokens'] or spec.rank(details, top, got, before, after) !=
            spec.rank(details, top, exp, before, after))):
        return 'best_token%r before %r after %r: expected %r, got %r' % (tuple(case['tokens']), before, after, exp, got)
    for order in range(0, top + 2):
        r = cut('top_ngrams(%d, %r)' % (order, case['limit']), lm.top_ngrams(order, case['limit']),
                spec.top_ngrams(details, order), lambda x: x[2], case['limit'])
        if r:
            return r
    for context in [case['context']] + texts[:4]:
        tokens = TOKENIZE(context)
        r = cut('next_word(%r, %r)' % (context, case['limit']), lm.next_word(context, case['limit']),
                spec.next_word(details, top, tokens), lambda x: x[1], case['limit'])
        r = r or cut('next_word(%r)' % context, lm.next_word(context), spec.next_word(details, top, tokens),
                     lambda x: x[1], None)
        if r:
            return r
    return None
