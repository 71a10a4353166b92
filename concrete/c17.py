"""C17: building and loading back a language model"""
import contextlib
import io
import math
import os

from concrete import env
from concrete.env import sb
from specs import ngrams as nspec
from specs import smoothing as sspec

B = sb('langmodel.language_model_builder')
LM = sb('langmodel.language_model')
SENT = sb('preprocessing.sentencizer')
MKN = sb('langmodel.mkn_smoother')
EXC = sb('exceptions')
SENTENCIZE = SENT.Sentencizer()
WORDS = ['the', 'cat', 'sat', 'on', 'a', 'mat', 'I', 'London', 'x1', 'and']


def gen(rng):
    mkn = rng.random() < .6
    order = rng.choice([2, 2, 3]) if mkn else rng.choice([1, 2, 3])
    vocab = WORDS[:rng.choice([3, 4, 10])]
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 9])
    texts = []
    for _ in range(n):
        words = [rng.choice(vocab) + rng.choice(['', '', '', '', '. ', ', ']) for _ in range(rng.choice([0, 1, 5, 20, 60]))]
        texts.append(' '.join(words))
    return dict(kind='build', texts=texts, order=order, mkn=mkn, procs=rng.choice([1, 2, 3, 4]))


def CORNERS():
    text = 'the cat sat on the mat. the cat and the mat. a cat on a mat and a cat on the mat. the cat sat on a cat. the mat on the mat'
    out = [dict(kind='build', texts=[text] * k, order=o, mkn=False, procs=p) for k in (0, 1, 2, 3, 4, 5) for o, p in ((2, 2), (1, 1))]
    out += [dict(kind='build', texts=[text, text[:60], text[:30], text[:90]], order=2, mkn=True, procs=p) for p in (1, 2, 3)]
    out += [dict(kind='build', texts=['I'], order=3, mkn=False, procs=2)]
    out += [dict(kind='refuse', smoothing=s, order=o) for s, o in
            (('x', 2), ('', 3), ('modified_kneser_ney', 1), ('modified_kneser_ney', 0), ('MLE', 1))]
    return out


def run(case):
    for f in os.listdir(env.data('langmodel')):
        os.remove(env.data('langmodel', f))
    if case['kind'] == 'refuse':
        try:
            B.LanguageModelBuilder(case['order'], smoothing=case['smoothing'])
        except EXC.ArgumentValueError:
            bad = case['smoothing'] in ('modified_kneser_ney', 'maximum_likelihood_estimation')
        except B.ModifiedKneserNeyMinOrderError:
            bad = case['smoothing'] != 'modified_kneser_ney' or case['order'] > 1
        else:
            bad = True
        return 'smoothing %r with order %d' % (case['smoothing'], case['order']) if bad or os.listdir(env.data('langmodel')) else None
    method = 'modified_kneser_ney' if case['mkn'] else 'maximum_likelihood_estimation'
    texts = [t for text in case['texts'] for n in range(1, case['order'] + 1) for t in nspec.extract_ngrams(SENTENCIZE(text), n)]
    data = [(tuple(t.split()), c) for t, c in nspec.counts(texts)]
    builder = B.LanguageModelBuilder(case['order'], smoothing=method, nb_processes=case['procs'])
    pulled = []

    def feed():
        for t in case['texts']:
            pulled.append(t)
            yield t

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            builder(feed())
    except MKN.ModifiedKneserNeyNotEnoughDataError:
        if not case['mkn'] or sspec.enough_data(data, case['order']):
            return 'refused rich enough data'
        return 'wrote files before refusing' if os.listdir(env.data('langmodel')) else None
    if case['mkn'] and not sspec.enough_data(data, case['order']):
        return 'accepted too poor data'
    if case['mkn']:
        tables = sspec.Tables(data, case['order'])
        exp = {' '.join(t): (c, sspec.mkn(tables, t)) for t, c in data}
    else:
        exp = {' '.join(t): (c, sspec.mle(data, t, c)) for t, c in data}
    exp = {t: v for t, v in exp.items() if v[1] > 1e-15}
    names = sorted(os.listdir(env.data('langmodel')))
    if names != ['%d_grams.txt' % n for n in range(1, case['order'] + 1)]:
        return 'files: %r' % names
    seen = {}
    for n in range(1, case['order'] + 1):
        with open(env.data('langmodel', '%d_grams.txt' % n), encoding='utf-8') as f:
            rows = [line.rstrip('\n').split('\t') for line in f]
        last = float('inf')
        for row in rows:
            if len(row) != 3 or len(row[0].split()) != n or row[0] in seen:
                return 'line %r of order %d' % (row, n)
            seen[row[0]] = (int(row[1]), float(row[2]))
            if float(row[2]) > last:
                return 'order %d: not by decreasing probability' % n
            last = float(row[2])
    if set(seen) != set(exp):
        return 'written n-grams: missing %r, unexpected %r' % (sorted(set(exp) - set(seen))[:9], sorted(set(seen) - set(exp))[:9])
    for t, (c, p) in seen.items():
        if c != exp[t][0] or not math.isclose(p, exp[t][1], rel_tol=1e-9, abs_tol=1e-15):
            return '%r: expected count and probability %r, written %r' % (t, exp[t], (c, p))
    lm = LM.LanguageModel(*[1] * case['order'])
    back = {}
    for n in range(1, case['order'] + 1):
        for t, c, p in lm.top_ngrams(n):
            back[t] = (c, p)
    if back != seen or len(lm) != len(seen):
        return 'loaded back: %d n-grams instead of %d, or different values' % (len(lm), len(seen))
    return None
