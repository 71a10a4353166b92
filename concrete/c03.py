"""C03: vectors fed to the models"""
import numpy as np

from concrete import env
from concrete.env import sb
from specs import vectors as spec

TS = sb('syntax.training_samples')
CS = sb('syntax.charset')
WS = sb('syntax.wordset')
TAGS = sb('syntax.tags')
DEPS = sb('syntax.dependencies')
TRANS = sb('syntax.transitions')
CHARS = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123.,†‡ʃʄ'
WORDS = ['the', 'cat', 'ʃʃʃ', 'ʄʄʄ', 'i', 'zz']
CODES = {c: 3 * i + 1 for i, c in enumerate(CHARS)}
UNKNOWN = max(CODES.values()) + 1
VECTORS = {w: np.array([i + 1 + j / 128 for j in range(spec.VECTOR)], dtype=np.float32) for i, w in enumerate(WORDS)}


def gen(rng):
    kind = rng.choice(['vec', 'vec', 'sample', 'mask', 'charset'])
    if kind == 'mask':
        return dict(kind=kind, i=rng.randrange(52), j=rng.randrange(52))
    if kind == 'charset':
        return dict(kind=kind, codes=[rng.randrange(500) for _ in range(rng.randint(1, 20))])
    n = rng.choice([0, 1, 2, 5, 20, 48, 49, 50, 50, 51, 52, 53, 70])
    if kind == 'sample':
        n = rng.choice([1, 2, 5, 20, 49, 50])
    tokens = []
    for _ in range(n):
        k = rng.choice([0, 1, 2, 5, 18, 19, 20, 21, 22, 23, 30, 45])
        tokens.append(rng.choice(WORDS + ['The', 'CAT', 'İ']) if rng.random() < .4 else
                      ''.join(rng.choice(CHARS[:-4] + '†‡é漢\n ') for _ in range(k)))
    case = dict(kind=kind, tokens=tokens)
    if kind == 'sample':
        case.update(tags=[rng.randrange(1, 17) for _ in tokens], deps=[rng.randrange(1, 25) for _ in tokens],
                    i=rng.randrange(n), j=rng.randrange(n), trans=rng.randrange(4))
    return case


def CORNERS():
    out = [dict(kind='vec', tokens=['t%d' % i for i in range(n)]) for n in range(0, 60)]
    out += [dict(kind='vec', tokens=['a' + 'b' * k + 'c']) for k in range(0, 30)]
    out += [dict(kind='mask', i=i, j=(i * 7) % 52) for i in range(52)]
    out += [dict(kind='save')]
    return out


def valid(case):
    if case['kind'] == 'charset':
        return bool(case['codes'])
    if case['kind'] == 'sample':
        n = len(case['tokens'])
        return 0 < n <= 50 and len(case['tags']) == n and len(case['deps']) == n and case['i'] < n and case['j'] < n
    return True


def code(c):
    return CODES.get(c, UNKNOWN)


def vector(t):
    return [float(x) for x in VECTORS[t.lower()]] if t.lower() in VECTORS else [0.0] * spec.VECTOR


def same(what, got, exp, kind='iu'):
    got = np.asarray(got)
    exp = np.asarray(exp)
    if got.shape != exp.shape:
        return '%s: shape %r instead of %r' % (what, got.shape, exp.shape)
    if not np.array_equal(got.astype(np.float64), exp.astype(np.float64)):
        k = np.argwhere(got.astype(np.float64) != exp.astype(np.float64))[0]
        return '%s: cell %r is %r instead of %r' % (what, k.tolist(), got[tuple(k)], exp[tuple(k)])
    return None


def load():
    env.write_models(CODES, VECTORS)
    return CS.Charset().load(), WS.Wordset().load()


def run(case):
    if case['kind'] == 'mask':
        m1, m2 = TS.make_masks(case['i'], case['j'])
        return same('first mask', m1, spec.mask(case['i'])) or same('second mask', m2, spec.mask(case['j']))
    if case['kind'] in ('charset', 'save'):
        if case['kind'] == 'save':
            CS.Charset().save()
            import pickle
            with open(env.data('models', 'char_codes.pkl'), 'rb') as f:
                codes = pickle.load(f)
            if len(set(codes.values())) != len(codes) or not set('abzAZ09†‡ʃʄ.,!') <= set(codes):
                return 'saved character codes are not distinct or incomplete'
        else:
            codes = {chr(65 + i): c for i, c in enumerate(case['codes'])}
            env.write_models(codes, VECTORS)
        cs = CS.Charset().load()
        unk = cs['\u6f22']
        if unk in codes.values() or unk <= 0:
            return 'unknown characters share code %r with a known one' % unk
        if cs['\u5b57'] != unk or len(cs) != len(codes) + 1:
            return 'unknown characters have several codes'
        for c in codes:
            if cs[c] != codes[c]:
                return 'code of %r' % c
        return None
    cs, ws = load()
    tokens = case['tokens']
    if case['kind'] == 'vec':
        given = list(tokens)
        try:
            n, chars, words = TS.vectorize_sentence(given, cs, ws)
        except TS.SentenceTooLongError:
            return None if len(tokens) > spec.MAX_TOKENS else 'rejected a sentence of %d tokens' % len(tokens)
        if len(tokens) > spec.MAX_TOKENS:
            return 'accepted a sentence of %d tokens' % len(tokens)
        if given != tokens:
            return 'the tokens were changed'
        if n != len(tokens) + 2:
            return 'length %r for %d tokens' % (n, len(tokens))
        return same('chars', chars, spec.char_rows(tokens, code)) or same('words', words, spec.word_rows(tokens, vector))
    tags = [TAGS.Tag(t) for t in case['tags']]
    deps = [DEPS.Dep(t) for t in case['deps']]
    chars, words = spec.char_rows(tokens, code), spec.word_rows(tokens, vector)
    trow, drow = spec.label_row(case['tags']), spec.label_row(case['deps'])
    s = TS.PTagsSample(tokens, tags, cs, ws).training_mats
    r = same('chars', s[0], chars) or same('words', s[1], words) or same('tags', s[2], trow)
    if r or len(s) != 3:
        return 'tag sample: %s' % r
    s = TS.PDepsSample(tokens, tags, deps, cs, ws).training_mats
    r = same('tags', s[0], trow) or same('chars', s[1], chars) or same('words', s[2], words) or same('deps', s[3], drow)
    if r or len(s) != 4:
        return 'label sample: %s' % r
    s = TS.TransSample(tokens, tags, deps, case['i'], case['j'], TRANS.Trans(case['trans']), cs, ws).training_mats
    r = same('tags', s[0], trow) or same('deps', s[1], drow) or same('chars', s[2], chars) or same('words', s[3], words) \
        or same('mask 1', s[4], spec.mask(case['i'] + 1)) or same('mask 2', s[5], spec.mask(case['j'] + 1))
    if r or len(s) != 7 or int(s[6]) != case['trans']:
        return 'transition sample: %s' % (r or s[6])
    return None
