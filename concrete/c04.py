"""C04: parser and tagger under arbitrary predictions"""
import numpy as np

from concrete import env
from concrete.env import sb
from specs import parsing as spec
from specs import vectors

PARSER = sb('syntax.parser')
TAGGER = sb('syntax.tagger')
TREE = sb('utils.tree')
TAGS = sb('syntax.tags')
DEPS = sb('syntax.dependencies')
TRANS = sb('syntax.transitions')
WORDS = ['w%d' % i for i in range(8)]
CODES = {c: i + 1 for i, c in enumerate('abcdefghijklmnopqrstuvwxyz0123456789†‡ʃʄ')}
VECTORS = {w: np.array([(i + 1) / 8 + j for j in range(100)], dtype=np.float32) for i, w in enumerate(WORDS)}
_READY = []


def gen(rng):
    n = rng.choice([1, 1, 2, 3, 5, 9])
    sents = [[rng.choice(WORDS) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 15] + ([50] if rng.random() < .1 else [])))]
             for _ in range(n)]
    return dict(kind='parse', sents=sents, seed=rng.randrange(10 ** 6), batch=rng.choice([1, 2, 3, 4, 7, 128]),
                procs=rng.choice([1, 2, 3, 8]),
                deps=rng.choice([None, None, [1], [1, 2], [2], [0], [8, 18, 24], [2, 8, 1, 24]]),
                trans=rng.choice([[0, 1, 2, 3], [0], [1], [2], [3], [0, 1], [2, 3], [0, 1, 1, 2], [1, 2]]))


def CORNERS():
    out = [dict(kind='codes')]
    for k in range(0, 5):
        for t in ([0], [1], [2], [3], [0, 1, 2, 3], [0, 1]):
            for s in range(3):
                out.append(dict(kind='parse', sents=[[WORDS[(i + s) % 8] for i in range(k)]], seed=s, batch=2, procs=1,
                                deps=None, trans=t))
    return out


def valid(case):
    return case['kind'] == 'codes' or (case['trans'] != [] and case['deps'] != [] and case['sents'] != [])


def vector(t):
    return [float(x) for x in VECTORS[t]] if t in VECTORS else [0.0] * 100


def run(case):
    if case['kind'] == 'codes':
        for e, names in ((TAGS.Tag, spec.TAG_NAMES), (DEPS.Dep, spec.DEP_NAMES), (TRANS.Trans, spec.TRANS_NAMES)):
            if [(x.name, x.value) for x in e] != [(n, i) for i, n in enumerate(names)]:
                return 'codes of %s' % e
        return None
    if not _READY:
        env.write_models(CODES, VECTORS)
        _READY.append(1)
    oracle = env.HashOracle(case['seed'], case['deps'], case['trans'])
    env.set_oracle(oracle)
    sents = case['sents']
    all_tags, all_trees = PARSER.Parser(case['procs'], case['batch'])([list(s) for s in sents])
    tagged = TAGGER.Tagger().tag([list(s) for s in sents])
    if len(all_tags) != len(sents) or len(all_trees) != len(sents) or len(tagged) != len(sents):
        return '%d sentences: %d tag lists, %d trees' % (len(sents), len(all_tags), len(all_trees))
    for k, tokens in enumerate(sents):
        n = len(tokens)
        chars = np.array(vectors.char_rows(tokens, lambda c: CODES.get(c, len(CODES) + 1)))
        words = np.array(vectors.word_rows(tokens, vector), dtype=np.float32)
        tag_codes = oracle.tags(chars, words)
        dep_codes = oracle.deps(tag_codes, chars, words)
        exp = tag_codes[1:n + 1]
        if [int(t) for t in all_tags[k]] != exp or not all(isinstance(t, TAGS.Tag) for t in all_tags[k]):
            return 'tags of sentence %d: expected %r, got %r' % (k, exp, all_tags[k])
        if [int(t) for t in tagged[k]] != exp:
            return 'tagger, sentence %d: expected %r, got %r' % (k, exp, tagged[k])

        def predict(s, b):
            return oracle.trans(tag_codes, dep_codes, chars, words, vectors.mask(s + 1), vectors.mask(b + 1))

        arcs = spec.parse(dep_codes[1:n + 1], predict)
        root = spec.root_of(arcs)
        got = all_trees[k]
        if root is None or got is None:
            if root is not None or got is not None:
                return 'tree of sentence %d: expected arcs %r, got %r' % (k, arcs, got)
            continue
        ref = TREE.Tree(root)
        for l, p, c in arcs:
            ref.register_child(DEPS.Dep(l), p, c)
        view = lambda t: (t.root, len(t), list(t), [(t.parent(i), t.children(i)) for i in range(n)])
        if view(got) != view(ref):
            return 'tree of sentence %d (labels %r): expected %r, got %r' % (k, dep_codes[1:n + 1], view(ref), view(got))
        for l, p, c in got:
            if not isinstance(l, DEPS.Dep):
                return 'label %r' % l
    return None
