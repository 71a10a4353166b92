"""C05: labelled sentences"""
import random

import numpy as np

from concrete import env
from concrete.env import sb
from specs import parsing as spec
from specs import vectors
from concrete import c03

LD = sb('syntax.labelled_data')
TAGS = sb('syntax.tags')
DEPS = sb('syntax.dependencies')
TRANS = sb('syntax.transitions')
IN_TREE = [n for n in spec.DEP_NAMES if n not in ('NODEP', 'ROOT', 'PAD')]


def projective(rng, lo, hi, up, out):
    """Random projective tree over lo..hi-1 attached to up"""
    if lo >= hi:
        return
    head = rng.randrange(lo, hi)
    out[head] = up
    for a, b in ((lo, head), (head + 1, hi)):
        while a < b:
            c = rng.randint(a + 1, b)
            projective(rng, a, c, head, out)
            a = c


def gen(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 11, 15])
    kind = rng.choice(['projective', 'projective', 'any'])
    heads = [-1] * n
    if kind == 'projective':
        projective(rng, 0, n, -1, heads)
        labels = ['ROOT' if h == -1 else rng.choice(IN_TREE) for h in heads]
        toks = [['t%d' % i, rng.choice(spec.TAG_NAMES[1:]), labels[i], heads[i]] for i in range(n)]
        # Insert tokens out of the tree
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            at = rng.randint(0, len(toks))
            toks = [[t, g, l, h + 1 if h >= at else h] for t, g, l, h in toks]
            toks.insert(at, ['.', 'PUNCT', 'NODEP', -1])
    else:
        toks = []
        for i in range(n):
            h = rng.choice([-1, rng.randrange(n), rng.randrange(n)])
            if h == i:
                h = -1
            toks.append(['T%d' % i, rng.choice(spec.TAG_NAMES), rng.choice(['ROOT', 'NODEP', 'PAD'] + IN_TREE), h])
        # The first arcs decide; break cycles
        for i in range(n):
            seen, j = set(), i
            while j != -1 and j not in seen:
                seen.add(j)
                j = toks[j][3]
            if j != -1:
                toks[i][3] = -1
    return dict(kind=kind, toks=toks, seed=rng.randrange(1000), train=rng.random() < .1)


def CORNERS():
    out = [dict(kind='any', toks=[], seed=0, train=True), dict(kind='any', toks=[['.', 'PUNCT', 'NODEP', -1]], seed=0, train=True),
           dict(kind='projective', toks=[['a', 'VERB', 'ROOT', -1]], seed=0, train=True)]
    return out


def valid(case):
    toks = case['toks']
    n = len(toks)
    if any(len(t) != 4 or t[3] >= n or t[3] == i for i, t in enumerate(toks)):
        return False
    for i in range(n):
        seen, j = set(), i
        while j != -1 and j not in seen:
            seen.add(j)
            j = toks[j][3]
        if j != -1:
            return False
    if case['kind'] == 'projective':
        tree = [i for i, t in enumerate(toks) if t[2] != 'NODEP']
        if sum(t[2] == 'ROOT' for t in toks) != 1 or any((t[3] == -1) != (t[2] in ('ROOT', 'NODEP')) for t in toks):
            return False
        arcs = [tuple(sorted((i, toks[i][3]))) for i in tree if toks[i][3] != -1]
        if any(toks[toks[i][3]][2] == 'NODEP' for i in tree if toks[i][3] != -1):
            return False
        root = [i for i in tree if toks[i][3] == -1][0]
        if any(a[0] < root < a[1] for a in arcs):
            return False
        return not any(a[0] < b[0] < a[1] < b[1] for a in arcs for b in arcs)
    return True


def run(case):
    if not valid(case):
        return None
    toks = [tuple(t) for t in case['toks']]
    sent = LD.LabelledSentence(5, toks)
    rooted = any(t[2] == 'ROOT' for t in toks)
    if not rooted:
        if sent.tree is not None or len(sent) != 0 or list(sent.transitions) != []:
            return 'a sentence without root has a tree, tokens or transitions'
        return train(case, toks)
    n = len(toks)
    if list(sent.tokens) != [t[0] for t in toks] or list(sent) != list(sent.tokens) or len(sent) != n \
            or [sent[i] for i in range(n)] != list(sent.tokens) or str(sent) != ' '.join(t[0] for t in toks):
        return 'tokens: %r' % sent.tokens
    if list(sent.tags) != [TAGS.Tag[t[1]] for t in toks] or list(sent.deps) != [DEPS.Dep[t[2]] for t in toks]:
        return 'tags or labels: %r %r' % (sent.tags, sent.deps)
    arcs = [(DEPS.Dep[t[2]], t[3], i) for i, t in enumerate(toks) if t[2] not in ('ROOT', 'NODEP') and t[3] > -1]
    if list(sent.tree) != arcs or sent.tree.root != [t[2] for t in toks].index('ROOT'):
        return 'tree: expected %r, got %r rooted at %r' % (arcs, list(sent.tree), sent.tree.root)
    if list(sent.valid_idxs) != [i for i, t in enumerate(toks) if t[2] != 'NODEP']:
        return 'valid indexes: %r' % sent.valid_idxs
    heads = {c: p for _, p, c in arcs}
    deps = [spec.DEP_NAMES.index(t[2]) for t in toks]
    exp = spec.oracle(deps, heads.get, lambda i: [c for c in heads if heads[c] == i])
    got = [(a, b, int(t)) for a, b, t in sent.transitions]
    if got != exp:
        return 'transitions: expected %r, got %r' % (exp, got)
    if case['kind'] == 'projective':
        stack, buffer = spec.initial(deps)
        built = []
        for s, b, t in got:
            if not buffer or stack[-1] != s or buffer[0] != b:
                return 'transition (%d, %d) does not apply' % (s, b)
            new, stack, buffer = spec.step(deps, stack, buffer, t)
            built += new
        if buffer or sorted(built) != sorted((int(l), p, c) for l, p, c in arcs):
            return 'replaying the transitions builds %r instead of %r' % (built, arcs)
    for i in range(n):
        if bool(sent.is_leaf(i)) != (i not in heads.values()):
            return 'is_leaf(%d)' % i
    for i in heads:
        for j in heads:
            a, b = sorted([sorted((i, heads[i])), sorted((j, heads[j]))])
            if sent.tree.root not in (i, j) and bool(sent.have_crossing_arcs(i, j)) != (a[0] < b[0] < a[1] < b[1]):
                return 'have_crossing_arcs(%d, %d)' % (i, j)
    return train(case, toks)


def train(case, toks):
    """Samples of this sentence and of its mirror"""
    if not case['train'] or len(toks) > 40:
        return None
    sents = [toks, [('x', 'VERB', 'ROOT', -1), ('y', 'NOUN', 'OBJ', 0)], [('z', 'NOUN', 'SUBJ', 1), ('x', 'VERB', 'ROOT', -1)]]
    cs, ws = c03.load()
    random.seed(case['seed'])
    labelled = [LD.LabelledSentence(0, s) for s in sents]

    def key(parts):
        return tuple(np.asarray(p, dtype=np.float64).tobytes() for p in parts)

    def rows(s):
        tokens = list(s.tokens)
        return (vectors.label_row([int(t) for t in s.tags]), vectors.label_row([int(d) for d in s.deps]),
                vectors.char_rows(tokens, c03.code), vectors.word_rows(tokens, c03.vector))

    exp_t, exp_d, exp_x = [], [], []
    for s in labelled:
        t, d, c, w = rows(s)
        exp_t.append(key((c, w, t)))
        exp_d.append(key((t, c, w, d)))
        for i, j, x in s.transitions:
            exp_x.append(key((t, d, c, w, vectors.mask(i + 1), vectors.mask(j + 1), int(x))))
    for name, f, exp in (('tags', LD.extract_ptags_training_data, exp_t), ('labels', LD.extract_pdeps_training_data, exp_d),
                         ('transitions', LD.extract_trans_training_data, exp_x)):
        got = f(sents, cs, ws)
        if not got and not exp:
            continue
        if len({len(x) for x in got}) != 1 or sorted(key(p) for p in zip(*got)) != sorted(exp):
            return 'training data for %s: %d samples, %d expected, or misaligned' % (name, len(got[0]) if got else 0, len(exp))
    return None
