"""C14: nodes, tag fixes, chunks, canonical forms"""
from concrete.env import sb
from specs import nodes as spec

NODI = sb('syntax.nodifier')
NODE = sb('syntax.node')
TREE = sb('utils.tree')
TAGS = sb('syntax.tags')
DEPS = sb('syntax.dependencies')
SUF = sb('normalization.suffixes')
FIX = sb('syntax.fixer')
CHUNK = sb('syntax.chunker')
CANON = sb('normalization.canonicalizer')
WORDS = ['New', 'York', 'to', 'TO', 'give', 'up', 'Up', 'cat', 'red', 'To', 'in', 'of']
LEMMAS = ['me', 'you', 'her', 'him', 'us', 'them', 'cat', 'red', 'big', 'it']


def arcs_of(rng, n, pool, order=None):
    order = order or list(range(n))
    arcs = []
    for i in range(1, n):
        if rng.random() < .1:
            continue
        arcs.append([rng.choice(pool), order[rng.randrange(max(0, i - 2), i)], order[i]])
    if rng.random() < .5:
        rng.shuffle(arcs)
    return arcs


def gen(rng):
    kind = rng.choice(['nodes', 'nodes', 'nodes', 'fix', 'chunk', 'canon'])
    n = rng.choice([1, 2, 3, 4, 5, 7, 9])
    order = list(range(n))
    if rng.random() < .6:
        rng.shuffle(order)
    if kind == 'nodes':
        pool = rng.choice([[10, 10, 21, 24], [10], [21, 18, 10], [4, 17, 15, 21, 10, 24, 18, 8], list(range(3, 25))])
        return dict(kind=kind, tokens=[rng.choice(WORDS) for _ in range(n)], tags=[rng.randrange(17) for _ in range(n)],
                    arcs=arcs_of(rng, n, pool, order), root=order[0], none=rng.random() < .03)
    if kind == 'chunk':
        pool = [8, 8, 8, 8, 15, 7, 11, 3]
        tags = [rng.choice([8, 8, 8, 12, 15, 14]) for _ in range(n)]
        if rng.random() < .5:
            order = list(range(n))[::-1]
    else:
        pool = [8, 8, 22, 14, 18, 24]
        tags = [rng.choice([1, 1, 8, 8, 11, 12, 14]) for _ in range(n)]
    case = dict(kind=kind, nodes=[dict(tag=t, lemma=rng.choice(LEMMAS), idx=i * 2 + 1, suffix=None) for i, t in enumerate(tags)],
                arcs=arcs_of(rng, n, pool, order), root=order[0],
                adjs=[w for w in LEMMAS if rng.random() < .4], nouns=[w for w in LEMMAS if rng.random() < .4])
    if kind == 'canon':
        case['node'] = dict(tag=rng.choice([11, 8, 8, 1, 1, 14, 14, 12, 3]), lemma=rng.choice(LEMMAS),
                            standard=rng.choice(WORDS).lower(), chunk=rng.choice([None, None, '', 'hot dog']),
                            particles=rng.choice([[], [], ['up'], ['up', 'to']]),
                            result=[rng.choice(LEMMAS), rng.choice([None, 'PAST', 'PROGRESSIVE', 'THIRD_PERSON'])])
    return case


def CORNERS():
    out = [dict(kind='nodes', tokens=['a'], tags=[8], arcs=[], root=0, none=False),
           dict(kind='nodes', tokens=['a', 'b', 'c'], tags=[8, 8, 13], arcs=[], root=1, none=False),
           dict(kind='nodes', tokens=[], tags=[], arcs=[], root=0, none=True)]
    for tag in range(17):
        for lemma in LEMMAS:
            for chunk in (None, 'hot dog'):
                for suffix in (None, 'PAST', 'PLURAL'):
                    out.append(dict(kind='canon', node=dict(tag=tag, lemma=lemma, standard='std', chunk=chunk,
                                                            particles=['up'] if suffix else [], result=['lem', suffix])))
    return out


def valid(case):
    if case['kind'] == 'canon':
        return True
    n = len(case['tokens' if case['kind'] == 'nodes' else 'nodes'])
    if case['kind'] == 'nodes' and len(case['tags']) != n:
        return False
    children = [c for _, _, c in case['arcs']]
    if len(set(children)) != len(children) or (case['root'] >= n and not case.get('none')) or case['root'] in children:
        return False
    if any(len(a) != 3 or a[1] >= n or a[2] >= n for a in case['arcs']):
        return False
    up = {c: p for _, p, c in case['arcs']}
    for c in up:
        while c in up:
            c = up[c]
        # Detached parts are allowed only when they are not linked at all to the root
    if case['arcs'] and case['root'] not in [p for _, p, _ in case['arcs']]:
        return False
    return True


def make_tree(case, values):
    tree = TREE.Tree(values[case['root']])
    for l, p, c in case['arcs']:
        tree.register_child(DEPS.Dep(l), values[p], values[c])
    return tree


def run(case):
    if not valid(case):
        return None
    if case['kind'] == 'nodes':
        return run_nodes(case)
    if case['kind'] == 'canon':
        return run_canon(case)
    nodes = []
    for d in case['nodes']:
        n = NODE.Node(d['idx'], d['lemma'], TAGS.Tag(d['tag']))
        nodes.append(n)
    tree = make_tree(case, nodes)
    if case['kind'] == 'fix':
        fixer = FIX.Fixer(set(case['adjs']), set(case['nouns']))
        for n in nodes:
            exp = spec.fixed_tag(n, tree, case['adjs'], case['nouns'])
            before = dict(vars(n))
            fixer(n, tree)
            if n.tag != exp:
                return 'tag of node %d: expected %r, got %r' % (n.idx, exp, n.tag)
            if dict(before, tag=n.tag) != vars(n):
                return 'the fixer changed something else'
        return None
    exp = [spec.chunk_of(nodes, tree, n) for n in nodes]
    CHUNK.Chunker()(nodes, tree)
    got = [n.chunk for n in nodes]
    return None if got == exp else 'chunks: expected %r, got %r' % (exp, got)


def run_nodes(case):
    tokens, tags = case['tokens'], [TAGS.Tag(t) for t in case['tags']]
    if case['none']:
        d, t = NODI.Nodifier()(tokens, tags, None)
        return None if (len(d) == 0 and t is None) else 'no tree: %r' % d
    tree = make_tree(case, list(range(max(len(tokens), 1))))
    d, t = NODI.Nodifier()(list(tokens), list(tags), tree)
    if not case['arcs']:
        r = case['root']
        got = [(k, n.idx, n.original, n.tag) for k, n in d.items()]
        if got != [(r, r, tokens[r], tags[r])] or t.root is not d[r] or len(t) != 1:
            return 'single node: %r' % (got,)
        return None
    made, arcs = spec.make_nodes(tokens, tags, tree)
    content = [m for m in made if spec.is_content(arcs, m[0])]
    exp = [(m[1], m[1], m[2], m[3], list(m[4]), m[5]) for m in content]
    # A key keeps the place of its first node
    final = {}
    for m, e in zip(content, exp):
        final[m[1]] = e
    got = [(k, n.idx, n.original, n.tag, list(n.particles), bool(n.is_inf_to)) for k, n in d.items()]
    if got != list(final.values()):
        return 'nodes: expected %r, got %r' % (exp, got)
    by_key = {m[0]: m for m in made}
    exp_arcs = sorted((int(l), by_key[p][1:3], by_key[c][1:3]) for l, p, c in arcs)
    got_arcs = sorted((int(l), (p.idx, p.original), (c.idx, c.original)) for l, p, c in t)
    if got_arcs != exp_arcs:
        return 'arcs between nodes: expected %r, got %r' % (exp_arcs, got_arcs)
    if (t.root.idx, t.root.original) != by_key[case['root']][1:3]:
        return 'root: %r' % t.root
    for n in d.values():
        if n.standard != n.original.lower() or n.lemma != n.standard:
            return 'forms of %r' % n.original
    return None


def run_canon(case):
    d = case['node']
    n = NODE.Node(3, 'word', TAGS.Tag(d['tag']))
    n.lemma, n.standard, n.chunk, n.particles = d['lemma'], d['standard'], d['chunk'], list(d['particles'])
    calls = []

    def lemmatize(word, tag):
        calls.append((word, tag))
        lemma, suffix = d['result']
        if tag != TAGS.Tag.VERB or word != d['standard']:
            return 'other', None
        return lemma, SUF.Suffix[suffix] if suffix else None

    exp = spec.canonical(n, lemmatize)
    before = dict(vars(n))
    CANON.Canonicalizer(lemmatize)(n)
    got = (n.canon, n.suffix, n.active_verb)
    if got != exp:
        return 'canonical forms of %r: expected %r, got %r' % (d, exp, got)
    if dict(before, canon=n.canon, suffix=n.suffix, active_verb=n.active_verb) != vars(n):
        return 'the canonicalizer changed something else'
    return None
