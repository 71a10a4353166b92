"""C16: semantic tuples"""
from concrete.env import sb
from concrete import fake
from specs import semantics as spec
from specs import spelling

EXT = sb('semantics.semantic_tuple_extractor')
NODE = sb('syntax.node')
TAGS = sb('syntax.tags')
ARG = sb('semantics.argument')
STUPLE = sb('semantics.semantic_tuple')
LISTS = ('subjs', 'objs', 'exists', 'props', 'iprops', 'iobjs', 'adjs', 'agents')
PAIRS = ('copulas_props', 'pps_props')
WORDS = ['have', 'get', 'be', 'do', 'eat', 'stop', 'cry', 'tie', 'sing', 'love', 'i', 'cat', 'x']


def gen(rng):
    if rng.random() < .12:
        args = [[rng.choice(['a', 'be', 'x y', '', 'NOT']), rng.choice(spec.CODES), rng.random() < .5]
                for _ in range(rng.randint(0, 5))]
        return dict(kind='tuple', args=args)
    n = rng.choice([1, 2, 3, 4, 5, 7])
    dense = rng.choice([.1, .25, .5])
    nodes = []
    for i in range(n):
        def some(p=dense):
            return [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < p else []

        tag = rng.choice([14, 14, 14, 8, 8, 12, 11, 15, 9, 1, 1, 3, rng.randrange(17)])
        d = dict(tag=tag, lemma=rng.choice(WORDS), canon=rng.choice(WORDS),
                 particles=rng.choice([[], [], [], ['up'], ['up', 'to']]), aff=rng.random() < .6, inf=rng.random() < .15,
                 active=rng.choice([None, None, '', 'eat']))
        for f in LISTS:
            d[f] = some(dense * (.3 if f in ('exists', 'props', 'iprops') else 1.5))
        for f in PAIRS:
            d[f] = [[rng.randrange(n), rng.randrange(n)] for _ in some()]
        d['svi'] = [[rng.choice([None, rng.randrange(n)]), rng.randrange(n), rng.randrange(n)] for _ in some()]
        nodes.append(d)
    return dict(kind='extract', nodes=nodes, keep=[i for i in range(n) if rng.random() < .9])


def CORNERS():
    out = [dict(kind='tuple', args=[['w', c, a]]) for c in spec.CODES for a in (True, False)]
    out.append(dict(kind='tuple', args=[]))
    out += [dict(kind='badcode', code=c) for c in ('X', '', 'a', 'NN', None)]
    return out


def valid(case):
    if case['kind'] != 'extract':
        return True
    n = len(case['nodes'])
    for d in case['nodes']:
        if any(len(x) != 2 for f in PAIRS for x in d[f]) or any(len(x) != 3 for x in d['svi']):
            return False
        idx = [i for f in LISTS for i in d[f]] + [i for f in PAIRS for x in d[f] for i in x] + \
              [i for x in d['svi'] for i in x if i is not None]
        if any(i is None or i >= n for i in idx):
            return False
    return all(i < n for i in case['keep'])


def build(case):
    nodes = [NODE.Node(i, d['canon'], TAGS.Tag(d['tag'])) for i, d in enumerate(case['nodes'])]
    for node, d in zip(nodes, case['nodes']):
        node.lemma, node.canon, node.particles = d['lemma'], d['canon'], list(d['particles'])
        node.is_aff, node.is_inf_to, node.active_verb = d['aff'], d['inf'], d['active']
        for f in LISTS:
            setattr(node, f, [nodes[i] for i in d[f]])
        for f in PAIRS:
            setattr(node, f, [(nodes[i], nodes[j]) for i, j in d[f]])
        node.subjs_verbs_iprops = [(None if s is None else nodes[s], nodes[v], nodes[p]) for s, v, p in d['svi']]
    return nodes, [nodes[i] for i in case['keep']]


def flat(t):
    return [(a.word, a.code, bool(a.is_affirmative)) for a in t]


def check_repr(t, args):
    if len(t) != len(args) or t.code != spec.tuple_code(args):
        return 'tuple %r: length %d, code %r' % (args, len(t), t.code)
    for deco in (True, False):
        if t.flatten(deco) != spec.flat_tuple(args, deco):
            return 'tuple %r: flatten(%r) = %r' % (args, deco, t.flatten(deco))
    if t.flatten() != spec.flat_tuple(args, True) or str(t) != t.flatten() or repr(t) != t.flatten():
        return 'tuple %r: str = %r' % (args, str(t))
    for i, a in enumerate(args):
        x = t.arg(i)
        if (x.word, x.code, bool(x.is_affirmative)) != tuple(a) or x.tag != spec.tag_of_code(a[1]):
            return 'tuple %r: argument %d is %r (%s)' % (args, i, x, x.tag)
        if x.flatten() != spec.flat_arg(a[0], a[2], True) or x.flatten(False) != spec.flat_arg(a[0], a[2], False) \
                or str(x) != x.flatten():
            return 'argument %r: %r' % (a, x.flatten())
    for c in spec.CODES:
        if bool(t.has_any_arg_with_code(c)) != any([a[1] == c for a in args]):
            return 'tuple %r: has_any_arg_with_code(%s)' % (args, c)
    return None


def run(case):
    if case['kind'] == 'badcode':
        try:
            ARG.Argument('w', case['code'])
        except sb('exceptions').ArgumentValueError:
            return None
        return 'code %r was accepted' % case['code']
    if case['kind'] == 'tuple':
        args = [tuple(a) for a in case['args']]
        t = STUPLE.SemanticTuple(*[ARG.Argument(w, c, a) for w, c, a in args])
        return 'iteration' if flat(t) != args else check_repr(t, args)
    nodes, kept = build(case)
    lm = fake.FakeLM(1)
    irregular = {'sing': 'sung', 'do': 'done'}
    before = snapshot(nodes)
    got = EXT.SemanticTupleExtractor(lm, irregular)(kept)
    if snapshot(nodes) != before:
        return 'the extractor changed a node'
    exp = spec.extract(kept, lambda lemma: spelling.past_participle(lemma, lm, irregular))
    exp = [[(w, c, bool(a)) for w, c, a in t] for t in exp]
    if [flat(t) for t in got] != exp:
        return 'expected %r, got %r' % (exp, [flat(t) for t in got])
    for t, e in zip(got, exp):
        r = check_repr(t, e)
        if r:
            return r
    return None


def snapshot(nodes):
    return [{k: (list(map(str, v)) if isinstance(v, list) else v) for k, v in vars(n).items()} for n in nodes]
