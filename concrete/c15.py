"""C15: argument finding"""
from concrete.env import sb
from specs import args as spec

AF = sb('syntax.arg_finder')
NODE = sb('syntax.node')
TREE = sb('utils.tree')
TAGS = sb('syntax.tags')
DEPS = sb('syntax.dependencies')
SUF = sb('normalization.suffixes')
CANONS = ['that', 'which', 'who', 'that', 'by', 'by', 'of', 'x', 'y', 'z'] + list(spec.REFLEXIVES)
HOT = [3, 19, 7, 8, 8, 8, 9, 11, 13, 14, 15, 15, 17, 18, 18, 22, 22, 24, 24, 24, 24]
FIELDS = ('subjs', 'objs', 'exists', 'props', 'iprops', 'iobjs', 'adjs', 'subjs_verbs_iprops', 'copulas_props',
          'pps_props', 'agents')


def gen(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 11])
    order = list(range(n))
    rng.shuffle(order)
    arcs = []
    for i in range(1, n):
        if rng.random() < .05:
            continue
        p = order[rng.randrange(max(0, i - 3), i)]
        arcs.append([rng.choice(HOT) if rng.random() < .9 else rng.randrange(25), p, order[i]])
    if rng.random() < .5:
        rng.shuffle(arcs)
    nodes = [dict(tag=rng.choice([14, 14, 14, 8, 11, 11, 12, 1, 1, rng.randrange(17)]), canon=rng.choice(CANONS), text=rng.choice(CANONS),
                  suffix=rng.choice([None, 'PAST', 'PLURAL'])) for _ in range(n)]
    keep = [i for i in range(n) if rng.random() < .95]
    if rng.random() < .3:
        rng.shuffle(keep)
    return dict(kind='args', nodes=nodes, arcs=arcs, root=order[0], keep=keep)


CORNERS = []


def valid(case):
    n = len(case['nodes'])
    children = [c for _, _, c in case['arcs']]
    if len(set(children)) != len(children) or case['root'] >= n or any(len(a) != 3 for a in case['arcs']):
        return False
    up = {c: p for _, p, c in case['arcs']}
    for c in up:
        seen = set()
        while c in up:
            if c in seen:
                return False
            seen.add(c)
            c = up[c]
    return all(p < n and c < n for _, p, c in case['arcs']) and all(i < n for i in case['keep'])


def run(case):
    nodes = [NODE.Node(i, d.get('text', d['canon']), TAGS.Tag(d['tag'])) for i, d in enumerate(case['nodes'])]
    for node, d in zip(nodes, case['nodes']):
        node.canon = d['canon']
        node.suffix = SUF.Suffix[d['suffix']] if d['suffix'] else None
    tree = TREE.Tree(nodes[case['root']])
    arcs = [(DEPS.Dep(l), nodes[p], nodes[c]) for l, p, c in case['arcs']]
    for a in arcs:
        tree.register_child(*a)
    kept = [nodes[i] for i in case['keep']]
    expected = [{f: [] for f in FIELDS} for _ in nodes]
    aff = [True for _ in nodes]
    for node, field, value in spec.registrations(kept, tree):
        if field == 'is_aff':
            aff[node.idx] = value
        else:
            expected[node.idx][field].append(value)
    others = ('idx', 'original', 'tag', 'particles', 'is_inf_to', 'standard', 'lemma', 'suffix', 'chunk', 'canon',
              'active_verb')
    before = [[getattr(n, f) for f in others] for n in nodes]
    AF.ArgFinder()(kept, tree)

    def name(v):
        return tuple(None if x is None else x.idx for x in v) if isinstance(v, tuple) else v.idx

    for n in nodes:
        for f in FIELDS:
            got, exp = [name(v) for v in getattr(n, f)], [name(v) for v in expected[n.idx][f]]
            if got != exp:
                return 'node %d, %s: expected %r, got %r' % (n.idx, f, exp, got)
        if bool(n.is_aff) != aff[n.idx]:
            return 'node %d, polarity: expected %r, got %r' % (n.idx, aff[n.idx], n.is_aff)
        exp = ([c for l, p, c in arcs if p is n and l == DEPS.Dep.AND], [c for l, p, c in arcs if p is n and l == DEPS.Dep.OR])
        got = (list(n.and_cconjs), list(n.or_cconjs))
        if n not in kept:
            exp = ([], [])
        if got != exp:
            return 'node %d, conjuncts: expected %r, got %r' % (n.idx, exp, got)
        if list(n.cconjs) != exp[0] + exp[1] or list(n.aggreg) != [n] + exp[0] + exp[1]:
            return 'node %d, aggregation: %r' % (n.idx, n.aggreg)
        if n.cannot_be_transitive != bool(n.props or n.iprops or n.exists):
            return 'node %d, transitivity' % n.idx
    if before != [[getattr(n, f) for f in others] for n in nodes]:
        return 'another attribute of a node changed'
    if list(tree) != arcs or sorted(n.idx for n in nodes for _ in tree.children(n)) != sorted(p.idx for _, p, _ in arcs):
        return 'the tree changed'
    return None
