"""C06: tree queries"""
from concrete.env import sb
from specs import tree as spec

TREE = sb('utils.tree')
LABELS = ['a', 'b', 'c']


def gen(rng):
    n = rng.choice([1, 2, 3, 4, 6, 9, 14])
    order = list(range(n))
    if rng.random() < .7:
        rng.shuffle(order)
    nl = rng.choice([1, 2, 3])
    arcs = []
    chain = rng.random()
    for i in range(1, n):
        if rng.random() < .12:
            continue
        p = i - 1 if rng.random() < chain else rng.randrange(i)
        arcs.append([rng.choice(LABELS[:nl]), order[p], order[i]])
    if rng.random() < .6:
        rng.shuffle(arcs)
    return dict(kind='tree', root=order[0], arcs=arcs, bad=rng.randrange(n), at=rng.randint(0, len(arcs)))


CORNERS = [dict(kind='tree', root=0, arcs=[], bad=0, at=0), dict(kind='tree', root=0, arcs=[['a', 0, 1]], bad=1, at=1),
           dict(kind='tree', root=0, arcs=[['a', 0, 1], ['b', 0, 2], ['a', 0, 3], ['a', 1, 4], ['a', 4, 5]], bad=1, at=3)]


def valid(case):
    children = [c for _, _, c in case['arcs']]
    if len(set(children)) != len(children) or case['at'] > len(case['arcs']):
        return False
    up = {c: p for _, p, c in case['arcs']}
    for c in up:
        seen = set()
        while c in up:
            if c in seen:
                return False
            seen.add(c)
            c = up[c]
    return all(p != c for _, p, c in case['arcs'])


class Key:
    """Hashable nodes compared by value"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, Key) and self.k == other.k

    def __hash__(self):
        return hash(('k', self.k % 3))

    def __repr__(self):
        return 'n%d' % self.k


def run(case):
    arcs = [(l, Key(p), Key(c)) for l, p, c in case['arcs']]
    root = Key(case['root'])
    tree = TREE.Tree(root)
    for i in range(len(arcs) + 1):
        if i == case['at']:
            r = check(tree, root, arcs[:i])
            if r:
                return r
            try:
                tree.register_child('a', Key(case['bad']), Key(case['bad']))
                return 'a node was registered as its own child'
            except Exception:
                pass
            r = check(tree, root, arcs[:i])
            if r:
                return 'after a refused registration: ' + r
        if i < len(arcs):
            tree.register_child(*arcs[i])
    return check(tree, root, arcs) or check(tree, root, arcs)


def check(tree, root, arcs):
    def same(what, got, exp):
        return None if got == exp else '%s with root %r and arcs %r: expected %r, got %r' % (what, root, arcs, exp, got)

    keys = sorted({k.k for _, p, c in arcs for k in (p, c)} | {root.k, 77})
    out = [same('arcs', list(tree), arcs), same('len', len(tree), spec.size(arcs)),
           same('nodes', list(tree.nodes), spec.nodes(arcs, root)), same('root', tree.root, root)]
    for k in keys:
        n = Key(k)
        out += [same('children(%r)' % n, list(tree.children(n)), spec.children(arcs, n)),
                same('parent(%r)' % n, tree.parent(n), spec.parent(arcs, n)),
                same('siblings(%r)' % n, list(tree.siblings(n)), spec.siblings(arcs, n)),
                same('has_node(%r)' % n, bool(tree.has_node(n)), spec.has_node(arcs, n))]
        for l in LABELS + ['zz']:
            a = '(%r, %r)' % (n, l)
            out += [same('children_via' + a, list(tree.children_via(n, l)), spec.children_via(arcs, n, l)),
                    same('child_via' + a, tree.child_via(n, l), spec.child_via(arcs, n, l)),
                    same('has_child_via' + a, bool(tree.has_child_via(n, l)), spec.has_child_via(arcs, n, l)),
                    same('has_parent_via' + a, bool(tree.has_parent_via(n, l)), spec.has_parent_via(arcs, n, l)),
                    same('ancestors_via' + a, list(tree.ancestors_via(n, l)), spec.ancestors_via(arcs, n, l)),
                    same('descendants_via' + a, list(tree.descendants_via(n, l)), spec.descendants_via(arcs, n, l))]
        for ls in (set(), {'a'}, {'b', 'c'}, {'a', 'zz'}):
            out += [same('has_child_via_set(%r, %r)' % (n, ls), bool(tree.has_child_via_set(n, ls)),
                         spec.has_child_via_set(arcs, n, ls)),
                    same('has_parent_via_set(%r, %r)' % (n, ls), bool(tree.has_parent_via_set(n, ls)),
                         spec.has_parent_via_set(arcs, n, ls))]
    for r in out:
        if r:
            return r
    return None
