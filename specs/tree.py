"""Contract of the tree (property C06): every query as a function of the root and the list of registered arcs.

arcs: list of (label, parent, child) in order of registration, each child registered at most once, parent != child.
"""


def children_via(arcs, node, label):
    return [c for l, p, c in arcs if p == node and l == label]


def labels_of(arcs, node):
    """Labels of the children of a node, in order of first registration"""
    return list({l: None for l, p, c in arcs if p == node})


def children(arcs, node):
    return [(l, c) for l in labels_of(arcs, node) for c in children_via(arcs, node, l)]


def parent(arcs, node):
    for l, p, c in arcs:
        if c == node:
            return (l, p)
    return None


def child_via(arcs, node, label):
    cs = children_via(arcs, node, label)
    return cs[0] if cs else None


def has_child_via(arcs, node, label):
    return any([p == node and l == label for l, p, c in arcs])


def has_child_via_set(arcs, node, labels):
    return any([p == node and l in labels for l, p, c in arcs])


def has_parent_via(arcs, node, label):
    up = parent(arcs, node)
    return up is not None and up[0] == label


def has_parent_via_set(arcs, node, labels):
    up = parent(arcs, node)
    return up is not None and up[0] in labels


def siblings(arcs, node):
    up = parent(arcs, node)
    if up is None:
        return []
    return [(l, c) for l, c in children(arcs, up[1]) if c != node]


def has_node(arcs, node):
    return any([p == node or c == node for l, p, c in arcs])


def nodes(arcs, root):
    return [root] + [c for l, p, c in arcs]


def size(arcs):
    return 1 + len(arcs)


def climb(arcs, node, label):
    """Parent, grand parent... as long as the parent is reached via the label"""
    up = parent(arcs, node)
    if up is None or up[0] != label:
        return []
    return [up[1]] + climb(arcs, up[1], label)


def ancestors_via(arcs, node, label):
    """Furthest first"""
    return climb(arcs, node, label)[::-1]


def descendants_via(arcs, node, label):
    """Depth first, children in order of registration"""
    out = []
    for c in children_via(arcs, node, label):
        out.append(c)
        out.extend(descendants_via(arcs, c, label))
    return out


# DRIVERS OF THE REAL TREE
# ----------------------------------------------------------------------------

def build(Tree, root, arcs):
    tree = Tree(root)
    for label, parent_node, child in arcs:
        tree.register_child(label, parent_node, child)
    return tree


def refused(tree, label, node):
    try:
        tree.register_child(label, node, node)
    except Exception:
        return True
    return False
