"""Contract of the argument finder (property C15): the registrations implied by the tree.

The effect is specified as a list of events (node, field, value) in order of registration; fields not mentioned keep
their value.
"""
from scrappybara.normalization.suffixes import Suffix
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag

NOUNS = (Tag.NOUN, Tag.PROPN, Tag.PRON, Tag.SYM, Tag.NUM)
MARKERS = (Dep.MARK, Dep.CMARK, Dep.IMARK)
REFLEXIVES = ('myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves',
              'theirself', 'themselves', 'oneself')
RELATIVES = ('that', 'which', 'who')


def conjuncts(tree, n):
    return list(tree.children_via(n, Dep.AND)) + list(tree.children_via(n, Dep.OR))


def group(tree, nodes, n):
    """A node with its conjuncts (conjunctions are attached to the nodes of the sentence only)"""
    return [n] + (conjuncts(tree, n) if n in nodes else [])


def is_marked(tree, n):
    return tree.has_child_via(n, Dep.MARK) or tree.has_child_via(n, Dep.CMARK) or tree.has_child_via(n, Dep.IMARK)


def relative_referent(tree, verb, pron):
    """The noun a relative pronoun stands for"""
    up = tree.parent(verb)
    if up is None:
        return None
    if pron.tag == Tag.PRON and pron.canon in RELATIVES and up[0] == Dep.CPL and up[1].tag in NOUNS \
            and not is_marked(tree, verb):
        return up[1]
    return None


def subject_referent(tree, verb, pron):
    r = relative_referent(tree, verb, pron)
    if r is not None:
        return r
    if pron.canon in REFLEXIVES:
        up = tree.parent(verb)
        if up is not None and up[0] == Dep.OBJ and up[1].tag == Tag.VERB:
            s = tree.child_via(up[1], Dep.SUBJ)
            if s is not None:
                return s
    return pron


def object_referent(tree, verb, pron):
    r = relative_referent(tree, verb, pron)
    if r is not None:
        return r
    if pron.canon in REFLEXIVES:
        s = tree.child_via(verb, Dep.SUBJ)
        if s is not None:
            return s
    return pron


def conjuncts_of(tree, nodes, n):
    return conjuncts(tree, n) if n in nodes else []


def register_subjs(out, tree, nodes, verb, subj):
    """To the verb and to its conjuncts without subject of their own"""
    for v in [verb] + [c for c in conjuncts_of(tree, nodes, verb) if not tree.has_child_via(c, Dep.SUBJ)]:
        for s in group(tree, nodes, subj):
            out.append((v, 'subjs', s))


def register_objs(out, tree, nodes, verb, obj):
    """To the verb and to its conjuncts without dependents"""
    for v in [verb] + [c for c in conjuncts_of(tree, nodes, verb) if not tree.children(c)]:
        for o in group(tree, nodes, obj):
            out.append((v, 'objs', o))


def direct(out, tree, nodes, n):
    """Registrations due to the dependency of a node on its parent"""
    up = tree.parent(n)
    if up is not None:
        dep = up[0]
        parent = up[1]
        if dep == Dep.SUBJ:
            register_subjs(out, tree, nodes, parent, subject_referent(tree, parent, n))
        elif dep == Dep.OBJ:
            register_objs(out, tree, nodes, parent, object_referent(tree, parent, n))
        elif dep == Dep.IOBJ:
            for x in group(tree, nodes, n):
                out.append((parent, 'iobjs', x))
        elif dep == Dep.EXIST:
            for x in group(tree, nodes, n):
                out.append((parent, 'exists', x))
        elif dep == Dep.PROP:
            for x in group(tree, nodes, n):
                out.append((parent, 'props', x))
            subj = tree.child_via(parent, Dep.SUBJ)
            if subj is not None:
                owner = relative_referent(tree, parent, subj)
                if owner is None:
                    owner = subj
                for s in group(tree, nodes, owner):
                    for p in group(tree, nodes, n):
                        if not is_marked(tree, p):
                            out.append((s, 'copulas_props', (parent, p)))
        elif dep == Dep.IPROP:
            for x in group(tree, nodes, n):
                out.append((parent, 'iprops', x))
            obj = tree.child_via(parent, Dep.OBJ)
            if obj is not None:
                for o in group(tree, nodes, obj):
                    for p in group(tree, nodes, n):
                        out.append((o, 'subjs_verbs_iprops', (tree.child_via(parent, Dep.SUBJ), parent, p)))
    if tree.has_child_via(n, Dep.NEG):
        out.append((n, 'is_aff', False))
    if up is not None and up[0] == Dep.CPL:
        parent = up[1]
        mark = tree.child_via(n, Dep.MARK)
        if mark is None:
            if n.tag == Tag.ADJ:
                for x in group(tree, nodes, n):
                    out.append((parent, 'adjs', x))
                if parent.tag in NOUNS and n.suffix == Suffix.PAST:
                    prop = tree.child_via(n, Dep.PROP)
                    if prop is not None:
                        for p in group(tree, nodes, prop):
                            out.append((parent, 'pps_props', (n, p)))
        elif mark.canon == 'by':
            above = tree.parent(parent)
            if above is not None and above[0] in (Dep.PROP, Dep.CPL):
                for x in group(tree, nodes, n):
                    out.append((parent, 'agents', x))
        if tree.has_child_via(n, Dep.CMARK) and parent.tag == Tag.ADJ and n.tag in NOUNS:
            for x in group(tree, nodes, parent):
                out.append((n, 'adjs', x))


def long_distance(out, tree, nodes, n):
    """I ate but didn't drink / the apple I ate"""
    up = tree.parent(n)
    if up is None:
        return
    parent = up[1]
    subj = tree.child_via(n, Dep.SUBJ)
    if up[0] != Dep.CPL:
        return
    if tree.has_child_via(n, Dep.MARK):
        if n.tag == Tag.VERB and subj is None and parent.tag == Tag.VERB:
            s = tree.child_via(parent, Dep.SUBJ)
            if s is not None:
                register_subjs(out, tree, nodes, n, s)
    elif not tree.has_child_via(n, Dep.CMARK) and not tree.has_child_via(n, Dep.IMARK):
        if parent.tag in NOUNS and not tree.has_child_via(n, Dep.OBJ):
            if subj is not None and subj.canon not in RELATIVES:
                register_objs(out, tree, nodes, n, parent)


def record(out, nodes, tree):
    for n in nodes:
        direct(out, tree, nodes, n)
    for n in nodes:
        long_distance(out, tree, nodes, n)


def registrations(nodes, tree):
    out = []
    record(out, nodes, tree)
    return out


def conjoin(nodes, tree):
    """Conjunctions, attached first"""
    for n in nodes:
        n.and_cconjs = tree.children_via(n, Dep.AND)
        n.or_cconjs = tree.children_via(n, Dep.OR)
