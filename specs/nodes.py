"""Contracts of nodifier, fixer, chunker and canonicalizer (property C14).

A tree argument answers parent / children / root queries as specified in tree.py.
"""
from scrappybara.normalization.suffixes import Suffix
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag

NOUNS = (Tag.NOUN, Tag.PROPN, Tag.PRON, Tag.SYM, Tag.NUM)
FUNCTIONAL = (Dep.ART, Dep.AUX, Dep.CMARK, Dep.NEG, Dep.INTJ, Dep.MARK, Dep.IMARK, Dep.PART, Dep.MODAL)
MARKERS = (Dep.MARK, Dep.CMARK, Dep.IMARK)
OBJECT_PRONOUNS = {'me': 'i', 'you': 'you', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}


# NODIFIER
# ----------------------------------------------------------------------------

def flat_branch(tree, idx):
    """Indexes from the top of a flat sequence down to idx"""
    out = [idx]
    up = tree.parent(idx)
    while up is not None and up[0] == Dep.FLAT:
        out.append(up[1])
        up = tree.parent(up[1])
    return out[::-1]


def is_flat_leaf(tree, idx):
    up = tree.parent(idx)
    return up is not None and up[0] == Dep.FLAT and not tree.children(idx)


def particles_of(tree, idx):
    return sorted([c for d, c in tree.children(idx) if d == Dep.PART])


def make_nodes(tokens, tags, tree):
    """List of (key index, node index, text, tag, particles, is_inf_to) in order of creation, and the arcs between
    keys: (label, parent key, child key), in order of registration.
    """
    made = {}
    dropped = set()
    for i in range(len(tokens)):
        if not tree.has_node(i):
            dropped.add(i)
    for i in range(len(tokens)):
        if is_flat_leaf(tree, i):
            branch = flat_branch(tree, i)
            for j in branch:
                dropped.add(j)
            made[branch[0]] = (i, ' '.join([tokens[j] for j in branch]), tags[i], [], False)
    for i in range(len(tokens)):
        parts = particles_of(tree, i)
        if parts:
            for j in parts:
                dropped.add(j)
            made[i] = (i, tokens[i], tags[i], [tokens[j].lower() for j in parts if j > i],
                       any([j < i and tokens[j].lower() == 'to' for j in parts]))
    for i in range(len(tokens)):
        if i not in made and i not in dropped:
            made[i] = (i, tokens[i], tags[i], [], False)
    arcs = [(d, key, c) for key in made for d, c in tree.children(key) if c in made]
    return [(key,) + made[key] for key in made], arcs


def is_content(arcs, key):
    return not any([c == key and d in FUNCTIONAL for d, p, c in arcs])


# FIXER
# ----------------------------------------------------------------------------

def fixed_tag(node, tree, adjs, nouns):
    """Tag of a node after the repair of a leaf complement or property"""
    if tree.children(node):
        return node.tag
    up = tree.parent(node)
    if up is None:
        return node.tag
    if (up[0] == Dep.CPL and up[1].tag in NOUNS) or up[0] == Dep.PROP or up[0] == Dep.IPROP:
        if node.tag in NOUNS and node.lemma in adjs:
            return Tag.ADJ
        if node.tag == Tag.ADJ and node.lemma in nouns:
            return Tag.NOUN
    return node.tag


# CHUNKER
# ----------------------------------------------------------------------------

def modified_noun(n, tree):
    """The noun that n modifies as a compound, None when it does not"""
    if n.tag not in NOUNS:
        return None
    up = tree.parent(n)
    if up is None or up[0] != Dep.CPL or up[1].tag not in NOUNS:
        return None
    if tree.has_child_via(n, Dep.MARK) or tree.has_child_via(n, Dep.CMARK) or tree.has_child_via(n, Dep.IMARK):
        return None
    return up[1] if n.idx < up[1].idx else None


def modifiers(nodes, tree, noun):
    return [n for n in nodes if modified_noun(n, tree) is noun]


def below(nodes, tree, noun):
    """The nouns that modify a noun, each one followed by those that modify it"""
    out = []
    for m in modifiers(nodes, tree, noun):
        out.append(m)
        out.extend(below(nodes, tree, m))
    return out


def compound(nodes, tree, noun):
    return [noun] + below(nodes, tree, noun)


def chunk_of(nodes, tree, n):
    """Text of the chunk headed by a node of the sentence, None when it heads none"""
    if not modifiers(nodes, tree, n) or modified_noun(n, tree) is not None:
        return None
    return ' '.join([x.lemma for x in sorted(compound(nodes, tree, n), key=lambda x: x.idx)])


# CANONICALIZER
# ----------------------------------------------------------------------------

def with_particles(text, node):
    return ' '.join([text] + node.particles) if node.particles else text


def canonical(node, lemmatize):
    """(canon, suffix, active verb) of a node"""
    if node.tag == Tag.PRON and node.lemma in OBJECT_PRONOUNS:
        return OBJECT_PRONOUNS[node.lemma], node.suffix, node.active_verb
    if node.tag == Tag.NOUN and node.chunk:
        return node.chunk, node.suffix, node.active_verb
    if node.tag == Tag.ADJ:
        lemma, suffix = lemmatize(node.standard, Tag.VERB)
        active = with_particles(lemma, node) if suffix == Suffix.PAST else node.active_verb
        return with_particles(node.lemma, node), suffix, active
    if node.tag == Tag.VERB:
        return with_particles(node.lemma, node), node.suffix, node.active_verb
    return node.lemma, node.suffix, node.active_verb


# EFFECTS ON THE NODES
# ----------------------------------------------------------------------------

def fix(node, tree, adjs, nouns):
    node.tag = fixed_tag(node, tree, adjs, nouns)


def canonicalize(node, lemmatize):
    canon, suffix, active = canonical(node, lemmatize)
    node.canon = canon
    node.suffix = suffix
    node.active_verb = active


def chunk(nodes, tree):
    for n in nodes:
        text = chunk_of(nodes, tree, n)
        if text is not None:
            n.chunk = text
