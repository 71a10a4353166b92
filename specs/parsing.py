"""Contracts of the parser (property C04) and of the labelled sentences (property C05)."""
from specs.vectors import mask

LEFT, RIGHT, REDUCE, SHIFT = 0, 1, 2, 3
NODEP, ROOT, SPLIT = 1, 2, 23

TAG_NAMES = ('PAD', 'ADJ', 'PREP', 'ADV', 'MAT', 'CONJ', 'DET', 'EXPR', 'NOUN', 'NUM', 'FRAG', 'PRON', 'PROPN', 'PUNCT',
             'VERB', 'SYM', 'THERE')
DEP_NAMES = ('PAD', 'NODEP', 'ROOT', 'AND', 'ART', 'AUX', 'CALLEE', 'CMARK', 'CPL', 'EXIST', 'FLAT', 'IMARK', 'INTJ',
             'IOBJ', 'IPROP', 'MARK', 'MODAL', 'NEG', 'OBJ', 'OR', 'ORPHAN', 'PART', 'PROP', 'SPLIT', 'SUBJ')
TRANS_NAMES = ('LEFT', 'RIGHT', 'REDUCE', 'SHIFT')


def initial(deps):
    """Stack and buffer before the first transition; deps: predicted label codes, one per token"""
    buffer = [i for i in range(len(deps)) if deps[i] != NODEP]
    return buffer[:1], buffer[1:]


def arc_label(deps, child):
    return SPLIT if deps[child] == ROOT else deps[child]


def step(deps, stack, buffer, trans):
    """(arcs added, stack, buffer) after a transition; buffer is not empty"""
    if trans == LEFT or trans == REDUCE:
        arcs = [(arc_label(deps, stack[-1]), buffer[0], stack[-1])] if trans == LEFT else []
        if len(stack) == 1:
            return arcs, [buffer[0]], buffer[1:]
        return arcs, stack[:-1], buffer
    arcs = [(arc_label(deps, buffer[0]), stack[-1], buffer[0])] if trans == RIGHT else []
    return arcs, stack + [buffer[0]], buffer[1:]


def parse(deps, predict):
    """Arcs built when predict(stack top, buffer front) gives each transition"""
    stack, buffer = initial(deps)
    arcs = []
    while buffer:
        new, stack, buffer = step(deps, stack, buffer, predict(stack[-1], buffer[0]))
        arcs = arcs + new
    return arcs


def masks_of(stack, buffer):
    return mask(stack[-1] + 1), mask(buffer[0] + 1)


def done(buffer):
    return len(buffer) == 0


def new_parse(seq_length, tag_codes, dep_codes):
    """Tags, stack, buffer and arcs of a new parse"""
    stack, buffer = initial(dep_codes[1:seq_length - 1])
    return tag_codes[1:seq_length - 1], stack, buffer, []


def next_state(deps, stack, buffer, arcs, trans):
    new, stack, buffer = step(deps, stack, buffer, trans)
    return stack, buffer, arcs + new


def root_of(arcs):
    """First token that is linked but never a dependent; None without arc"""
    linked = [x for l, p, c in arcs for x in (p, c)]
    heads = [x for x in linked if x not in [c for l, p, c in arcs]]
    return min(heads) if heads else None


# ORACLE
# ----------------------------------------------------------------------------

def oracle(deps, parent_of, children_of):
    """Transitions (stack top, buffer front, transition) deduced from a tree.
    parent_of(i): parent index or None; children_of(i): child indexes
    """
    todo = [i for i in range(len(deps)) if deps[i] != NODEP]
    stack, buffer = todo[:1], todo[1:]
    out = []
    while buffer:
        if not stack:
            stack, buffer = [buffer[0]], buffer[1:]
            continue
        s, b = stack[-1], buffer[0]
        if parent_of(s) == b:
            out.append((s, b, LEFT))
            stack = stack[:-1]
        elif parent_of(b) == s:
            out.append((s, b, RIGHT))
            stack, buffer = stack + [b], buffer[1:]
        elif (parent_of(b) is not None and parent_of(b) < s) or any([c < s for c in children_of(b)]):
            out.append((s, b, REDUCE))
            stack = stack[:-1]
        else:
            out.append((s, b, SHIFT))
            stack, buffer = stack + [b], buffer[1:]
    return out


def arcs_of(rows, dep):
    """Arcs of a labelled sentence; rows: (token, tag name, label name, parent index)"""
    return [(dep(rows[i][2]), rows[i][3], i) for i in range(len(rows))
            if dep(rows[i][2]) != ROOT and dep(rows[i][2]) != NODEP and rows[i][3] > -1]


def labelled(rows, tag, dep):
    """Tokens, tags, labels and tree (root and arcs) of a labelled sentence"""
    for i in range(len(rows)):
        if dep(rows[i][2]) == ROOT:
            return ([row[0] for row in rows], [tag(row[1]) for row in rows], [dep(row[2]) for row in rows],
                    (i, arcs_of(rows, dep)))
    return [], [], [], None


def in_tree(deps):
    return [i for i in range(len(deps)) if deps[i] != NODEP]


def crossing(a, b, c, d):
    """The arcs between a and b and between c and d cross"""
    l1, r1, l2, r2 = min(a, b), max(a, b), min(c, d), max(c, d)
    return l1 < l2 < r1 < r2 or l2 < l1 < r2 < r1


def crossing_arcs(root, head, i, j):
    if i == root or j == root:
        return False
    return crossing(head(i), i, head(j), j)


def tag_samples(sents, sample):
    return [sample(s.tokens, s.tags) for s in sents]


def dep_samples(sents, sample):
    return [sample(s.tokens, s.tags, s.deps) for s in sents]


def trans_samples(sents, sample):
    return [sample(s.tokens, s.tags, s.deps, i, j, t) for s in sents for i, j, t in s.transitions]


def columns(samples, shuffle, nb):
    """One list per column of the rows of the samples, all in the same (shuffled) order"""
    shuffle(samples)
    if not samples:
        return []
    return [[s.training_mats[k] for s in samples] for k in range(nb)]


# INVARIANT OF A PARSE
# ----------------------------------------------------------------------------

def inside(deps, x):
    return 0 <= x < len(deps) and deps[x] != NODEP


def invariant(deps, stack, buffer, i, j):
    """At any positions i and j: what the stack and the buffer hold are tokens with a label, in increasing order"""
    if buffer and not stack:
        return False
    if 0 <= i < len(stack):
        if not inside(deps, stack[i]):
            return False
        if 0 <= j < len(buffer) and not stack[i] < buffer[j]:
            return False
    if 0 <= i < len(buffer):
        if not inside(deps, buffer[i]):
            return False
        if i < j < len(buffer) and not buffer[i] < buffer[j]:
            return False
    return True


def good_arcs(deps, arcs, k):
    """The arc k links two different tokens with a label and carries the one of its dependent"""
    if not 0 <= k < len(arcs):
        return True
    label, parent, child = arcs[k]
    return parent != child and inside(deps, parent) and inside(deps, child) and label == arc_label(deps, child)


def measure(stack, buffer):
    return 2 * len(buffer) + len(stack)


def decreases(deps, stack, buffer, arcs, trans):
    """Every transition brings the end of the parse closer"""
    s, b, a = next_state(deps, stack, buffer, arcs, trans)
    return measure(s, b) < measure(stack, buffer)


class RegisteredTree(object):
    """Contract of Tree as far as the parser uses it: the root and the arcs in order of registration"""

    def __init__(self, root):
        self.root = root
        self.arcs = []

    def register_child(self, label, parent, child):
        if parent == child:
            raise ValueError()
        self.arcs.append((label, parent, child))


def tree_of(arcs):
    root = root_of(arcs)
    return None if root is None else (root, [a for a in arcs])


def seen_tree(tree):
    return None if tree is None else (tree.root, tree.arcs)


# PARSER AND TAGGER
# ----------------------------------------------------------------------------

def tagged(token_lists, codes_of):
    """Tags of each sentence; codes_of(tokens): predicted codes, padding included"""
    return [codes_of(tokens)[1:len(tokens) + 1] for tokens in token_lists]


def advance(parses, predict):
    """One predicted transition for each parse of a batch"""
    mats = [p.mats for p in parses]
    predictions = [predict(*m) for m in mats]
    for k in range(len(parses)):
        parses[k].register_transition(predictions[k])


def incomplete(parses):
    return [p for p in parses if not p.complete]


def parse_all(token_lists, start, predict, tree, batches):
    """Every sentence gets its own parse; rounds of one transition per incomplete parse until none is left"""
    parses = [start(tokens) for tokens in token_lists]
    left = incomplete(parses)
    while left:
        for batch in batches(left):
            advance(batch, predict)
        left = incomplete(parses)
    return [p.tags for p in parses], [tree(p) for p in parses]


def second(pair):
    return None if pair is None else pair[1]


def seconds(pairs):
    return [x for _, x in pairs]


def read_length(sent, i):
    return len(sent)


def read_token(sent, i):
    return sent[i]


def read_text(sent, i):
    return str(sent), repr(sent)


def text_of(tokens):
    return ' '.join(tokens), ' '.join(tokens)


def read_iteration(sent, i):
    return [x for x in sent]
