"""Contracts of the pipeline (property C02)."""

MAX_TOKENS = 50
SPLITTERS = (':', '"', ';', '(', ')', '[', ']', '{', '}', '-')


def piece_end(tokens, i):
    for j in range(i, len(tokens)):
        if tokens[j] in SPLITTERS:
            return j
    return len(tokens)


def pieces(tokens):
    """Maximal runs of tokens that are not splitters"""
    return [tokens[i:piece_end(tokens, i)] for i in range(len(tokens))
            if tokens[i] not in SPLITTERS and (i == 0 or tokens[i - 1] in SPLITTERS)]


def retained(token_lists):
    """Sentences of a text that reach the parser"""
    out = []
    for tokens in token_lists:
        if len(tokens) <= MAX_TOKENS:
            out.append(tokens)
        else:
            out.extend([p for p in pieces(tokens) if len(p) <= MAX_TOKENS])
    return out


def documents(texts, sentencize, stuples_of):
    """One list of sentences per text, each sentence being its list of tuples"""
    return [[stuples_of(tokens) for tokens in retained(sentencize(text))] for text in texts]


def parsed(token_lists, tags_of, tree_of):
    """Contract of the parser (C04): each sentence on its own, in order"""
    return [tags_of(tokens) for tokens in token_lists], [tree_of(tokens) for tokens in token_lists]


def sentence_tuples(tokens, tags, tree, chunk_common_nouns, steps):
    """The steps of the logic pipeline on one sentence, in their documented order"""
    nodes, node_tree = steps.nodify(tokens, tags, tree)
    for node in nodes.values():
        node.standard = steps.standardize(node.standard)
        node.lemma, node.suffix = steps.lemmatize(node.standard, node.tag)
    for node in nodes.values():
        steps.fix(node, node_tree)
    if chunk_common_nouns:
        steps.chunk(nodes.values(), node_tree)
    for node in nodes.values():
        steps.canonicalize(node)
    steps.find_arg(nodes.values(), node_tree)
    return steps.extract(nodes.values())


def view(docs):
    return [[s.stuples for s in d.sentences] for d in docs]


def tuples_of(sentences):
    return [t for s in sentences for t in s.stuples]


def visit(doc):
    return [[t for t in s] for s in doc]


def stuples_each(sentences):
    return [s.stuples for s in sentences]
