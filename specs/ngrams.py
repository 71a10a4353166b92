"""Contracts of n-gram extraction and of the store (property C07)."""

LOWER = tuple('abcdefghijklmnopqrstuvwxyz')
UPPER = tuple('ABCDEFGHIJKLMNOPQRSTUVWXYZ')


def valid_token(t):
    if not t:
        return False
    if t == 'I':
        return True
    if t[0] in UPPER:
        return False
    for c in t:
        if c not in LOWER and c not in UPPER:
            return False
    return True


def windows(tokens, order):
    return [tokens[i:i + order] for i in range(len(tokens) - order + 1)]


def extract_ngrams(token_lists, order):
    return [' '.join(w).lower() for tokens in token_lists for w in windows(tokens, order)
            if all([valid_token(t) for t in w])]


def distinct(texts):
    """First occurrences, in order"""
    out = []
    for t in texts:
        if t not in out:
            out.append(t)
    return out


def counts(texts):
    """Content of a store after adding the texts"""
    return [(t, len([x for x in texts if x == t])) for t in distinct(texts)]


def step(content, text):
    """Content of a store (texts and counts, in order of insertion) after one more text"""
    out = [(t, c + 1 if t == text else c) for t, c in content]
    if text not in [t for t, _ in content]:
        out.append((text, 1))
    return out


def tally(texts):
    """Content of a store after adding the texts"""
    return [(t, len([x for x in texts if x == t])) for t in dict.fromkeys(texts)]


def content(store):
    return [(n.text, n.count) for n in store.ngrams]
