"""Contracts of the language model lookups (property C09).

details: dict ngram => (count, proba, logp) in order of loading; order of an n-gram = its number of blank-separated tokens.
"""

NEVER = float('-inf')


def logp(details, ngram):
    return details[ngram][2] if ngram in details else NEVER


def has_ngram(details, ngram, min_count=1):
    return min_count >= 1 and ngram in details and details[ngram][0] >= min_count


def best_ngram(details, ngrams):
    """First n-gram of highest probability; None when none is known"""
    if not any([g in details for g in ngrams]):
        return None
    return max(ngrams, key=lambda g: logp(details, g))


def top_ngrams(details, order, limit=None):
    found = [(g, count, proba) for g, (count, proba, _) in details.items() if len(g.split()) == order]
    return sorted(found, key=lambda x: x[2], reverse=True)[:limit]


def next_tokens(details, context):
    found = [(g.split()[-1], proba) for g, (_, proba, _) in details.items()
             if len(g.split()) > 1 and ' '.join(g.split()[:-1]) == context]
    return sorted(found, key=lambda x: x[1], reverse=True)


def next_word(details, max_order, tokens, limit=None):
    """Continuations of the longest known context among the last tokens"""
    for k in range(max_order - 1, 0, -1):
        found = next_tokens(details, ' '.join(tokens[-k:]))
        if found:
            return found[:limit]
    return []


def contexts(token, before, after, order):
    """Windows of `order` tokens around the token, from left to right"""
    left = before[-(order - 1):]
    line = left + [token] + after[:order - 1]
    return [' '.join(line[i:i + order]) for i in range(len(line) - order + 1)]


class Context:
    """Contract of TokenContext"""

    def __init__(self, token, before, after):
        self.token = token
        self.before = before
        self.after = after

    def candidates(self, order):
        return contexts(self.token, self.before, self.after, order)


def rank(details, max_order, token, before, after):
    """Best log-probability of the contexts of each order, from the highest order down"""
    out = []
    for order in range(max_order, 1, -1):
        ps = [logp(details, g) for g in contexts(token, before, after, order)]
        out.append(max(ps) if ps else NEVER)
    out.append(logp(details, token))
    return tuple(out)


def best_token(details, max_order, tokens, before, after):
    """Last token of highest rank; None when no token is known"""
    if not any([t in details for t in tokens]):
        return None
    ranks = [rank(details, max_order, t, before, after) for t in tokens]
    last = {r: i for i, r in enumerate(ranks)}
    return tokens[last[max(ranks)]]


# LOADING
# ----------------------------------------------------------------------------

def load(files, min_counts, log):
    """files: for each order, the list of its lines (text, count and probability separated by tabs)"""
    details = {}
    for k in range(len(min_counts)):
        for line in files[k]:
            text, count, proba = line.split('\t')
            if int(count) >= min_counts[k]:
                details[text] = (int(count), float(proba), log(float(proba)))
    return details
