"""Contracts of the standardizer and of the inflector (property C13)."""

CONSONANTS = tuple('qwrtpsdfghjklzxcvbnm')
VOWELS = tuple('eyuioa')
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def letters_only(s):
    """Non-empty and made of (case-insensitive) ASCII letters, as matched by [a-z]+ ignoring case"""
    if not s:
        return False
    for c in s:
        if c not in LETTERS and c not in LETTERS.upper() and c not in '\u0130\u0131\u017f\u212a':
            return False
    return True


def longest(token, middles, endings):
    """(start, middle, ending): a start of letters, one of the middles, one of the endings; None when there is none.
    The longest start wins, then the earliest middle, then the earliest ending (all regardless of case).
    """
    for n in range(len(token), 0, -1):
        start = token[:n]
        if letters_only(start):
            rest = token[n:]
            for m in middles:
                if same_letters(rest[:len(m)], m):
                    for e in endings:
                        if same_letters(rest[len(m):], e):
                            return start, rest[:len(m)], rest[len(m):]
    return None


def alternation(token, middles, endings):
    """The start must have at least two letters"""
    r = longest(token, middles, endings)
    if r is not None and len(r[0]) > 1:
        return r
    return None


def same_letters(a, b):
    """Equality ignoring case the way regular expressions do"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.lower() != y and not (x == '\u017f' and y == 's') and not (x == '\u0130' and y == 'i') \
                and not (x == '\u0131' and y == 'i') and not (x == '\u212a' and y == 'k'):
            return False
    return True


def standardize(token, lm, split):
    """split(token, middles, endings): see alternation"""
    if lm.has_ngram(token, 5):
        return token
    r = split(token, ('our', 'or'), ('ing', 'ed', 's', ''))
    if r is not None and len(r[0]) > 2:
        best = lm.best_ngram(r[0] + 'or', r[0] + 'our')
        if best is not None:
            return best + r[2]
    r = split(token, ('ys', 'yz', 'is', 'iz'), ('ations', 'ation', 'ers', 'er', 'ing', 'ed', 'es', 'e'))
    if r is not None and len(r[0]) > 2:
        best = lm.best_ngram(r[0] + r[1][0] + 'ze', r[0] + r[1][0] + 'se')
        if best is not None:
            return best[:-1] + r[2]
    r = split(token, ('c', 's'), ('ives', 'ive', 'es', 'e'))
    if r is not None and len(r[0]) > 2:
        best = lm.best_ngram(r[0] + 'se', r[0] + 'ce')
        if best is not None:
            return best[:-1] + r[2]
    r = split(token, ('og', 'ogue'), ('s', ''))
    if r is not None and len(r[0]) > 2:
        best = lm.best_ngram(r[0] + 'og', r[0] + 'ogue')
        if best is not None:
            return best + r[2]
    r = split(token, ('el', 'ell'), ('ing', 'ers', 'ed', 'er'))
    if r is not None and len(r[0]) > 2:
        best = lm.best_ngram(r[0] + 'el' + r[2], r[0] + 'ell' + r[2])
        if best is not None:
            return best
    for digraph in ('ae', 'oe'):
        if len(token) > 4 and digraph in token:
            best = lm.best_ngram(token.replace(digraph, 'e'), token)
            if best is not None:
                return best
    return token


def past_participle(lemma, lm, irregulars):
    if lemma in irregulars:
        return irregulars[lemma]
    if len(lemma) > 2 and lemma.endswith('ie') and lemma[-3] in CONSONANTS:
        return lemma + 'd'
    if len(lemma) > 1 and lemma[-2] in CONSONANTS:
        if lemma[-1] == 'y':
            return lemma[:-1] + 'ied'
        if lemma[-1] == 'e':
            return lemma + 'd'
    if len(lemma) > 1 and lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
        best = lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
        if best:
            return best
    return lemma + 'ed'
