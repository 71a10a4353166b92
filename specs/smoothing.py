"""Contracts of the smoothers (property C08), over exact numbers.

ngrams: list of (tokens, count), tokens being a tuple of strings; distinct tokens.
"""
import math


def of_order(ngrams, n):
    return [(t, c) for t, c in ngrams if len(t) == n]


def mle(ngrams, tokens, count):
    return count / sum([c for t, c in of_order(ngrams, len(tokens))])


def nb_with_count(ngrams, n, k):
    return len([1 for t, c in of_order(ngrams, n) if c == k])


def enough_data(ngrams, last_order):
    return all([nb_with_count(ngrams, n, k) > 0 for n in range(2, last_order + 1) for k in (1, 2, 3, 4)])


def discounts(ngrams, n, num=float):
    """(d1, d2, d3) of an order"""
    n1, n2, n3, n4 = [num(nb_with_count(ngrams, n, k)) for k in (1, 2, 3, 4)]
    y = n1 / (n1 + 2 * n2)
    return 1 - 2 * y * n2 / n1, 2 - 3 * y * n3 / n2, 3 - 4 * y * n4 / n3


class Tables:
    """Counts needed by the interpolated formula"""

    def __init__(self, ngrams, last_order, num=float):
        self.num = num
        self.count = dict(ngrams)
        self.left = {}  # tokens => number of ngrams made of one token + tokens
        self.both = {}  # tokens => number of ngrams made of one token + tokens + one token
        self.right = {}  # tokens => (nb of continuations seen once, twice, more)
        self.nb_bigrams = len(of_order(ngrams, 2))
        for t, c in ngrams:
            if len(t) > 1:
                self.left[t[1:]] = self.left.get(t[1:], 0) + 1
                r = list(self.right.get(t[:-1], (0, 0, 0)))
                r[0 if c == 1 else 1 if c == 2 else 2] += 1
                self.right[t[:-1]] = tuple(r)
            if len(t) > 2:
                self.both[t[1:-1]] = self.both.get(t[1:-1], 0) + 1
        self.d = {n: discounts(ngrams, n, num) for n in range(2, last_order + 1)}


def discount(tables, n, c):
    if c == 0:
        return 0
    return tables.d[n][min(c, 3) - 1]


def mkn_unigram(tables, tokens):
    return tables.num(tables.left.get(tokens, 0)) / tables.nb_bigrams


def mkn(tables, tokens, top=True):
    """Interpolated modified Kneser-Ney value"""
    num = tables.num
    n = len(tokens)
    if n == 1:
        return mkn_unigram(tables, tokens)
    history = tokens[:-1]
    if top:
        c = tables.count[tokens]
        total = tables.count[history]
        d = discount(tables, n, c)
    else:
        c = tables.left.get(tokens, 0)
        total = tables.both.get(history, 0)
        d = discount(tables, n + 1, c)
    r = tables.right.get(history, (0, 0, 0))
    weight = sum([num(r[i]) * tables.d[n][i] for i in range(3)]) / total
    return max(num(c) - d, num(0)) / total + weight * mkn(tables, tokens[1:], False)


# AS PROGRAMS OVER THE N-GRAM OBJECTS
# ----------------------------------------------------------------------------

def total(ngrams, order):
    return sum([g.count for g in ngrams if g.order == order])


def mle_assign(ngrams, last_order):
    """Every n-gram gets its count divided by the total count of its order"""
    for order in range(1, last_order + 1):
        mine = [g for g in ngrams if g.order == order]
        for k in range(len(mine)):
            mine[k].proba = mine[k].count / total(ngrams, order)


def put_together(ranges):
    return [i for r in ranges for i in r]


def all_probas(slices, process, copy):
    """The results of all the slices, one after the other"""
    return [x for s in slices for x in process(copy(s)).np_probas]


def logp(proba):
    """Natural logarithm, minus infinity for 0 (and for negative numbers)"""
    return math.log(proba) if proba > 0 else float('-inf')


def texts(tokens):
    """Texts of an n-gram of order 2 or more: without its last token, with a wildcard instead of it, with one in front,
    with both"""
    history = ' '.join(tokens[:-1])
    return [history, history + ' •', '• ' + ' '.join(tokens), '• ' + history + ' •']


def suffix(tokens, order):
    return ' '.join(tokens[len(tokens) - order:])


# MODIFIED KNESER-NEY
# ----------------------------------------------------------------------------

def nb_seen(ngrams, order, count):
    """Number of n-grams of an order with a count"""
    return sum([1 for g in ngrams if g.order == order and g.count == count])


def mkn_discounts(ngrams, last_order, error):
    """order => discounts of the n-grams seen once, twice, three times or more; an error when some count of counts is 0"""
    table = {}
    for order in range(2, last_order + 1):
        n1 = nb_seen(ngrams, order, 1)
        n2 = nb_seen(ngrams, order, 2)
        n3 = nb_seen(ngrams, order, 3)
        n4 = nb_seen(ngrams, order, 4)
        if n1 == 0 or n2 == 0 or n3 == 0 or n4 == 0:
            raise error()
        y = n1 / (n1 + 2 * n2)
        table[order] = (1 - 2 * y * n2 / n1, 2 - 3 * y * n3 / n2, 3 - 4 * y * n4 / n3)
    return table


def discounts_of(ngrams, last_order, order, error):
    return list(mkn_discounts(ngrams, last_order, error)[order])
