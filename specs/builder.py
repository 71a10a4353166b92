"""Contract of the construction of a language model (property C17).

Texts, Store and File record what the code does with the iterator of texts, the store of n-grams and the files; sentencize,
extract_ngrams (C07) and the smoothers (C08) are given.
"""


class Texts:
    """An iterator"""

    def __init__(self, texts):
        self.texts = texts
        self.pos = 0

    def __next__(self):
        if self.pos >= len(self.texts):
            raise StopIteration()
        text = self.texts[self.pos]
        self.pos += 1
        return text

    def take(self, size):
        """As itertools.islice"""
        start = self.pos
        self.pos = min(start + size, len(self.texts))
        return self.texts[start:self.pos]


class Store:
    """As NgramStore, but keeps the texts added one after the other (C07: the store is their tally)"""

    def __init__(self):
        self.added = []

    def make_ngram(self, text):
        self.added.append(text)

    @property
    def ngrams(self):
        return self


class Smoother:
    def __init__(self, log, method, ngrams_of, store, order):
        self.log = log
        self.method = method
        self.ngrams_of = ngrams_of
        self.store = store
        self.order = order

    def __call__(self):
        self.log.append((self.method, self.order))
        return self

    def ngrams(self, n):
        return self.ngrams_of(self.method, n)


class File:
    def __init__(self, written, path):
        self.written = written
        self.path = path
        self.written.append((path, None))

    def write(self, text):
        self.written.append((self.path, text))


def ngrams_of_texts(texts, order, sentencize, extract):
    """Every n-gram of every order of every text, text by text"""
    return [g for text in texts for n in range(1, order + 1) for g in extract(sentencize(text), n)]


def line(ngram):
    return '%s\t%d\t%.17f\n' % (ngram.text, ngram.count, ngram.proba)


def written(folder, order, ngrams_of, method):
    """Files opened (None) and lines written, in order"""
    out = []
    for n in range(1, order + 1):
        path = folder + '/' + '%d_grams.txt' % n
        out.append((path, None))
        for g in sorted(ngrams_of(method, n), key=lambda g: g.proba, reverse=True):
            if g.proba > 0.0:
                out.append((path, line(g)))
    return out


def refusal(smoothing, order, unknown, too_low):
    """Exception of the constructor, None when it accepts"""
    if smoothing != 'modified_kneser_ney' and smoothing != 'maximum_likelihood_estimation':
        raise unknown('smoothing', smoothing, None)
    if smoothing == 'modified_kneser_ney' and order < 2:
        raise too_low()
    return None
