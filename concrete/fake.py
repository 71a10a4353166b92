"""Language model stand-in: knows about half of all texts, with a pseudo-random probability"""
import hashlib


class FakeLM:

    def __init__(self, seed, share=.5, known=None, levels=50):
        self.seed, self.share, self.known, self.levels = seed, share, known, levels

    def _h(self, text):
        return int.from_bytes(hashlib.blake2b(('%s|%s' % (self.seed, text)).encode('utf-8', 'surrogatepass'),
                                              digest_size=6).digest(), 'little')

    def count(self, text):
        if self.known is not None:
            return self.known.get(text, 0)
        h = self._h(text)
        if h % 1000 >= self.share * 1000:
            return 0
        return 1 + (h // 1000) % 9

    def _rank(self, text):
        return self._h('p' + text) % self.levels if self.count(text) else -1

    def __contains__(self, text):
        return self.count(text) > 0

    def has_ngram(self, ngram, min_count=1):
        return min_count >= 1 and self.count(ngram) >= min_count

    def best_ngram(self, *ngrams):
        known = [g for g in ngrams if self.count(g)]
        if not known:
            return None
        best = max(self._rank(g) for g in known)
        return [g for g in known if self._rank(g) == best][0]

    def best_token(self, *tokens, before=None, after=None):
        known = [g for g in tokens if self.count(g)]
        if not known:
            return None
        best = max(self._rank(g) for g in known)
        return [g for g in known if self._rank(g) == best][-1]
