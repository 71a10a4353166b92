"""C07: n-gram extraction and counting."""
import z3

from pyvc.core import *
from pyvc.values import *
from pyvc.common import map_axioms, seed_dict

NOTE = '''Proved for all inputs: extract_ngrams equals its contract (lower-cased windows of valid tokens, text by text and
left to right) for every list of token lists and every order >= 1; one call of NgramStore.make_ngram, from any store whose
keys are the texts of its n-grams, adds one to the count of that text or appends the text with count 1, and changes nothing
else; by induction the content of a store is the tally of the texts added.'''


def prove(p):
    ip = p.interp('scrappybara.langmodel.ngrams_extraction', 'specs.ngrams')
    get = ip.loader.get
    toks = ip.th.mk(TList(TList(TStr)), 'toks')

    def extraction(case, order, pre):
        st = ip.st.fork()
        st.pc.extend(pre)
        p.goal('extract_ngrams, ' + case, lambda: p.equivalent(
            'extract_ngrams, ' + case, ip,
            lambda: ip.call(get('scrappybara.langmodel.ngrams_extraction.extract_ngrams'), [toks, order], {}),
            lambda: ip.call(get('specs.ngrams.extract_ngrams'), [toks, order], {}), st=st))

    extraction('order 1', 1, [])
    n = ip.th.mk(TInt, 'order')
    extraction('order 2 and more', n, [n.t >= 2])
    p.absorb(ip)
    p.goal('NgramStore.make_ngram', lambda: store(p))
    p.goal('tally', lambda: tally(p))


def store(p):
    ip = p.interp('scrappybara.langmodel.ngram_store', 'specs.ngrams')
    get = ip.loader.get
    cls = get('scrappybara.langmodel.ngram.Ngram')
    sch = Schema('Ngram', {'text': TStr, 'count': TInt, 'tokens': TList(TStr)}, cls)
    base = MapVal(z3.Const('store', MapX), TStr, TRef(sch))
    text = ip.th.mk(TStr, 'text')
    keys = map_axioms(ip, base)
    # Invariant of the store: the text of the n-gram found at a key is that key
    ip.sv.axioms['get<str,ref<Ngram>>'] = lambda app: [
        ip.field_base(Sym(TRef(sch), app), 'text').t == app.arg(1)]

    def code():
        s = ip.call(get('scrappybara.langmodel.ngram_store.NgramStore'), [], {})
        seed_dict(ip, s, base)
        r = ip.call(ip.getattr(s, 'make_ngram'), [text], {})
        return s, r

    def spec():
        before = SeqVal(ip.th.map_seq(keys, lambda k: (Unit((k, count(k))),)), 'list')
        return None, ip.call(get('specs.ngrams.step'), [before, text], {})

    def count(k):
        return ip.field_base(ip.bi.map_get(ip, base, k), 'count')

    def observe(v):
        s, r = v
        if s is None:
            return [('content', r)]
        return [('content', ip.call(get('specs.ngrams.content'), [s], {}))]

    p.equivalent('NgramStore.make_ngram', ip, code, spec, observe=observe)
    p.assume('Invariant of NgramStore used as precondition of one step and established by it: the n-gram stored at a key '
             'has that key for text (checked on the new entry)')
    p.absorb(ip)


def tally(p):
    ip = p.interp('specs.ngrams')
    get = ip.loader.get
    texts = ip.th.mk(TList(TStr), 'texts')
    text = ip.th.mk(TStr, 'text')
    p.equivalent('tally: no text', ip, lambda: ip.call(get('specs.ngrams.tally'), [SeqVal((), 'list')], {}),
                 lambda: ip.new_list(()))
    p.equivalent('tally: one more text', ip,
                 lambda: ip.call(get('specs.ngrams.step'), [ip.call(get('specs.ngrams.tally'), [texts], {}), text], {}),
                 lambda: ip.call(get('specs.ngrams.tally'), [SeqVal(texts.seq + (Unit(text),), 'list')], {}))
    p.absorb(ip)
