"""C08: smoothing."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.values import *

NOTE = '''Proved for all inputs: MLESmoother gives every n-gram its count divided by the total count of its order, for
any list of n-grams whose orders lie in 1..last_order and any number of processes (the ranges of the processes put together
are range(n); the slices put together are the results of all the slices in order, run_multithreads standing for its contract
of C01); setting a probability sets logp to its logarithm, -inf at 0; order, last token, shorter and wildcard texts of an
n-gram; MKNSmoother raises the not-enough-data error exactly when some order of 2 or more misses a count of counts 1..4, and
its discounts d1, d2, d3 are the modified Kneser-Ney ones. Bounded, not proved: the interpolated MKN probabilities (nested
arrays unfolded recursively), decided on generated n-gram lists against the formula in specs/smoothing.py in exact fractions.
Numbers are exact reals (no rounding).'''
LM = 'scrappybara.langmodel.'


def ngram_schema(ip):
    """Symbolic n-grams: text, tokens, count; the probability is written by the smoothers"""
    cls = ip.loader.get(LM + 'ngram.Ngram')
    sch = Schema('Ngram', {'text': TStr, 'count': TInt, 'tokens': TList(TStr), 'proba': TReal}, cls)
    return sch


def setup(p, *mods):
    ip = p.interp()
    ip.contracts['scrappybara.utils.multithreading.run_multithreads'] = \
        lambda ip, args, kw: ip.call(ip.loader.get('specs.parallel.parallel_map'), list(args[:2]), {})
    copy = OpaqueFn('copy', None, handler=lambda ip, args: ip.bi.box(ip, ip.freeze(args[0])))

    def all_probas(ip, args, kw):
        if len(args) != 3 or kw:
            raise Unsupported('calc_ngrams_multithread with other arguments')
        r = ip.call(ip.loader.get('specs.smoothing.all_probas'), list(args[:2]) + [copy], {})
        return ip.new_list(ip.seq_of(r), 'ndarray')

    ip.contracts[LM + 'smoother.calc_ngrams_multithread'] = all_probas
    for m in mods + ('specs.smoothing', 'specs.parallel'):
        ip.loader.load(m)
    return ip


def prove(p):
    ip = setup(p, LM + 'mle_smoother')
    get = ip.loader.get
    th = ip.th
    sch = ngram_schema(ip)
    ngrams = th.mk(TList(TRef(sch)), 'ngrams')
    last, nb = th.mk(TInt, 'last_order'), th.mk(TInt, 'nb_processes')
    n = th.mk(TInt, 'n')
    empty = ip.new_list(())
    st = ip.st.fork()
    st.pc += [last.t >= 1, nb.t >= 1, n.t >= 0]
    mle = get(LM + 'mle_smoother.MLESmoother')

    def spec(name, *args):
        return ip.call(get('specs.smoothing.' + name), list(args), {})

    def ranges():
        s = ip.call(mle, [empty, last, nb], {})
        return ip.call(ip.getattr(s, '_process_ranges'), [n], {})

    p.goal('ranges', lambda: p.equivalent('ranges of the processes put together', ip, lambda: spec('put_together', ranges()),
                                          lambda: SeqVal(ip.seq_of(ip.call(ip.builtins['range'], [n], {})), 'list'), st=st))
    ip.sv.axioms['fld_Ngram_count'] = lambda app: [app >= 1]

    ip.sv.axioms['fld_Ngram_tokens'] = lambda app: [_len(app) >= 1, _len(app) <= last.t]

    def run_mle():
        s = ip.call(mle, [ngrams, last, nb], {})
        ip.call(s, [], {})
        return s

    p.goal('MLE', lambda: p.equivalent('MLE', ip, run_mle, lambda: spec('mle_assign', ngrams, last), st=st,
                                       observe=lambda v: [], fields=[(sch, 'proba')]))
    put_slices_together(p)
    ngram_class(p)
    mkn(p)
    p.absorb(ip)


def mkn(p):
    ip = setup(p, LM + 'mkn_smoother', LM + 'ngram')
    get = ip.loader.get
    th = ip.th
    sch = ngram_schema(ip)
    ngrams = th.mk(TList(TRef(sch)), 'ngrams')
    last, nb, order = th.mk(TInt, 'last_order'), th.mk(TInt, 'nb_processes'), th.mk(TInt, 'order')
    st = ip.st.fork()
    st.pc += [last.t >= 1, nb.t >= 1]
    ip.sv.axioms['fld_Ngram_count'] = lambda app: [app >= 1]
    ip.sv.axioms['fld_Ngram_tokens'] = lambda app: [_len(app) >= 1, _len(app) <= last.t]
    cls = get(LM + 'mkn_smoother.MKNSmoother')
    error = get(LM + 'mkn_smoother.ModifiedKneserNeyNotEnoughDataError')

    def spec(name, *args):
        return ip.call(get('specs.smoothing.' + name), list(args), {})

    def code_discounts():
        s = ip.call(cls, [ngrams, last, nb], {})
        return ip.new_list(tuple(Unit(ip.call(ip.getattr(s, 'discount_%d' % k), [order], {})) for k in (1, 2, 3)))

    inside = st.fork()
    inside.pc += [order.t >= 2, order.t <= last.t]
    p.goal('MKN discounts', lambda: p.equivalent('MKN discounts', ip, code_discounts,
                                                 lambda: spec('discounts_of', ngrams, last, order, error), st=inside))
    p.absorb(ip)


def ngram_class(p):
    ip = setup(p, LM + 'ngram')
    get = ip.loader.get
    cls = get(LM + 'ngram.Ngram')
    text = ip.th.mk(TStr, 'text')
    x = ip.th.mk(TReal, 'proba')
    k = ip.th.mk(TInt, 'order')

    def scored():
        g = ip.call(cls, [text], {})
        ip.setattr(g, 'proba', x)
        return [ip.getattr(g, 'proba'), ip.getattr(g, 'logp')]

    def spec(name, *args):
        return ip.call(get('specs.smoothing.' + name), list(args), {})

    p.goal('logp', lambda: p.equivalent('logp of a probability', ip, lambda: scored()[1], lambda: spec('logp', x)))
    p.goal('proba', lambda: p.equivalent('probability kept as set', ip, lambda: scored()[0], lambda: x))
    tokens = SeqVal((Var(z3.Const('tokens', SeqX), TStr),), 'list')
    tt = z3.Const('tokens', SeqX)

    def made():
        """An n-gram whose tokens are the given ones"""
        g = ip.call(cls, [ip.call(ip.getattr(' ', 'join'), [tokens], {})], {})
        ip.setattr(g, 'tokens', ip.bi.box(ip, tokens))
        return g

    def code_texts():
        g = made()
        return ip.new_list(tuple(Unit(ip.getattr(g, n)) for n in
                                 ('without_last_token', 'wc_last_token', 'prepend_wc', 'continuous_ngram')))

    two = ip.st.fork()
    two.pc += [_len(tt) >= 2]
    p.goal('texts', lambda: p.equivalent('texts of an n-gram', ip, code_texts, lambda: spec('texts', tokens), st=two))
    p.goal('order', lambda: p.equivalent('order of an n-gram', ip, lambda: ip.getattr(made(), 'order'),
                                         lambda: Sym(TInt, _len(tt)), st=two))
    p.goal('last token', lambda: p.equivalent('last token', ip, lambda: ip.getattr(made(), 'last_token'),
                                              lambda: ip.th.get(tokens.seq, _len(tt) - 1), st=two))
    lower = ip.st.fork()
    lower.pc += [k.t >= 1, k.t < _len(tt)]
    p.goal('lower order', lambda: p.equivalent('lower order', ip, lambda: ip.call(ip.getattr(made(), 'lower_order'), [k], {}),
                                               lambda: spec('suffix', tokens, k), st=lower))
    p.absorb(ip)


def put_slices_together(p):
    """calc_ngrams_multithread, for any slices and any process"""
    ip = setup(p)
    ip.contracts.pop(LM + 'smoother.calc_ngrams_multithread')
    ip.loader.load(LM + 'smoother')
    sch = Schema('Slice', {})
    field = z3.Function('slice_probas', RefSort, SeqX)
    sch.get = lambda ip, obj, name: SeqVal((Var(field(obj.t), TReal),), 'ndarray') if name == 'np_probas' else None
    slices = ip.th.mk(TList(TRef(sch)), 'slices')
    nb = ip.th.mk(TInt, 'nb_processes')
    work = OpaqueFn('process', TRef(sch))
    copy = OpaqueFn('copy', None, handler=lambda ip, args: args[0])
    st = ip.st.fork()
    st.pc += [nb.t >= 1, _len(ip.seq_of(slices)[0].t) >= 1]
    p.goal('slices put together', lambda: p.equivalent(
        'slices put together', ip,
        lambda: ip.call(ip.loader.get(LM + 'smoother.calc_ngrams_multithread'), [slices, work, nb], {}),
        lambda: ip.call(ip.loader.get('specs.smoothing.all_probas'), [slices, work, copy], {}),
        observe=lambda v: [('result', SeqVal(ip.seq_of(v), 'list'))], st=st))
    p.absorb(ip)
