"""C09: lookups of the language model."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.theory import lift
from pyvc.values import *

NOTE = '''Proved for models of 1, 2 and 3 orders and any content of their files: size, presence, counts, best_ngram, top_ngrams and
next_word of the loaded model are those of the contract; the contexts of a token for any order; the rank of a token and best_token
for any table of n-grams. Assumed: the files are well formed (three fields, a count, a positive probability; C17 writes them so),
math.log and the tokenizer are functions of their argument, sorted() is a stable sort (its first element is the first best one).
More than three orders: bounded part only.'''

MODEL = 'scrappybara.langmodel.language_model.LanguageModel'
RANK = '_LanguageModel__logps'


def prove(p):
    for orders in (1, 2, 3):
        model(p, orders)
    p.goal('contexts of a token', lambda: contexts(p))


def model(p, orders):
    ip = p.interp()
    get = ip.loader.get
    tokenize = OpaqueFn('tokenize', TList(TStr))
    ip.contracts['scrappybara.preprocessing.tokenizer.Tokenizer'] = lambda ip, args, kw: tokenize
    lines = {'%d_grams.txt' % (k + 1): ip.th.mk(TList(TStr), 'lines%d' % (k + 1)) for k in range(orders)}
    mins = [ip.th.mk(TInt, 'min%d' % (k + 1)) for k in range(orders)]

    def reader(ip, args, kw):
        if len(args) != 2 or args[0] != 'langmodel' or args[1] not in lines:
            raise Unsupported('unexpected file %r' % (args,))
        return lines[args[1]]

    ip.contracts['scrappybara.utils.files.txt_file_reader'] = reader
    # By the contract of TokenContext, proved for itself below
    window = OpaqueFn('contexts', TList(TStr))
    ip.contracts['specs.lm.contexts'] = lambda ip, args, kw: ip.call(window, args, kw)
    ip.contracts['scrappybara.langmodel.token_context.TokenContext'] = \
        lambda ip, args, kw: ip.call(get('specs.lm.Context'), args, kw)
    # Precondition: the files are well formed
    ip.sv.axioms['int_bad'] = lambda app: [z3.Not(app)]
    ip.sv.axioms['float_bad'] = lambda app: [z3.Not(app)]
    ip.sv.axioms['float_of_str'] = lambda app: [app > 0]
    ip.sv.axioms['str_split1'] = lambda app: [_len(app) == 3] if app.arg(1).eq(z3.StringVal('\t')) else [_len(app) >= 1]
    for m in ('scrappybara.langmodel.language_model', 'specs.lm'):
        ip.loader.load(m)
    log = get('scrappybara.langmodel.language_model.math.log')
    text, text2, before, after = (ip.th.mk(TStr, n) for n in ('text', 'text2', 'before', 'after'))
    texts = ip.th.mk(TList(TStr), 'texts')
    least, order, limit = (ip.th.mk(TInt, n) for n in ('least', 'order', 'limit'))
    st = ip.st.fork()
    st.pc.append(order.t >= 0)
    st.pc.append(limit.t >= 0)
    st.pc.append(_len(texts.seq[0].t) >= 1)

    def lm():
        return ip.call(get('scrappybara.langmodel.language_model.LanguageModel'), list(mins), {})

    def details():
        return ip.call(get('specs.lm.load'), [tuple(lines.values()), tuple(mins), log], {})

    def method(name, args, **kw):
        return ip.call(ip.getattr(lm(), name), args, kw)

    def spec(name, *args):
        return ip.call(get('specs.lm.' + name), [details()] + list(args), {})

    def goal(name, code, contract):
        n = '%s, %d order%s' % (name, orders, 's' if orders > 1 else '')
        p.goal(n, lambda: p.equivalent(n, ip, code, contract, st=st))

    goal('size', lambda: ip.call(ip.builtins['len'], [lm()], {}), lambda: ip.call(ip.builtins['len'], [details()], {}))
    goal('presence', lambda: method('__contains__', [text]), lambda: lift(TBool, ip.contains(text, details())))
    goal('has_ngram', lambda: method('has_ngram', [text, least]), lambda: spec('has_ngram', text, least))
    goal('has_ngram by default', lambda: method('has_ngram', [text]), lambda: spec('has_ngram', text))
    goal('best_ngram of two', lambda: method('best_ngram', [text, text2]), lambda: spec('best_ngram', (text, text2)))
    goal('best_ngram', lambda: method('best_ngram', StarArgs(texts.seq)), lambda: spec('best_ngram', texts))
    goal('top_ngrams', lambda: method('top_ngrams', [order]), lambda: spec('top_ngrams', order))
    goal('top_ngrams with limit', lambda: method('top_ngrams', [order, limit]), lambda: spec('top_ngrams', order, limit))
    toks = lambda x: ip.call(tokenize, [x], {})
    goal('next_word', lambda: method('next_word', [before]), lambda: spec('next_word', orders, toks(before)))
    goal('next_word with limit', lambda: method('next_word', [before, limit]),
         lambda: spec('next_word', orders, toks(before), limit))
    # The best token for any table: the table the constructor builds is replaced by an arbitrary one
    table = ip.th.mk(TMap(TStr, TTuple(TInt, TReal, TReal)), 'table')

    def any_lm():
        m = lm()
        found = []
        rec = ip.rec(m)
        for name, v in rec.fields.items():
            if isinstance(v, Addr) and isinstance(ip.rec(v), DictObj):
                vals = ip.bi.entry_shapes(ip, ip.rec(v).seq)
                if vals == {3}:
                    found.append(v)
        if len(found) != 1:
            raise Unsupported('the table of the model was not recognised')
        ip.put(found[0], DictObj((Unit(('base', table, None)),), 'dict'))
        return m

    def rank(ctx):
        m = any_lm()
        return ip.call(ip.getattr(m, RANK), [ctx], {})

    ctx = lambda: ip.call(get('specs.lm.Context'), [text, toks(before), toks(after)], {})
    goal('rank of a token', lambda: ip.call(ip.builtins['tuple'], [rank(ctx())], {}),
         lambda: ip.call(get('specs.lm.rank'), [table, orders, text, toks(before), toks(after)], {}))

    def best():
        ranks = tuple(OpaqueFn('rank%d' % k, TReal) for k in range(orders))
        args = lambda c: [ip.getattr(c, n) for n in ('token', 'before', 'after')]
        ip.contracts[MODEL + '.' + RANK.replace('_LanguageModel', '')] = \
            lambda ip, a, kw: ip.new_list(tuple(Unit(ip.call(r, args(a[1]), {})) for r in ranks))
        ip.contracts['specs.lm.rank'] = lambda ip, a, kw: tuple(ip.call(r, a[2:], {}) for r in ranks)
        n = 'best_token, %d order%s' % (orders, 's' if orders > 1 else '')
        p.equivalent(n, ip, lambda: ip.call(ip.getattr(any_lm(), 'best_token'), StarArgs(texts.seq),
                                            {'before': before, 'after': after}),
                     lambda: ip.call(get('specs.lm.best_token'), [table, orders, texts, toks(before), toks(after)], {}), st=st)

    p.goal('best_token, %d order%s' % (orders, 's' if orders > 1 else ''), best)
    p.absorb(ip)


def contexts(p):
    ip = p.interp('scrappybara.langmodel.token_context', 'specs.lm')
    get = ip.loader.get
    token = ip.th.mk(TStr, 'token')
    before, after = ip.th.mk(TList(TStr), 'before'), ip.th.mk(TList(TStr), 'after')
    order = ip.th.mk(TInt, 'order')
    st = ip.st.fork()
    st.pc.append(order.t >= 2)

    def code():
        c = ip.call(get('scrappybara.langmodel.token_context.TokenContext'), [token, before, after], {})
        return ip.call(ip.getattr(c, 'candidates'), [order], {})

    p.equivalent('contexts of a token', ip, code,
                 lambda: ip.call(get('specs.lm.contexts'), [token, before, after, order], {}), st=st)
    p.absorb(ip)
