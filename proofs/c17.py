"""C17: construction of a language model."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.loops import Iteration, vtype, NORMAL, CONTINUE, BREAK
from pyvc.interp import Outcome
from pyvc.theory import term, same_seg
from pyvc.values import *

NOTE = '''Proved for every sequence of texts, order, number of processes >= 1 and both methods: the constructor refuses exactly the
unknown methods and Kneser-Ney below order 2, before any file is opened; the n-grams added to the store are those of every text once,
in order (invariant of the loop over the batches, with its progress and its end); the smoother of the method gets that store; the
files opened and the lines written, in order, are those of specs.builder.written (n-grams of positive probability, by decreasing
probability). Assumed: sentencizing is a function of the text, extraction and store by their contracts (C07), smoothing gives lists of
n-grams (C08), Pool.map keeps the order, texts come from a plain iterator, numbers are exact. Not proved, bounded search only: that
reading a line back gives the values written (formatting and parsing of numbers; the format is proved for the writer here and for the
reader in C09).'''

LM = 'scrappybara.langmodel.'
BUILDER = LM + 'language_model_builder'
METHODS = ('modified_kneser_ney', 'maximum_likelihood_estimation')


def prove(p):
    p.goal('refusals', lambda: refusals(p))
    p.goal('order of n-grams', lambda: comparison(p))
    for m in METHODS:
        p.goal('building, ' + m, lambda m=m: building(p, m))


def setup(p):
    ip = p.interp()
    sentencize = OpaqueFn('sentencize', TList(TList(TStr)))
    ip.contracts['scrappybara.preprocessing.sentencizer.Sentencizer'] = lambda ip, args, kw: sentencize
    ip.contracts['scrappybara.utils.timer.Timer'] = lambda ip, args, kw: timer
    tsch = Schema('Timer', {'total_time': TStr})
    timer = ip.th.mk(TRef(tsch), 'timer')
    cpus = ip.th.mk(TInt, 'cpus')
    ip.ext['multiprocessing.cpu_count'] = lambda ip, args, kw: cpus
    return ip, sentencize


def refusals(p):
    ip, _ = setup(p)
    ip.loader.load(BUILDER)
    ip.loader.load('specs.builder')
    get = ip.loader.get
    smoothing, order, nb = ip.th.mk(TStr, 'smoothing'), ip.th.mk(TInt, 'order'), ip.th.mk(TInt, 'nb')
    ip.builtins['open'] = Builtin('open', lambda ip, args, kw: untouched())

    def untouched():
        raise Unsupported('the constructor opens a file')

    for given in (True, False):
        n = 'refusals' if given else 'refusals by default'
        args = [order, smoothing, nb] if given else [order]
        p.equivalent(n, ip, lambda: ip.call(get(BUILDER + '.LanguageModelBuilder'), args, {}) and None,
                     lambda: ip.call(get('specs.builder.refusal'),
                                     [smoothing if given else METHODS[0], order, get('scrappybara.exceptions.ArgumentValueError'),
                                      get(BUILDER + '.ModifiedKneserNeyMinOrderError')], {}), observe=lambda v: [])
    p.absorb(ip)


def comparison(p):
    """sorted() without key uses the comparison of the elements"""
    ip = p.interp(LM + 'ngram')
    cls = ip.loader.get(LM + 'ngram.Ngram')
    x, y = ip.th.mk(TReal, 'x'), ip.th.mk(TReal, 'y')

    def made(v, text):
        g = ip.call(cls, [text], {})
        ip.setattr(g, 'proba', v)
        return g

    a, b = ip.th.mk(TStr, 'a'), ip.th.mk(TStr, 'b')
    for op in ('__gt__', '__lt__'):
        if cls.lookup(op) is not None:
            p.equivalent('order of n-grams: ' + op, ip,
                         lambda: ip.call(ip.getattr(made(x, a), op), [made(y, b)], {}),
                         lambda: Sym(TBool, x.t > y.t if op == '__gt__' else x.t < y.t))
    p.record('order of n-grams: defined', any(cls.lookup(op) is not None for op in ('__gt__', '__lt__')), 'no comparison')
    p.absorb(ip)


def building(p, method):
    ip, sentencize = setup(p)
    get = ip.loader.get
    th = ip.th
    extract = OpaqueFn('extract_ngrams', TList(TStr))
    ip.contracts[LM + 'ngrams_extraction.extract_ngrams'] = lambda ip, args, kw: ip.call(extract, list(args) + list(kw.values()), {})
    world = {}
    ip.ext['multiprocessing.Pool'] = lambda ip, args, kw: pool
    psch = Schema('Pool', {}, None, {'map': lambda ip, obj, args, kw: ip.new_list(ip.bi.map_call(ip, args[0], ip.seq_of(args[1])))})
    pool = th.mk(TRef(psch), 'pool')
    ip.ext['itertools.islice'] = lambda ip, args, kw: ip.call(ip.getattr(args[0], 'take'), [args[1]], {})
    ip.loader.load('specs.builder')
    ip.loader.load(LM + 'ngram')
    sch = Schema('Ngram', {'text': TStr, 'count': TInt, 'tokens': TList(TStr), 'proba': TReal}, get(LM + 'ngram.Ngram'))
    smoothed = OpaqueFn('smoothed', TList(TRef(sch)))

    def new_store(ip, args, kw):
        world['store'] = ip.call(get('specs.builder.Store'), [], {})
        return world['store']

    def smoother(name):
        def make(ip, args, kw):
            a = list(args) + [kw[k] for k in ('ngrams', 'last_order', 'nb_processes') if k in kw]
            if len(a) != 3 or a[0] != world['store']:
                raise Unsupported('arguments of a smoother')
            p.record('building, %s: at least one process' % method, ip.sv.prove(ip.st.pc, term(a[2]) >= 1), 'no process')
            return ip.call(get('specs.builder.Smoother'), [world['used'], name, smoothed, a[0], a[1]], {})

        return make

    ip.contracts[LM + 'ngram_store.NgramStore'] = new_store
    ip.contracts[LM + 'mkn_smoother.MKNSmoother'] = smoother(METHODS[0])
    ip.contracts[LM + 'mle_smoother.MLESmoother'] = smoother(METHODS[1])

    def opened(ip, args, kw):
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        if mode != 'w' or kw.get('encoding') != 'utf-8':
            raise Unsupported('file opened otherwise than for writing text in utf-8')
        return ip.call(get('specs.builder.File'), [world['files'], args[0]], {})

    ip.builtins['open'] = Builtin('open', opened)
    builtin_sorted = ip.builtins['sorted'].fn
    by_proba = Builtin('proba', lambda ip, args, kw: ip.getattr(args[0], 'proba'))

    def by_order(ip, args, kw):
        if 'key' not in kw:
            kw = dict(kw, key=by_proba)  # By 'order of n-grams'
        return builtin_sorted(ip, args, kw)

    ip.builtins['sorted'] = Builtin('sorted', by_order)
    ip.loader.load(BUILDER)
    texts = th.mk(TList(TStr), 'texts')
    order, nb = th.mk(TInt, 'order'), th.mk(TInt, 'nb')
    size = _len(texts.seq[0].t)
    st = ip.st.fork()
    st.pc += [order.t >= 1, nb.t >= 1]
    if method == METHODS[0]:
        st.pc.append(order.t >= 2)

    def of_prefix(k):
        """N-grams of the first k texts"""
        return ip.call(get('specs.builder.ngrams_of_texts'), [SeqVal(th.slice(texts.seq, z3.IntVal(0), k), 'list'), order, sentencize, extract], {})

    def pos(st):
        return term(st.heap[world['texts']].fields['pos'])

    def of_slice(i, k):
        return ip.call(get('specs.builder.ngrams_of_texts'), [SeqVal(th.slice(texts.seq, i, k), 'list'), order, sentencize, extract], {})

    def invariant(st, name, before=()):
        """The n-grams added to the store are those of the texts drawn so far. After an iteration, from the n-grams `before`
        of the first texts: those added are those of the texts drawn
        """
        keep, ip.st = ip.st, st.fork()
        try:
            start, done = before or (z3.IntVal(0), ())
            k = pos(st)
            good = p.record(name + ': texts drawn', ip.sv.prove(st.pc, z3.And(k >= start, k <= size)), 'position of the iterator')
            seq = ip.freeze_seq(ip.rec(ip.getattr(world['store'], 'added')).seq)
            if not p.record(name + ': only adds', len(seq) >= len(done) and all(same_seg(x, y) for x, y in zip(seq, done)), seq):
                return
            seq = seq[len(done):]
            cases = [s.c for s in seq if isinstance(s, Guard)]
            for c in cases + [z_not(z_or(*cases))] if cases else [z3.BoolVal(True)]:
                pc = list(ip.st.pc) + [c]
                if ip.sv.prove(pc, z3.BoolVal(False)):
                    continue
                end = ip.th.ctx_simp(pc, Sym(TInt, k))
                p.equal(name + ': n-grams counted', ip, pc, SeqVal(seq, 'list'), ip.freeze(of_slice(start, term(end))))
        finally:
            ip.st = keep

    def guard(st, s, fr):
        def go():
            return [Outcome('true' if ip.decide(ip.cond(s.test, fr)) else 'false', None, ip.st)]

        return ip.explore(st, go)

    def loop(ip, s, fr, iterate):
        if 'store' not in world or world['store'] not in ip.st.heap:
            return None
        world['loops'] = world.get('loops', 0) + 1
        start = ip.st
        name = 'building, %s: loop' % method
        invariant(start, name + ' at first')
        aux = Iteration.__new__(Iteration)
        aux.ip, aux.th, aux.st = ip, th, start
        added = ip.getattr(world['store'], 'added')
        fixed = {('fld', world['texts'], 'pos'), ('seq', added)}
        changed = set()
        for _ in range(20):
            h = start.fork()
            k = z3.Int('drawn!%d' % fresh_id())
            h.pc += [k >= 0, k <= size]
            keep, ip.st = ip.st, h
            ip.setattr(world['texts'], 'pos', Sym(TInt, k))
            ip.put(added, ListObj(ip.freeze_seq(ip.seq_of(of_prefix(k))), 'list'))
            h, ip.st = ip.st, keep
            done = h.heap[added].seq
            for key in sorted(changed, key=str):
                v = aux.read(start, key)
                ty = vtype(th, v) if isinstance(v, (bool, int, str, Sym)) else None
                if key[0] == 'seq':
                    raise Unsupported('a list is modified by the loop over the texts')
                aux.write(h, key, th.mk(ty, 'any!%d' % fresh_id()) if ty is not None else Undefined('loop temporary %s' % (key[2],)))
            outs = iterate(h, None)
            aux.st = h
            new = {c for o in outs if o.kind in (NORMAL, CONTINUE) for c in aux.changes(h, o.st)} - changed - fixed
            if not new:
                break
            changed |= new
        else:
            raise Unsupported('locations modified by the loop over the texts')
        for o in outs:
            if o.kind in (NORMAL, CONTINUE, BREAK):
                invariant(o.st, name, (k, done))
            if o.kind == BREAK:
                p.record(name + ': left when every text is drawn', ip.sv.prove(o.st.pc, pos(o.st) == size), 'texts left')
            elif o.kind in (NORMAL, CONTINUE):
                for g in guard(o.st, s, fr):
                    if g.kind == 'false':
                        p.record(name + ': left when every text is drawn', ip.sv.prove(g.st.pc, pos(g.st) == size), 'texts left')
                    else:
                        p.record(name + ': goes on after drawing a text', ip.sv.prove(g.st.pc, pos(g.st) > k), 'no progress')
            elif o.kind != 'stop':
                p.record(name + ': no other way out', False, o.kind)
        for g in guard(start, s, fr):
            if g.kind == 'false':
                p.record(name + ': not entered without text only', ip.sv.prove(g.st.pc, size == 0), 'texts left')
        h = h.fork()
        h.pc = list(start.pc)
        keep, ip.st = ip.st, h
        ip.setattr(world['texts'], 'pos', Sym(TInt, size))
        ip.put(added, ListObj(ip.freeze_seq(ip.seq_of(of_prefix(size))), 'list'))
        h, ip.st = ip.st, keep
        return [Outcome(NORMAL, None, h)]

    def code():
        world['used'], world['files'] = ip.new_list(()), ip.new_list(())
        world['texts'] = ip.call(get('specs.builder.Texts'), [texts], {})
        b = ip.call(get(BUILDER + '.LanguageModelBuilder'), [order, method, nb], {})
        ip.while_hook = loop
        ip.call(b, [world['texts']], {})
        ip.while_hook = None
        return ip.getattr(world['store'], 'added'), world['used'], world['files']

    def spec():
        folder = ip.call(get('scrappybara.utils.files.file_path'), ['langmodel'], {})
        return (of_prefix(size), ip.new_list((Unit((method, order)),)),
                ip.call(get('specs.builder.written'), [folder, order, smoothed, method], {}))

    p.equivalent('building, ' + method, ip, code, spec, st=st,
                 observe=lambda v: [('n-grams counted', v[0]), ('smoothing', v[1]), ('files', v[2])])
    p.record('building, %s: loop over the texts' % method, world.get('loops', 0) > 0, 'no loop was met')
    p.absorb(ip)
