"""C04: parser and tagger."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.values import *
from pyvc.interp import Infeasible
from pyvc.common import filter_axioms

NOTE = '''Proved for any number of sentences of any length and any valid model outputs: the start, one transition, the arrays shown to
the model and the completion of one parse; the invariant of its stack and buffer (true at the start, kept by every transition,
every new arc well formed, a measure that always decreases, hence termination); the tree of a finished parse; the tagger; and
Parser.__call__ in lock step with the contract of rounds specs.parsing.parse_all. Assumed: the models predict each sentence from
its own arrays and give valid codes; Tree by its contract (C06), run_multithreads by its contract (C01), vectorize_sentence by its
contract (C03). Argued on paper (DESIGN.md): rounds equal parsing each sentence alone, and the arcs of a finished parse always
leave a token without head.'''
MOD = 'scrappybara.syntax.'


def setup(p, *mods):
    ip = p.interp()
    ip.contracts[MOD + 'models.PTagsModel'] = ip.contracts[MOD + 'models.PDepsModel'] = ip.contracts[MOD + 'models.TransModel'] = None
    for m in mods:
        ip.loader.load(m)
    return ip


class One:
    """A parse of one sentence with any predicted codes"""

    def __init__(self, ip):
        self.ip = ip
        th = ip.th
        self.n = th.mk(TInt, 'seq_length')
        self.tags, self.deps = th.mk(TList(TInt), 'tag_codes'), th.mk(TList(TInt), 'dep_codes')
        self.chars, self.words = (Sym(TRef(Schema('Array', {})), z3.Const(x, RefSort)) for x in ('chars', 'words'))
        tag, dep = self.tags.seq[0].t, self.deps.seq[0].t

        def bounds(app):
            out = []
            for t, top in ((tag, 16), (dep, 24)):
                if app.arg(0).eq(t):
                    out.append(z3.Implies(z3.And(app.arg(1) >= 0, app.arg(1) < _len(t)), z3.And(app >= 0, app <= top)))
            return out + filter_axioms(ip, app, self.points)

        self.points = [z3.IntVal(0)]
        ip.sv.axioms['at<int>'] = bounds
        self.st = ip.st.fork()
        self.st.pc += [self.n.t >= 2, self.n.t <= 52, _len(tag) == 52, _len(dep) == 52]

    def new(self):
        ip = self.ip
        return ip.call(ip.loader.get(MOD + 'parser._Parse'), [self.n, self.tags, self.deps, self.chars, self.words], {})

    def deques(self, obj):
        r = self.ip.rec(obj)
        out = [v for k, v in r.fields.items() if isinstance(v, Addr) and isinstance(self.ip.st.heap.get(v), ListObj)
               and self.ip.rec(v).kind == 'deque']
        if len(out) != 2:
            raise Unsupported('two deques were expected in a parse')
        return out


def prove(p):
    ip = setup(p, MOD + 'parser', 'specs.parsing')
    get = ip.loader.get
    one = One(ip)

    def spec(name, *args):
        return ip.call(get('specs.parsing.' + name), list(args), {})

    def seqval(v):
        return SeqVal(ip.freeze_seq(ip.seq_of(v)), 'list')

    def initial(order):
        obj = one.new()
        d = one.deques(obj)
        return ip.getattr(obj, 'tags'), seqval(d[order[0]]), seqval(d[order[1]]), ip.getattr(obj, 'arcs')

    p.goal('_Parse: start', lambda: p.equivalent(
        '_Parse: start', ip, lambda: initial((1, 0)), lambda: spec('new_parse', one.n, one.tags, one.deps), st=one.st))

    # Any state of a parse that satisfies the invariant
    th = ip.th
    trans = th.mk(TEnum(get(MOD + 'transitions.Trans')), 'trans')
    stack, buffer = th.mk(TList(TInt), 'stack'), th.mk(TList(TInt), 'buffer')
    arcs = th.mk(TList(TTuple(TInt, TInt, TInt)), 'arcs')
    i, j = th.mk(TInt, 'i'), th.mk(TInt, 'j')
    sl, bl = _len(stack.seq[0].t), _len(buffer.seq[0].t)
    deps = [None]

    def deps_of():
        return ip.bi.getslice(ip, one.deps, 1, lift_int(one.n.t - 1), None)

    def assume(st, k, m):
        """Adds the invariant of the given state at the positions k and m"""

        def go():
            r = spec('invariant', deps_of(), ip.new_list(stack.seq), ip.new_list(buffer.seq), k, m)
            if not ip.decide(ip.truth(r)):
                raise Infeasible()
            return ip.ok()

        outs = ip.explore(st, go)
        return z_or(*[z_and(*o.st.pc[len(st.pc):]) for o in outs])

    def with_invariant(*points):
        st = one.st.fork()
        facts = [assume(st, k, m) for k in points for m in points]
        st.pc += [f for f in facts if not is_true(z3.simplify(f))]
        return st

    zero, last = lift_int(z3.IntVal(0)), lift_int(sl - 1)
    going = with_invariant(zero, last)
    going.pc.append(bl > 0)

    def state(order):
        """A parse in the arbitrary state"""
        obj = one.new()
        d = one.deques(obj)
        ip.put(d[order[0]], ListObj(stack.seq, 'deque'))
        ip.put(d[order[1]], ListObj(buffer.seq, 'deque'))
        ip.setattr(obj, 'arcs', ip.new_list(arcs.seq))
        return obj

    def register(order):
        obj = state(order)
        ip.call(ip.getattr(obj, 'register_transition'), [trans], {})
        d = one.deques(obj)
        return seqval(d[order[0]]), seqval(d[order[1]]), ip.getattr(obj, 'arcs')

    p.goal('_Parse: one transition', lambda: p.equivalent(
        '_Parse: one transition', ip, lambda: register((1, 0)),
        lambda: spec('next_state', deps_of(), ip.new_list(stack.seq), ip.new_list(buffer.seq), ip.new_list(arcs.seq), trans), st=going))

    def mats(order):
        m = ip.getattr(state(order), 'mats')
        return m

    p.goal('_Parse: what the next transition is predicted from', lambda: p.equivalent(
        '_Parse: what the next transition is predicted from', ip, lambda: mats((1, 0)),
        lambda: (one.tags, one.deps, one.chars, one.words) + tuple(
            spec('masks_of', ip.new_list(stack.seq), ip.new_list(buffer.seq))), st=going))
    p.goal('_Parse: complete', lambda: p.equivalent(
        '_Parse: complete', ip, lambda: ip.getattr(state((1, 0)), 'complete'),
        lambda: spec('done', ip.new_list(buffer.seq)), st=one.st))

    # The invariant: true at the start, kept by the transitions; it implies that the arcs are well formed
    def start_holds():
        tags, st0, bf0, arcs0 = spec('new_parse', one.n, one.tags, one.deps)
        return spec('invariant', deps_of(), st0, bf0, i, j)

    def kept():
        s, b, a = spec('next_state', deps_of(), ip.new_list(stack.seq), ip.new_list(buffer.seq), ip.new_list(arcs.seq), trans)
        return spec('invariant', deps_of(), s, b, i, j)

    def new_arcs():
        a, s, b = spec('step', deps_of(), ip.new_list(stack.seq), ip.new_list(buffer.seq), trans)
        return spec('good_arcs', deps_of(), a, i)

    i1, j1 = lift_int(i.t + 1), lift_int(j.t + 1)
    one.points += [i.t, j.t, i1.t, j1.t]
    p.goal('invariant of a parse: true at the start', lambda: p.equivalent(
        'invariant of a parse: true at the start', ip, start_holds, lambda: True, st=one.st))

    def preserved():
        st = with_invariant(zero, last, i, j, i1, j1)
        st.pc.append(bl > 0)
        p.equivalent('invariant of a parse: kept by a transition', ip, kept, lambda: True, st=st)

    p.goal('invariant of a parse: kept by a transition', preserved)
    p.goal('invariant of a parse: new arcs', lambda: p.equivalent(
        'invariant of a parse: new arcs', ip, new_arcs, lambda: True, st=going))
    p.goal('every transition brings the end closer', lambda: p.equivalent(
        'every transition brings the end closer', ip,
        lambda: spec('decreases', deps_of(), ip.new_list(stack.seq), ip.new_list(buffer.seq), ip.new_list(arcs.seq), trans),
        lambda: True, st=going))

    # The tree of a parse with any arcs between different tokens
    def different(app):
        t, k = app.children()
        if not t.eq(arcs.seq[0].t):
            return []
        x = th.at(t, arcs.seq[0].ety, k)
        return [z3.Implies(z3.And(k >= 0, k < _len(t)), x[1].t != x[2].t)]

    def tree():
        ip.contracts['scrappybara.utils.tree.Tree'] = lambda ip, args, kw: ip.call(get('specs.parsing.RegisteredTree'), args, kw)
        ety = arcs.seq[0].ety
        for k in range(3):
            ip.sv.axioms['at<%s>_%d' % (ety.key, k)] = different
        p.equivalent('tree of a parse', ip,
                     lambda: spec('seen_tree', ip.call(get(MOD + 'parser._build_tree'), [state((1, 0))], {})),
                     lambda: spec('tree_of', ip.new_list(arcs.seq)), st=one.st)

    p.goal('tree of a parse', tree)
    p.absorb(ip)
    p.goal('Tagger', lambda: whole(p, 'Tagger'))
    p.goal('Parser', lambda: whole(p, 'Parser'))


def whole(p, what):
    """Parser and Tagger on any list of sentences, the models being any functions of the arrays of one sentence"""
    ip = p.interp()
    th = ip.th
    world = World(ip)
    array = TRef(Schema('Array', {}))
    chars, words = OpaqueFn('chars_of', array), OpaqueFn('words_of', array)
    tag_codes, dep_codes = OpaqueFn('predict_tags', TList(TInt)), OpaqueFn('predict_deps', TList(TInt))
    trans = OpaqueFn('predict_trans', TInt)
    nb, size, charset = th.mk(TInt, 'nb_processes'), th.mk(TInt, 'batch_size'), th.mk(TInt, 'charset_size')

    def model(name, fn):
        def predict(ip, obj, args, kw):
            if kw:
                raise Unsupported('arguments by name')
            rows = ip.bi.zip_seqs(ip, [ip.seq_of(a) for a in args])
            return ip.new_list(ip.th.map_seq(rows, lambda r: (Unit(ip.call(fn, list(r), {})),)))

        sch = Schema(name, {}, None, {'predict': predict, 'load': lambda ip, obj, args, kw: obj})
        obj = Sym(TRef(sch), z3.Const('model_' + name, RefSort))
        ip.contracts[MOD + 'models.' + name] = lambda ip, args, kw: obj

    for name, fn in (('PTagsModel', tag_codes), ('PDepsModel', dep_codes), ('TransModel', trans)):
        model(name, fn)
    sets = Schema('Charset', {}, None, {'load': lambda ip, obj, args, kw: obj, '__len__': lambda ip, obj, args, kw: charset})
    cs, ws = (Sym(TRef(sets), z3.Const(x, RefSort)) for x in ('charset', 'wordset'))
    ip.contracts[MOD + 'charset.Charset'] = lambda ip, args, kw: cs
    ip.contracts[MOD + 'wordset.Wordset'] = lambda ip, args, kw: ws

    def vectorize(ip, args, kw):
        tokens, a, b = args
        if ip.force(a) is not cs or ip.force(b) is not ws:
            raise Unsupported('vectorize_sentence with other tables')
        return (lift_int(th.seq_len(ip.seq_of(tokens)) + 2), ip.call(chars, [tokens], {}), ip.call(words, [tokens], {}))

    ip.contracts[MOD + 'training_samples.vectorize_sentence'] = vectorize
    parse_sch = Schema('Parse', {})
    parse_ty = TRef(parse_sch)

    def new_parse(ip, args, kw):
        if kw or len(args) != 5:
            raise Unsupported('_Parse with other arguments')
        return th.mk(parse_ty, 'parse', [t for a in args for t in ip.flat_terms(ip.freeze(ip.force(a)))])

    def get(ip, obj, name):
        if name == 'tags':
            return th.mk(TList(TInt), 'parse_tags', [obj.t])
        if name == 'complete':
            return world.value(TBool, 'complete', [obj])
        if name == 'mats':
            return tuple(world.value(array, 'mats%d' % k, [obj]) for k in range(6))
        if name == 'register_transition':
            return OpaqueFn('register_transition', None, handler=lambda ip, args: world.move('register', [obj] + list(args)))
        raise Unsupported('attribute %s of a parse' % name)

    parse_sch.get = get
    tree_ty = TOpt(TRef(Schema('ParsedTree', {})))
    build = OpaqueFn('build_tree', None, handler=lambda ip, args: world.value(tree_ty, 'build_tree', args))
    ip.contracts[MOD + 'parser._Parse'] = new_parse
    ip.contracts[MOD + 'parser._build_tree'] = lambda ip, args, kw: ip.call(build, args, kw)
    ip.contracts['scrappybara.utils.multithreading.run_multithreads'] = \
        lambda ip, args, kw: ip.call(ip.loader.get('specs.parallel.parallel_map'), list(args[:2]), {})
    for m in (MOD + 'parser', MOD + 'tagger', 'specs.parsing', 'specs.parallel'):
        ip.loader.load(m)
    find = ip.loader.get
    sents = th.mk(TList(TList(TStr)), 'token_lists')
    st = ip.st.fork()
    st.pc += [nb.t >= 1, size.t >= 1]

    def codes_of(ip, args):
        return ip.call(tag_codes, [ip.call(chars, args, {}), ip.call(words, args, {})], {})

    def start(ip, args):
        c, w = ip.call(chars, args, {}), ip.call(words, args, {})
        t = ip.call(tag_codes, [c, w], {})
        return ip.call(find(MOD + 'parser._Parse'), [lift_int(th.seq_len(ip.seq_of(args[0])) + 2), t,
                                                     ip.call(dep_codes, [t, c, w], {}), c, w], {})

    def batches(ip, args):
        return ip.call(find('specs.parallel.batches'), [args[0], size], {})

    if what == 'Tagger':
        for f in ('predict_tags', 'predict_deps'):
            ip.sv.axioms['fn_' + f] = lambda app: [_len(app) == 52]
        ip.sv.axioms['at<%s>' % TList(TStr).key] = lambda app: [_len(app) <= 50]
        st.pc.append(_len(sents.seq[0].t) > 0)
        cls = find('scrappybara.syntax.tags.Tag')
        ip.sv.axioms['at<int>'] = lambda app: [z3.And(app >= 0, app <= 16)]  # The models give codes of tags
        p.equivalent('Tagger', ip, lambda: ip.call(ip.getattr(ip.call(find(MOD + 'tagger.Tagger'), [], {}), 'tag'), [sents], {}),
                     lambda: ip.call(find('specs.parsing.tagged'), [sents, OpaqueFn('codes_of', None, handler=codes_of)], {}), st=st)
    else:
        p.equivalent('Parser', ip,
                     lambda: ip.call(ip.call(find(MOD + 'parser.Parser'), [nb, size], {}), [sents], {}),
                     lambda: ip.call(find('specs.parsing.parse_all'), [
                         sents, OpaqueFn('start', None, handler=start), trans, build,
                         OpaqueFn('batches', None, handler=batches)], {}), st=st)
    p.absorb(ip)


class World:
    """State of the parses as one opaque value, replaced whenever a transition is registered"""

    def __init__(self, ip):
        self.ip = ip
        self.ty = TRef(Schema('World', {}))
        cls = ClassVal('World', [], {}, None, 'World')
        self.ghost = ip.alloc(InstObj(cls, {'state': ip.th.mk(self.ty, 'world0')}))

    def terms(self, args):
        s = self.ip.force(self.ip.getattr(self.ghost, 'state'))
        return [s.t] + [t for a in args for t in self.ip.flat_terms(self.ip.force(a))]

    def move(self, name, args):
        self.ip.setattr(self.ghost, 'state', self.ip.th.mk(self.ty, 'after_' + name, self.terms(args)))

    def value(self, ty, name, args):
        return self.ip.th.mk(ty, name, self.terms(args))


def lift_int(t):
    from pyvc.theory import lift
    return lift(TInt, z3.simplify(t))
