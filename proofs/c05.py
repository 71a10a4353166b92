"""C05: labelled sentences."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.values import *

NOTE = '''Proved for every list of labelled tokens with valid names in which no token is its own parent: tokens, tags, labels, root and
arcs (or an empty sentence); length, indexing, iteration and text; for any content and any tree: the tokens of the tree, leaves,
crossing arcs, and the transitions in lock step with the contract of the oracle; the training sets: one sample per sentence or
transition, all columns in the same order. Assumed: Tree by its contract (C06), the samples by theirs (C03), random.shuffle
rearranges. Bounded, not proved: replaying the transitions of the contract rebuilds the arcs, for every projective tree of at most
8 tokens (9 in the thorough tier).'''
MOD = 'scrappybara.syntax.labelled_data.'
SYN = 'scrappybara.syntax.'


def prove(p):
    ip = p.interp()
    ip.contracts['scrappybara.utils.tree.Tree'] = lambda ip, args, kw: ip.call(
        ip.loader.get('specs.parsing.RegisteredTree'), args, kw)
    for m in (SYN + 'labelled_data', 'specs.parsing'):
        ip.loader.load(m)
    get = ip.loader.get
    th = ip.th
    Tag, Dep, Trans = get(SYN + 'tags.Tag'), get(SYN + 'dependencies.Dep'), get(SYN + 'transitions.Trans')
    row = TTuple(TStr, TStr, TStr, TInt)
    rows = th.mk(TList(row), 'rows')
    t0 = rows.seq[0].t

    def spec(name, *args):
        return ip.call(get('specs.parsing.' + name), list(args), {})

    # Preconditions: names of tags and of labels, no token is its own parent
    for cls in (Tag, Dep):
        ip.sv.axioms['enum_has<%s>' % cls.__name__] = lambda app: [app] if app.arg(0).num_args() == 2 and \
            app.arg(0).arg(0).eq(t0) else []

    def not_itself(app):
        s, k = app.children()
        return [app != k] if s.eq(t0) else []

    ip.sv.axioms['at<%s>_3' % row.key] = not_itself
    tag = OpaqueFn('tag', None, handler=lambda ip, args: ip.bi.getitem(ip, Tag, args[0]))
    dep = OpaqueFn('dep', None, handler=lambda ip, args: ip.bi.getitem(ip, Dep, args[0]))

    def new(idx=7, rows=rows):
        return ip.call(get(MOD + 'LabelledSentence'), [idx, rows], {})

    def content():
        s = new()
        return tuple(ip.getattr(s, x) for x in ('tokens', 'tags', 'deps')) + (spec('seen_tree', ip.getattr(s, 'tree')),)

    p.goal('content', lambda: p.equivalent('content', ip, content, lambda: spec('labelled', rows, tag, dep)))

    # A sentence with any content and any tree, by the contract of Tree (C06)
    empty = ip.new_list(())
    tokens = th.mk(TList(TStr), 'tokens')
    deps = th.mk(TList(TEnum(Dep)), 'deps')
    i, j = th.mk(TInt, 'i'), th.mk(TInt, 'j')
    root = th.mk(TInt, 'root')
    up = TOpt(TTuple(TEnum(Dep), TInt))

    def parent(ip, obj, args, kw):
        return th.mk(up, 'parent', [zint(ip.bi.zint_of(ip, ip.force(args[0])))])

    def children(ip, obj, args, kw):
        return th.mk(TList(TTuple(TEnum(Dep), TInt)), 'children', [zint(ip.bi.zint_of(ip, ip.force(args[0])))])

    sch = Schema('Tree', {'root': TInt}, None, {'parent': parent, 'children': children})
    tree = Sym(TRef(sch), z3.Const('tree', RefSort))

    def any_sentence():
        s = new(7, empty)
        for k, v in (('tokens', tokens), ('deps', deps), ('tree', tree)):
            ip.setattr(s, k, v)
        return s

    st = ip.st.fork()
    st.pc.append(_len(tokens.seq[0].t) == _len(deps.seq[0].t))
    idx = st.fork()
    idx.pc += [i.t >= 0, i.t < _len(tokens.seq[0].t)]
    for name, pre in (('length', st), ('token', idx), ('text', st), ('iteration', st)):
        p.goal(name, lambda: p.equivalent(
            name, ip, lambda: spec('read_' + name, any_sentence(), i), lambda: spec('read_' + name, tokens, i)
            if name != 'text' else spec('text_of', tokens), st=pre))
    p.goal('tokens in the tree', lambda: p.equivalent(
        'tokens in the tree', ip, lambda: ip.getattr(any_sentence(), 'valid_idxs'), lambda: spec('in_tree', deps), st=st))
    p.goal('leaf', lambda: p.equivalent(
        'leaf', ip, lambda: ip.call(ip.getattr(any_sentence(), 'is_leaf'), [i], {}),
        lambda: Sym(TBool, _len(children(ip, None, [i], {}).seq[0].t) == 0), st=st))
    parent_of = OpaqueFn('parent_of', None, handler=lambda ip, args: ip.call(get('specs.parsing.second'), [
        parent(ip, None, args, {})], {}))
    children_of = OpaqueFn('children_of', None, handler=lambda ip, args: ip.call(get('specs.parsing.seconds'), [
        children(ip, None, args, {})], {}))
    inner = st.fork()
    rt = ip.force(ip.getattr(tree, 'root')).t
    none = lambda k: th.uf('parent_isnone', [k.t], z3.BoolSort())
    inner.pc += [z3.Or(k.t == rt, z3.Not(none(k))) for k in (i, j)]
    p.goal('crossing arcs', lambda: p.equivalent(
        'crossing arcs', ip, lambda: ip.call(ip.getattr(any_sentence(), 'have_crossing_arcs'), [i, j], {}),
        lambda: spec('crossing_arcs', ip.getattr(tree, 'root'), parent_of, i, j), st=inner))
    p.goal('transitions', lambda: p.equivalent(
        'transitions', ip, lambda: ip.getattr(any_sentence(), 'transitions'),
        lambda: spec('oracle', deps, parent_of, children_of), st=st))
    p.absorb(ip)
    p.goal('replaying the transitions of a projective tree (bounded)', lambda: replay(p))
    for what in ('ptags', 'pdeps', 'trans'):
        p.goal('training data: ' + what, lambda: training(p, what))


def training(p, what):
    ip = p.interp()
    th = ip.th
    mod = 'scrappybara.syntax.'
    tag, dep, tr = (ip.loader.get(mod + x) for x in ('tags.Tag', 'dependencies.Dep', 'transitions.Trans'))
    row = TTuple(TStr, TStr, TStr, TInt)
    fields = {'tokens': TList(TStr), 'tags': TList(TEnum(tag)), 'deps': TList(TEnum(dep)),
              'transitions': TList(TTuple(TInt, TInt, TEnum(tr)))}
    sent = Schema('LabelledSentence', {})

    def content(ip, obj, name):
        if name not in fields:
            raise Unsupported('attribute %s of a labelled sentence' % name)
        return th.mk(fields[name], 'sent_' + name, [obj.t])

    sent.get = content

    def labelled(ip, args, kw):
        return th.mk(TRef(sent), 'labelled', ip.flat_terms(ip.freeze(ip.force(args[1]))))

    ip.contracts[MOD + 'LabelledSentence'] = labelled
    array = TRef(Schema('Array', {}))
    sizes = {'PTagsSample': 3, 'PDepsSample': 4, 'TransSample': 7}
    sets = Schema('Table', {})
    cs, ws = (Sym(TRef(sets), z3.Const(x, RefSort)) for x in ('charset', 'wordset'))

    def sample(name):
        sch = Schema(name, {})
        sch.get = lambda ip, obj, a: tuple(th.mk(array, '%s_%d' % (name, k), [obj.t]) for k in range(sizes[name])) \
            if a == 'training_mats' else unknown(a)

        def new(ip, args, kw):
            if kw:
                raise Unsupported('arguments by name')
            return th.mk(TRef(sch), 'new_' + name, [t for a in args for t in ip.flat_terms(ip.freeze(ip.force(a)))])

        ip.contracts[SYN + 'training_samples.' + name] = new
        return OpaqueFn(name, None, handler=lambda ip, args: new(ip, list(args) + [cs, ws], {}))

    def unknown(a):
        raise Unsupported('attribute %s of a sample' % a)

    samples = {n: sample(n) for n in sizes}
    for m in (SYN + 'labelled_data', 'specs.parsing'):
        ip.loader.load(m)
    get = ip.loader.get
    lists = th.mk(TList(TList(row)), 'token_tuple_lists')
    cls, make = {'ptags': ('PTagsSample', 'tag_samples'), 'pdeps': ('PDepsSample', 'dep_samples'),
                 'trans': ('TransSample', 'trans_samples')}[what]
    shuffle = OpaqueFn('shuffle', None, handler=lambda ip, args: ip.ext['random.shuffle'](ip, args, {}))

    def spec():
        sents = ip.new_list(th.map_seq(lists.seq, lambda r: (Unit(labelled(ip, [0, r], {})),)))
        s = ip.call(get('specs.parsing.' + make), [sents, samples[cls]], {})
        return ip.call(get('specs.parsing.columns'), [s, shuffle, sizes[cls]], {})

    p.equivalent('training data: ' + what, ip,
                 lambda: ip.call(get(MOD + 'extract_%s_training_data' % what), [lists, cs, ws], {}), spec)
    p.absorb(ip)


def projective_heads(lo, hi, up):
    """Every projective tree over lo..hi-1 whose root hangs from up: lists of (node, parent)"""
    for head in range(lo, hi):
        for left in forests(lo, head, head):
            for right in forests(head + 1, hi, head):
                yield [(head, up)] + left + right


def forests(lo, hi, up):
    if lo == hi:
        yield []
        return
    for cut in range(lo + 1, hi + 1):
        for first in projective_heads(lo, cut, up):
            for rest in forests(cut, hi, up):
                yield first + rest


def replay(p):
    """The contract of the oracle, replayed by the contract of the parser, for every projective tree of a bounded size"""
    from specs import parsing
    top = 9 if p.tier == 'thorough' else 8
    bad, count = None, 0
    for n in range(1, top + 1):
        for pairs in projective_heads(0, n, None):
            heads = dict(pairs)
            deps = [parsing.ROOT if heads[k] is None else 3 for k in range(n)]
            kids = {k: [c for c in range(n) if heads[c] == k] for k in range(n)}
            stack, buffer = parsing.initial(deps)
            built = []
            for s, b, t in parsing.oracle(deps, heads.get, kids.get):
                if not buffer or stack[-1] != s or buffer[0] != b:
                    bad = heads
                    break
                new, stack, buffer = parsing.step(deps, stack, buffer, t)
                built += new
            if buffer or sorted((u, c) for _, u, c in built) != sorted((u, c) for c, u in pairs if u is not None):
                bad = heads
            count += 1
    p.bounded.append('replaying the transitions rebuilds the tree: every projective tree of at most %d tokens (%d trees)' % (top, count))
    p.record('replaying the transitions of a projective tree (bounded: %d tokens)' % top, bad is None, bad, 'enumeration')
