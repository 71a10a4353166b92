"""Set-up shared by the proofs."""
import z3

from .core import *
from .core import _len
from .values import *


def map_axioms(ip, m):
    """Keys of a symbolic dictionary: a sequence without repetition, presence is membership. Returns the sequence."""
    kty = m.kty
    keys = Var(ip.th.uf('mapkeys<%s>' % kty.key, [m.t], SeqX), kty)

    def has(app):
        if not app.arg(0).eq(m.t):
            return []
        key = app.children()[1:]
        ex = ip.th.exists((keys,), lambda v: z_and(*[x == y for x, y in zip(ip.flat_terms(v), key)]))
        return [app == ex]

    ip.sv.axioms['has<%s>' % kty.key] = has
    prev = ip.sv.axioms.get('at<%s>' % kty.key)

    def at(app):
        out = list(prev(app)) if prev is not None else []
        if app.arg(0).eq(keys.t):
            # No repetition: the position of a key is a function of the key
            pos = z3.Function('keypos<%s>' % kty.key, app.sort(), z3.IntSort())
            i = app.arg(1)
            inside = z3.And(i >= 0, i < _len(keys.t))
            h = ip.th.uf('has<%s>' % kty.key, [m.t, app], z3.BoolSort())
            out.append(z3.Implies(inside, z3.And(pos(app) == i, h)))
        return out

    ip.sv.axioms['at<%s>' % kty.key] = at
    return (keys,)


def seed_dict(ip, obj, base):
    """Replaces the (only, empty) dictionary of a new object by a symbolic one"""
    r = ip.rec(obj)
    found = [v for v in r.fields.values() if isinstance(v, Addr) and isinstance(ip.st.heap.get(v), DictObj)]
    if len(found) != 1 or ip.rec(found[0]).seq:
        raise Unsupported('one empty dictionary was expected in the new object')
    ip.put(found[0], DictObj((Unit(('base', base, None)),), ip.rec(found[0]).kind))
    return found[0]


def node_schema(ip):
    """Symbolic nodes of a sentence: any values in the fields that Node.__init__ creates"""
    from .values import Schema
    cls = ip.loader.get('scrappybara.syntax.node.Node')
    tag = ip.loader.get('scrappybara.syntax.tags.Tag')
    sch = Schema('Node', {}, cls)
    ref = TRef(sch)
    sch.fields.update({
        'idx': TInt, 'original': TStr, 'tag': TEnum(tag), 'particles': TList(TStr), 'is_inf_to': TBool, 'standard': TStr,
        'lemma': TStr, 'chunk': TOpt(TStr), 'canon': TStr, 'active_verb': TOpt(TStr),
        'and_cconjs': TList(ref), 'or_cconjs': TList(ref), 'is_aff': TBool, 'subjs': TList(ref), 'objs': TList(ref),
        'exists': TList(ref), 'props': TList(ref), 'iprops': TList(ref), 'iobjs': TList(ref), 'adjs': TList(ref),
        'subjs_verbs_iprops': TList(TTuple(TOpt(ref), ref, ref)), 'copulas_props': TList(TTuple(ref, ref)),
        'pps_props': TList(TTuple(ref, ref)), 'agents': TList(ref)})
    try:
        sch.fields['suffix'] = TOpt(TEnum(ip.loader.get('scrappybara.normalization.suffixes.Suffix')))
    except Unsupported:
        pass
    return sch


def tree_schema(ip, node_ty, label_ty):
    """A tree of nodes, by the contract of utils.tree.Tree (proved in C06): children by label in order of registration,
    parent, and the derived queries
    """
    from .values import Schema
    th = ip.th
    sch = Schema('Tree', {}, None)
    elem = TTuple(label_ty, node_ty)

    def terms(ip, obj, args):
        return [obj.t] + [t for a in args for t in ip.flat_terms(ip.force(a))]

    def via(ip, obj, args):
        return th.mk(TList(node_ty), 'tree_children_via', terms(ip, obj, args))

    def children_via(ip, obj, args, kw):
        return via(ip, obj, args)

    def has_via(ip, obj, args):
        return _len(via(ip, obj, args).seq[0].t) > 0

    def child_via(ip, obj, args, kw):
        v = via(ip, obj, args)
        c = has_via(ip, obj, args)
        return Choice([(c, th.at(v.seq[0].t, node_ty, z3.IntVal(0))), (z_not(c), None)])

    def has_child_via(ip, obj, args, kw):
        return Sym(TBool, has_via(ip, obj, args))

    def has_child_via_set(ip, obj, args, kw):
        labels = ip.th.units(ip.seq_of(args[1], ordered=False))
        return Sym(TBool, z_or(*[has_via(ip, obj, [args[0], l]) for l in labels]))

    def parent(ip, obj, args, kw):
        return th.mk(TOpt(TTuple(label_ty, node_ty)), 'tree_parent', terms(ip, obj, args))

    def children(ip, obj, args, kw):
        return th.mk(TList(elem), 'tree_children', terms(ip, obj, args))

    # A label occurs among the children exactly when there is a child via this label
    first = 'at<%s>_0' % elem.key

    def label_at(app):
        s, i = app.children()
        if not (z3.is_app(s) and s.decl().name() == 'tree_children'):
            return []
        v = th.uf('tree_children_via', s.children() + [app], SeqX)
        return [z3.Implies(z3.And(i >= 0, i < _len(s)), _len(v) > 0)]

    def has_label(app):
        t, n, l = app.children()
        s = th.uf('tree_children', [t, n], SeqX)
        w = z3.Function('tree_label_pos', t.sort(), n.sort(), l.sort(), z3.IntSort())(t, n, l)
        return [z3.Implies(_len(app) > 0, z3.And(w >= 0, w < _len(s), th.at(s, elem, w)[0].t == l))]

    ip.sv.axioms[first] = label_at
    ip.sv.axioms['tree_children_via'] = has_label
    for f in (children_via, child_via, has_child_via, has_child_via_set, parent, children):
        sch.methods[f.__name__] = f
    ip.assumptions.add('The tree answers its queries as the contract of Tree says (C06): children by label, first child, '
                          'parent; a label occurs among the children of a node exactly when it has a child via it')
    return sch


def language_model(ip):
    """A language model, by the contract of LanguageModel (C09): presence by text and minimal count, best of several texts (one
    of them, known to the model) or nothing
    """
    from .values import Schema
    th = ip.th
    sch = Schema('LM', {}, None)
    lm = Sym(TRef(sch), z3.Const('lm', RefSort))

    def has(text, least):
        return Sym(TBool, th.uf('lm_has', [ip.flat_terms(text)[0], zint(least)], z3.BoolSort()))

    def has_ngram(ip, obj, args, kw):
        least = args[1] if len(args) > 1 else kw.get('min_count', 1)
        return has(ip.force(args[0]), ip.bi.zint_of(ip, least))

    def best(name):
        def fn(ip, obj, args, kw):
            texts = [ip.flat_terms(ip.force(a))[0] for a in args]
            fname = 'lm_%s_%d' % (name, len(texts))
            v = th.mk(TOpt(TStr), fname, texts)
            if fname not in ip.sv.axioms:
                def one_of(app):
                    none = th.uf(fname + '_isnone', app.children(), z3.BoolSort())
                    words = th.uf('str_split0', [app], SeqX)
                    return [z3.Or(none, z3.And(z3.Or(*[app == x for x in app.children()]), _len(words) > 0))]

                ip.sv.axioms[fname] = one_of
            return v

        fn.__name__ = name
        return fn

    for f in (has_ngram, best('best_ngram'), best('best_token')):
        sch.methods[f.__name__] = f
    ip.assumptions.add('The language model answers as the contract of LanguageModel says (C09): presence depends on the text and '
                       'the minimal count only; the best of several texts is one of them or nothing, and is not blank')
    return lm


def fill_by_induction(p, ip, name, prefix, below, contract, arg):
    """A nested recursive function that fills a list of the enclosing call: inside its body, the recursive call on x adds the
    list below(x); the induction step (the body on an arbitrary argument adds contract()) is one more obligation.
    Returns what holds once the recursion was met.
    """
    pc0 = list(ip.st.pc)
    done = {}

    def captured(fn):
        names = [k for k, v in ip.rec(fn.scope).vars.items()
                 if isinstance(v, Addr) and isinstance(ip.st.heap.get(v), ListObj)]
        if len(names) != 1:
            raise Unsupported('recursive function without a single list to fill')
        return ip.rec(fn.scope).vars[names[0]]

    def code_step(ip, fn, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported('recursive call with other arguments')
        if fn.qualname not in done:
            done[fn.qualname] = True
            saved, trace, pos, alts, nf = ip.st, ip.trace, ip.pos, ip.alts, ip.nofork
            base = saved.fork()
            base.pc = list(pc0)

            def step():
                lst = captured(fn)
                ip.put(lst, ListObj((), 'list'))
                stack, ip.call_stack = ip.call_stack, []
                try:
                    ip.call(fn, [arg], {})
                finally:
                    ip.call_stack = stack
                return SeqVal(ip.freeze_seq(ip.rec(lst).seq))

            p.equivalent(name + ', induction step', ip, step, contract, st=base)
            ip.st, ip.trace, ip.pos, ip.alts, ip.nofork = saved, trace, pos, alts, nf
        lst = captured(fn)
        ip.put(lst, ListObj(ip.rec(lst).seq + below(args[0]).seq, 'list'))
        return None

    ip.recursive.append((prefix, code_step))
    return done


def filter_axioms(ip, app, points=()):
    """Facts about the element at(s, k) of a filtered list s = [b for b in range(n) if c(b)]: it is one of the selected numbers,
    and such a list is increasing (stated for the given positions)
    """
    s, k = app.children()
    e = ip.sv.entries.get(s.decl().name())
    if e is None or e.op != 'SEQ':
        return []
    seq = e.inst(s.children()).seq
    if not (len(seq) == 1 and isinstance(seq[0], Comp) and len(seq[0].body) == 1 and isinstance(seq[0].body[0], Guard)):
        return []
    b, n, body = open_comp(seq[0])
    g = body[0]
    if not (len(g.body) == 1 and isinstance(g.body[0], Unit) and isinstance(g.body[0].v, Sym) and g.body[0].v.t.eq(b)):
        return []
    size = ip.th.seq_len(seq)
    ok = lambda i: z3.And(i >= 0, i < size)
    out = [z3.Implies(ok(k), z3.And(app >= 0, app < zint(n), z3.substitute(zb(g.c), (b, app))))]
    at = app.decl()
    for m in points:
        out.append(z3.Implies(z3.And(ok(k), ok(m), k < m), app < at(s, m)))
        out.append(z3.Implies(z3.And(ok(k), ok(m), m < k), at(s, m) < app))
    return out
