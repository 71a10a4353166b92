"""C14: nodes."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.values import *
from pyvc.common import node_schema, tree_schema

NOTE = '''Proved for every list of nodes, every tree, every set of adjectives and nouns and every lemmatizer: the tag fixed, the
canonical form, suffix and active verb, and the noun chunks are those of the contract, and no other field of any node changes
(the recursive search of compound nouns by induction). Not proved, bounded search only: the grouping of tokens into nodes
(Nodifier). Assumed: the queries of the tree answer as the contracts of C06 say.'''


def prove(p):
    ip = p.interp('scrappybara.syntax.fixer', 'scrappybara.normalization.canonicalizer', 'scrappybara.syntax.chunker', 'specs.nodes')
    get = ip.loader.get
    sch = node_schema(ip)
    ref = TRef(sch)
    nodes = ip.th.mk(TList(ref), 'nodes')
    node = ip.th.mk(ref, 'node')
    dep = get('scrappybara.syntax.dependencies.Dep')
    suffix = get('scrappybara.normalization.suffixes.Suffix')
    tsch = tree_schema(ip, ref, TEnum(dep))
    tree = ip.th.mk(TRef(tsch), 'tree')
    adjs, nouns = ip.th.mk(TSet(TStr), 'adjs'), ip.th.mk(TSet(TStr), 'nouns')
    every = [(sch, f) for f in sch.fields]
    lemmatize = OpaqueFn('lemmatize', TTuple(TStr, TOpt(TEnum(suffix))))

    p.goal('Fixer', lambda: p.equivalent(
        'Fixer', ip,
        lambda: ip.call(ip.call(get('scrappybara.syntax.fixer.Fixer'), [adjs, nouns], {}), [node, tree], {}),
        lambda: ip.call(get('specs.nodes.fix'), [node, tree, adjs, nouns], {}), fields=every))
    p.goal('Canonicalizer', lambda: p.equivalent(
        'Canonicalizer', ip,
        lambda: ip.call(ip.call(get('scrappybara.normalization.canonicalizer.Canonicalizer'), [lemmatize], {}), [node], {}),
        lambda: ip.call(get('specs.nodes.canonicalize'), [node, lemmatize], {}), fields=every))
    p.goal('Chunker', lambda: chunker(p, ip, sch, nodes, tree, every))
    p.absorb(ip)


def chunker(p, ip, sch, nodes, tree, every):
    """The recursive search of the compound nouns is proved by induction on the position of the noun (a modifier precedes
    the noun it modifies): inside the body, the recursive call on m adds the list `below` of m
    """
    get = ip.loader.get
    ref = TRef(sch)
    pc0 = list(ip.st.pc)
    done = {}

    def below(m):
        return ip.th.mk(TList(ref), 'below', ip.flat_terms(ip.force(m)))

    def captured(fn):
        """The list of the enclosing call that the nested function fills"""
        names = [k for k, v in ip.rec(fn.scope).vars.items()
                 if isinstance(v, Addr) and isinstance(ip.st.heap.get(v), ListObj)]
        if len(names) != 1:
            raise Unsupported('recursive function without a single list to fill')
        return ip.rec(fn.scope).vars[names[0]]

    def code_step(ip, fn, args, kw):
        if fn.qualname not in done:
            done[fn.qualname] = True
            # Induction step, for any noun
            saved, trace, pos, alts, nf = ip.st, ip.trace, ip.pos, ip.alts, ip.nofork
            x = ip.th.mk(ref, 'anynoun')
            base = saved.fork()
            base.pc = list(pc0)

            def step():
                lst = captured(fn)
                ip.put(lst, ListObj((), 'list'))
                ip.call_stack.append(('call', None))
                stack, ip.call_stack = ip.call_stack, []
                try:
                    ip.call(fn, [x], {})
                finally:
                    ip.call_stack = stack[:-1]
                return SeqVal(ip.freeze_seq(ip.rec(lst).seq))

            p.equivalent('Chunker, induction step', ip, step,
                         lambda: ip.call(get('specs.nodes.below'), [nodes, tree, x], {}), st=base)
            ip.st, ip.trace, ip.pos, ip.alts, ip.nofork = saved, trace, pos, alts, nf
        lst = captured(fn)
        ip.put(lst, ListObj(ip.rec(lst).seq + below(args[0]).seq, 'list'))
        return None

    ip.recursive.append(('scrappybara.syntax.chunker.', code_step))
    ip.recursive.append(('specs.nodes.below', lambda ip, fn, args, kw: below(args[2])))
    p.equivalent('Chunker', ip,
                 lambda: ip.call(ip.call(get('scrappybara.syntax.chunker.Chunker'), [], {}), [nodes, tree], {}),
                 lambda: ip.call(get('specs.nodes.chunk'), [nodes, tree], {}), fields=every)
    p.record('Chunker: recursion by induction', bool(done), 'no recursive call was met')
