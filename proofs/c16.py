"""C16: semantic tuples."""
import z3

from pyvc.core import *
from pyvc.values import *
from pyvc.common import node_schema

NOTE = '''Proved for all inputs: the tuples extracted from any list of nodes with any registered arguments are exactly, and
in the same order, those of the contract (words, codes, polarity); the past participle is any function of the lemma (its value
is the subject of C13). For any tuple of arguments: code, length, iteration, indexing, textual form, search by code; for any
argument: tag, textual form, rejection of unknown codes.'''


def prove(p):
    ip = p.interp('scrappybara.semantics.semantic_tuple_extractor', 'specs.semantics')
    get = ip.loader.get
    sch = node_schema(ip)
    nodes = ip.th.mk(TList(TRef(sch)), 'nodes')
    pp = OpaqueFn('past_participle', TStr)
    ip.contracts['scrappybara.normalization.inflector.Inflector.past_participle'] = \
        lambda ip, args, kw: ip.call(pp, [args[1]], {})

    def extract():
        ex = ip.call(get('scrappybara.semantics.semantic_tuple_extractor.SemanticTupleExtractor'), [None, None], {})
        return ip.call(get('specs.semantics.as_triples'), [ip.call(ex, [nodes], {})], {})

    p.goal('SemanticTupleExtractor', lambda: p.equivalent(
        'SemanticTupleExtractor', ip, extract,
        lambda: ip.call(get('specs.semantics.extract'), [nodes, pp], {})))
    p.absorb(ip)
    p.goal('representation', lambda: representation(p))


def representation(p):
    ip = p.interp('scrappybara.semantics.semantic_tuple', 'scrappybara.semantics.argument', 'specs.semantics')
    get = ip.loader.get
    cls = get('scrappybara.semantics.argument.Argument')
    sch = Schema('Argument', {'word': TStr, 'code': TStr, 'is_affirmative': TBool}, cls)
    args = ip.th.mk(TList(TRef(sch)), 'args')
    word, code, aff = ip.th.mk(TStr, 'word'), ip.th.mk(TStr, 'code'), ip.th.mk(TBool, 'aff')
    i = ip.th.mk(TInt, 'i')

    def spec(name, *a):
        return ip.call(get('specs.semantics.' + name), list(a), {})

    def stuple():
        return ip.call(get('specs.semantics.call_with'), [get('scrappybara.semantics.semantic_tuple.SemanticTuple'), args], {})

    for f in ('code', 'flat', 'flat_plain', 'length', 'content'):
        p.equivalent('SemanticTuple: ' + f, ip, lambda: spec('seen_' + f, stuple()),
                     lambda: spec('true_' + f, spec('triples', args)))
    p.equivalent('SemanticTuple: argument by position', ip, lambda: ip.call(ip.getattr(stuple(), 'arg'), [i], {}),
                 lambda: spec('item', args, i))
    p.equivalent('SemanticTuple: search by code', ip,
                 lambda: ip.call(ip.getattr(stuple(), 'has_any_arg_with_code'), [code], {}),
                 lambda: spec('has_code', args, code))

    def argument():
        a = ip.call(cls, [word, code, aff], {})
        return spec('seen_argument', a)

    p.equivalent('Argument', ip, argument, lambda: spec('true_argument', word, code, aff))
    p.equivalent('Argument: affirmative by default', ip, lambda: ip.getattr(ip.call(cls, [word, 'N'], {}), 'is_affirmative'),
                 lambda: True)
    p.absorb(ip)
