"""C12: lemmatization."""
import z3

from pyvc.core import *
from pyvc.values import *
from pyvc.common import language_model

NOTE = '''Proved for every non-empty word, each of the tags, any tables of irregular forms, any set of adjectives and any
language model: the lemma and the suffix are those of the ordered rules of the contract, and no exception is raised.'''


def prove(p):
    ip = p.interp('scrappybara.normalization.lemmatizer', 'specs.lemma')
    get = ip.loader.get
    lm = language_model(ip)
    word = ip.th.mk(TStr, 'word')
    tables = [ip.th.mk(TMap(TStr, TStr), n) for n in ('plurals', 'pps', 'preterits', 'comparatives', 'superlatives', 'forms')]
    plurals, pps, preterits, comparatives, superlatives, forms = tables
    adjs = ip.th.mk(TSet(TStr), 'adjs')
    st = ip.st.fork()
    st.pc.append(z3.Length(word.t) > 0)
    lower = ip.bi.str_fn(ip, 'lower', word)
    st.pc.append(z3.Length(lower.t) > 0)
    tag_cls = get('scrappybara.syntax.tags.Tag')

    # token_prefix: proved below, then used as a function of the token
    split = OpaqueFn('split_prefix', TOpt(TTuple(TStr, TStr)))
    prefixes = get('specs.lemma.PREFIXES')

    def token_prefix(ip, args, kw):
        given = ip.th.units(ip.seq_of(args[1], ordered=False))
        if given is None or set(map(str, given)) != set(prefixes) or len(args) != 2 or kw:
            raise Unsupported('prefixes')
        return ip.call(split, [args[0]], {})

    def lemma_prefix():
        ip2 = p.interp('scrappybara.utils.text', 'specs.lemma')
        w = ip2.th.mk(TStr, 'w')
        given = ip2.new_set(tuple(Unit(x) for x in prefixes))
        p.equivalent('token_prefix', ip2,
                     lambda: ip2.call(ip2.loader.get('scrappybara.utils.text.token_prefix'), [w, given], {}),
                     lambda: ip2.call(ip2.loader.get('specs.lemma.split_prefix'), [w], {}))
        p.absorb(ip2)

    p.goal('token_prefix', lemma_prefix)
    ip.contracts['scrappybara.utils.text.token_prefix'] = token_prefix
    ip.contracts['specs.lemma.split_prefix'] = lambda ip, args, kw: ip.call(split, [args[0]], {})

    def code(tag):
        lem = ip.call(get('scrappybara.normalization.lemmatizer.Lemmatizer'),
                      [lm, adjs, preterits, pps, plurals, comparatives, superlatives, forms], {})
        return ip.call(lem, [word, tag], {})

    def spec(tag):
        return ip.call(get('specs.lemma.lemmatize'),
                       [word, tag, lm, adjs, (plurals, pps, preterits, comparatives, superlatives)], {})

    for tag in sorted(tag_cls, key=lambda t: t.value):
        name = 'Lemmatizer, tag %s' % tag.name
        p.goal(name, lambda tag=tag, name=name: p.equivalent(name, ip, lambda: code(tag), lambda: spec(tag), st=st))
    p.absorb(ip)
