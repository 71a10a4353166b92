"""C13: spelling standardization and past participles."""
import z3

from pyvc.core import *
from pyvc.values import *
from pyvc.common import language_model
from pyvc import ext

NOTE = '''Proved for every token or lemma, any table of irregular forms and any language model: the standardized spelling and the
past participle are those of the contract and no exception is raised. Assumed: the regular expressions of the form
([a-z]+)(a|b|...)(c|d|...), ignoring case, match as the contract specs.spelling.longest says (longest start); the concrete
part of the check compares the two on the real engine.'''


def prove(p):
    ip = p.interp('scrappybara.normalization.standardizer', 'scrappybara.normalization.inflector', 'specs.spelling')
    get = ip.loader.get
    lm = language_model(ip)
    token = ip.th.mk(TStr, 'token')

    def longest(mids, ends, tok):
        mids, ends = ext.unambiguous(mids, ends)
        name = 'longest:%s:%s' % ('|'.join(mids), '|'.join(ends))
        t = ip.flat_terms(tok)
        r = ip.th.mk(TOpt(TTuple(TStr, TStr, TStr)), name, t)
        if name not in ip.sv.axioms:
            def sizes(app):
                none = ip.th.uf(name + '_isnone', app.children(), z3.BoolSort())
                start, mid, end = (ip.th.uf('%s_%d' % (name, k), app.children(), z3.StringSort()) for k in range(3))
                lens = lambda x, alts: z_or(*[z3.Length(x) == n for n in sorted({len(a) for a in alts})])
                return [z3.Or(none, z3.And(z3.Length(start) >= 1, lens(mid, mids), lens(end, ends),
                                           z3.Length(start) + z3.Length(mid) + z3.Length(end) == z3.Length(app.arg(0))))]

            for k in range(3):
                ip.sv.axioms['%s_%d' % (name, k)] = sizes
            ip.sv.axioms[name] = sizes
        return r

    def fullmatch(ip, rx, s):
        alts = ext.alternatives(rx)
        if alts is None:
            raise Unsupported('fullmatch of %s' % rx.pattern)
        ip.assumptions.add('re.fullmatch of ([a-z]+)(a|b|...)(c|d|...), ignoring case, gives the split of specs.spelling.longest')
        r = ip.force(longest(alts[0], alts[1], s))
        if r is None:
            return None
        return MatchVal([s] + list(r))

    def as_texts(v):
        return tuple(str(u) for u in ip.th.units(ip.seq_of(v)))

    ip.ext['@fullmatch'] = fullmatch
    ip.contracts['specs.spelling.longest'] = lambda ip, args, kw: longest(as_texts(args[1]), as_texts(args[2]), args[0])

    p.goal('Standardizer', lambda: p.equivalent(
        'Standardizer', ip,
        lambda: ip.call(ip.call(get('scrappybara.normalization.standardizer.Standardizer'), [lm], {}), [token], {}),
        lambda: ip.call(get('specs.spelling.standardize'), [token, lm, get('specs.spelling.alternation')], {})))
    forms = ip.th.mk(TMap(TStr, TStr), 'forms')

    def participle():
        inf = ip.call(get('scrappybara.normalization.inflector.Inflector'), [lm, forms], {})
        return ip.call(ip.getattr(inf, 'past_participle'), [token], {})

    p.goal('Inflector.past_participle', lambda: p.equivalent(
        'Inflector.past_participle', ip, participle,
        lambda: ip.call(get('specs.spelling.past_participle'), [token, lm, forms], {})))
    p.absorb(ip)
