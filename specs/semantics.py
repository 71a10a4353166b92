"""Contract of the semantic tuple extractor (property C16).

Every function is a total specification function over the fields of the nodes: it is interpreted symbolically by the
verifier and executed natively when a counterexample is replayed.
A tuple is specified as a list of triples (word, code, affirmative).
"""
from scrappybara.exceptions import ArgumentValueError
from scrappybara.syntax.tags import Tag

NOUNS = (Tag.NOUN, Tag.PROPN, Tag.PRON, Tag.SYM, Tag.NUM)
NEVER_INTRANSITIVE = ('have', 'get', 'be', 'do')
NEVER_PASSIVE = ('have', 'get')


def is_noun(n):
    return n.tag in NOUNS


def is_prop(n):
    return is_noun(n) or n.tag == Tag.ADJ


def even_negations(*affs):
    """True when an even number of the arguments is negative"""
    odd = False
    for a in affs:
        odd = odd != (not a)
    return not odd


def noun_code(n):
    if n.tag == Tag.PROPN:
        return 'P'
    if n.tag == Tag.PRON:
        return 'O'
    if n.tag == Tag.NUM:
        return 'U'
    if n.tag == Tag.SYM:
        return 'S'
    return 'N'


def adj_code(n):
    return 'L' if n.active_verb else 'A'


def prop_code(n):
    return adj_code(n) if n.tag == Tag.ADJ else noun_code(n)


def noun_arg(n):
    return (n.canon, noun_code(n), True)


def prop_arg(n):
    return (n.canon, prop_code(n), True)


def passive_word(verb, pp):
    if verb.particles:
        return ' '.join([pp(verb.lemma)] + verb.particles)
    return pp(verb.lemma)


def blocks_transitivity(v):
    return bool(v.props) or bool(v.iprops) or bool(v.exists)


def is_action(v):
    """Verb that can have subjects and objects in the first two rounds"""
    return v.tag == Tag.VERB and not v.is_inf_to and not blocks_transitivity(v)


def clause_tuples(v):
    """I want you to sing (a song) / to be happy"""
    out = []
    for s in v.subjs:
        if not is_noun(s):
            continue
        for c in v.objs:
            if c.tag != Tag.VERB:
                continue
            for s2 in ([x for x in c.subjs if is_noun(x)] if c.subjs else [s]):
                if not blocks_transitivity(c):
                    if not c.objs and c.canon not in NEVER_INTRANSITIVE:
                        out.append([noun_arg(s),
                                    (v.canon, 'T', even_negations(s.is_aff, v.is_aff, s2.is_aff, c.is_aff)),
                                    noun_arg(s2), (c.canon, 'I', True)])
                    for o in c.objs:
                        if is_noun(o):
                            out.append([noun_arg(s),
                                        (v.canon, 'T',
                                         even_negations(s.is_aff, v.is_aff, s2.is_aff, c.is_aff, o.is_aff)),
                                        noun_arg(s2), (c.canon, 'T', True), noun_arg(o)])
                for p in c.props:
                    out.append([noun_arg(s),
                                (v.canon, 'T', even_negations(s.is_aff, v.is_aff, s2.is_aff, c.is_aff, p.is_aff)),
                                noun_arg(s2), (c.canon, 'C', True), prop_arg(p)])
    return out


def clause_objects(v):
    return [c for s in v.subjs if is_noun(s) for c in v.objs if c.tag == Tag.VERB]


def action_tuples(v):
    """Intransitive forms, then transitive ones, then recipients"""
    out = []
    if not v.objs and v.canon not in NEVER_INTRANSITIVE:
        for s in v.subjs:
            if is_noun(s):
                out.append([noun_arg(s), (v.canon, 'I', even_negations(s.is_aff, v.is_aff))])
    for o in v.objs:
        if is_noun(o):
            for s in v.subjs:
                if is_noun(s):
                    out.append([noun_arg(s), (v.canon, 'T', even_negations(s.is_aff, v.is_aff, o.is_aff)),
                                noun_arg(o)])
    for o in v.iobjs:
        if is_noun(o):
            for s in v.subjs:
                if is_noun(s):
                    out.append([noun_arg(s), (v.canon, 'R', even_negations(s.is_aff, v.is_aff, o.is_aff)),
                                noun_arg(o)])
    return out


def active_forms(noun, adj):
    return [[noun_arg(a), (adj.active_verb, 'T', even_negations(a.is_aff, adj.is_aff, noun.is_aff)), noun_arg(noun)]
            for a in adj.agents if is_noun(a)]


def noun_tuples(noun, pp):
    """Properties of a noun: indirect ones, via copula, via past participle, then naked adjectives"""
    out = []
    for s, v, p in noun.subjs_verbs_iprops:
        if is_prop(p):
            if s is None:
                aff = even_negations(v.is_aff, noun.is_aff, p.is_aff)
            else:
                aff = even_negations(s.is_aff, v.is_aff, noun.is_aff, p.is_aff)
            out.append([noun_arg(noun), ('be ' + passive_word(v, pp), 'C', aff), prop_arg(p)])
    for c, p in noun.copulas_props:
        if is_prop(p):
            out.append([noun_arg(noun), (c.canon, 'C', even_negations(noun.is_aff, c.is_aff, p.is_aff)), prop_arg(p)])
            if p.tag == Tag.ADJ and p.active_verb:
                out.extend(active_forms(noun, p))
    for v, p in noun.pps_props:
        if is_prop(p):
            out.append([noun_arg(noun), ('be ' + v.canon, 'C', even_negations(noun.is_aff, v.is_aff, p.is_aff)),
                        prop_arg(p)])
    for a in noun.adjs:
        out.append([noun_arg(noun), ('be', 'C', even_negations(a.is_aff, noun.is_aff)), (a.canon, adj_code(a), True)])
        if a.active_verb:
            out.extend(active_forms(noun, a))
    return out


def passive_tuples(v, pp):
    """The objects of a verb undergo it"""
    out = []
    if v.canon not in NEVER_PASSIVE:
        for o in v.objs:
            if is_noun(o):
                if v.subjs:
                    aff = even_negations(any([s.is_aff for s in v.subjs]), v.is_aff, o.is_aff)
                else:
                    aff = even_negations(v.is_aff, o.is_aff)
                out.append([noun_arg(o), ('be', 'C', aff), (passive_word(v, pp), 'L', True)])
    return out


def extract(nodes, pp):
    """Every tuple of a sentence, in order; pp gives the past participle of a lemma"""
    out = []
    for n in nodes:
        if is_action(n):
            out.extend(clause_tuples(n))
    used = [c for n in nodes if is_action(n) for c in clause_objects(n)]
    for n in nodes:
        if n not in used:
            if is_action(n):
                out.extend(action_tuples(n))
            elif is_noun(n):
                out.extend(noun_tuples(n, pp))
    for n in nodes:
        if n.tag == Tag.VERB and not blocks_transitivity(n):
            out.extend(passive_tuples(n, pp))
    return out


# REPRESENTATION
# ----------------------------------------------------------------------------

CODES = ('A', 'C', 'L', 'I', 'N', 'O', 'P', 'R', 'S', 'T', 'U')


def tag_of_code(code):
    if code in ('A', 'L'):
        return 'ADJ'
    if code in ('I', 'R', 'T'):
        return 'VERB'
    return 'NOUN'


def flat_arg(word, aff, with_decorators):
    return 'NOT ' + word if with_decorators and not aff else word


def tuple_code(args):
    return ''.join([a[1] for a in args])


def flat_tuple(args, with_decorators):
    return tuple_code(args) + '(' + ', '.join([flat_arg(a[0], a[2], with_decorators) for a in args]) + ')'


def as_triples(stuples):
    """Content of the tuples of the code"""
    return [[(a.word, a.code, a.is_affirmative) for a in t] for t in stuples]


def call_with(fn, args):
    return fn(*args)


def triples(args):
    return [(a.word, a.code, a.is_affirmative) for a in args]


def seen_code(t):
    return t.code


def true_code(args):
    return tuple_code(args)


def seen_flat(t):
    return [t.flatten(), str(t), repr(t)]


def true_flat(args):
    return [flat_tuple(args, True), flat_tuple(args, True), flat_tuple(args, True)]


def seen_flat_plain(t):
    return t.flatten(with_decorators=False)


def true_flat_plain(args):
    return flat_tuple(args, False)


def seen_length(t):
    return len(t)


def true_length(args):
    return len(args)


def seen_content(t):
    return triples(t)


def true_content(args):
    return args


def item(args, i):
    return args[i]


def has_code(args, code):
    for a in args:
        if a.code == code:
            return True
    return False


def seen_argument(a):
    return [a.word, a.code, a.is_affirmative, a.tag, a.flatten(), a.flatten(False), str(a), repr(a)]


def true_argument(word, code, aff):
    if code not in CODES:
        raise ArgumentValueError('code', code, CODES)
    return [word, code, aff, tag_of_code(code), flat_arg(word, aff, True), flat_arg(word, aff, False),
            flat_arg(word, aff, True), flat_arg(word, aff, True)]
