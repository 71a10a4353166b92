"""Contract of the lemmatizer (property C12): ordered rules."""
from scrappybara.normalization.suffixes import Suffix
from scrappybara.syntax.tags import Tag

CONSONANTS = tuple('qwrtpsdfghjklzxcvbnm')
VOWELS = tuple('eyuioa')
NOUNS = (Tag.NOUN, Tag.PROPN, Tag.PRON, Tag.SYM, Tag.NUM)
PREFIXES = ('re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand')
VERB_CONTEXTS = ('i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should')

FIXED_VERBS = {"'m": ('be', None), 'am': ('be', None), "'re": ('be', None), 'are': ('be', None),
               "'s": ('be', Suffix.THIRD_PERSON), 'is': ('be', Suffix.THIRD_PERSON),
               'being': ('be', Suffix.PROGRESSIVE), 'has': ('have', Suffix.THIRD_PERSON),
               'doing': ('do', Suffix.PROGRESSIVE), 'need': ('need', None)}
FIXED_ADJS = {'better': ('good', Suffix.COMPARATIVE), 'best': ('good', Suffix.SUPERLATIVE)}
FIXED_ADVS = {'better': ('well', Suffix.COMPARATIVE), 'best': ('well', Suffix.SUPERLATIVE), "'": ("'s", None)}
FIXED_NOUNS = {"'s": ('we', None), 'acumen': ('acumen', None)}

# Ordered rules: (ending, shortest stem, kind, candidate endings, suffix)
# kinds: 'double'     the stem ends with vowel + twice the same consonant: candidates with one or two of it
#        'consonant'  the stem ends with a consonant: candidates are stem + endings
#        'any'        candidates are stem + endings
#        'last'       candidates keep the last letter of the stem (same as 'any')
ADJ_RULES = (
    ('est', 4, 'double', (), Suffix.SUPERLATIVE),
    ('er', 4, 'double', (), Suffix.COMPARATIVE),
    ('iest', 2, 'consonant', ('y',), Suffix.SUPERLATIVE),
    ('est', 3, 'last', ('', 'e'), Suffix.SUPERLATIVE),
    ('ier', 2, 'consonant', ('y',), Suffix.COMPARATIVE),
    ('er', 3, 'unlisted', ('', 'e'), Suffix.COMPARATIVE),
)
VERB_RULES = (
    ('icking', 2, 'consonant', ('ic',), Suffix.PROGRESSIVE),
    ('icked', 2, 'consonant', ('ic',), Suffix.PAST),
    ('ing', 4, 'double', (), Suffix.PROGRESSIVE),
    ('ing', 3, 'last', ('', 'e'), Suffix.PROGRESSIVE),
    ('icks', 2, 'consonant', ('ic',), Suffix.THIRD_PERSON),
    ('ed', 4, 'double', (), Suffix.PAST),
    ('ied', 2, 'consonant', ('y',), Suffix.PAST),
    ('ies', 1, 'consonant', ('y', 'ie'), Suffix.THIRD_PERSON),
    ('ed', 2, 'last', ('', 'e'), Suffix.PAST),
    ('es', 2, 'last', ('', 'e'), Suffix.THIRD_PERSON),
    ('s', 2, 'last', ('',), Suffix.THIRD_PERSON),
)
NOUN_RULES = (
    ('a', 5, 'any', ('on',), Suffix.PLURAL),
    ('ieves', 1, 'consonant', ('ief',), Suffix.PLURAL),
    ('i', 4, 'any', ('us',), Suffix.PLURAL),
    ('ies', 2, 'consonant', ('y', 'ie'), Suffix.PLURAL),
    ('ves', 2, 'any', ('f', 'fe', 've'), Suffix.PLURAL),
    ('men', 2, 'any', ('man',), Suffix.PLURAL),
    ('es', 2, 'last', ('', 'e', 'is'), Suffix.PLURAL),
    ('s', 2, 'singular', ('',), Suffix.PLURAL),
)


def split_prefix(word):
    """Prefix and base: around a single hyphen, or a known prefix"""
    parts = word.split('-')
    if len(parts) == 2:
        return parts[0] + '-', parts[1]
    for p in PREFIXES:
        if word.startswith(p):
            return p, word[len(p):]
    return None


def irregular(word, tag, tables):
    """tables: plurals, past participles, preterits, comparatives, superlatives (inflected form => lemma)"""
    plurals, pps, preterits, comparatives, superlatives = tables
    if tag == Tag.NOUN and word in plurals:
        return plurals[word], Suffix.PLURAL
    if tag == Tag.VERB and word in pps:
        return pps[word], Suffix.PAST
    if tag == Tag.VERB and word in preterits:
        return preterits[word], Suffix.PAST
    if tag == Tag.ADJ and word in comparatives:
        return comparatives[word], Suffix.COMPARATIVE
    if tag == Tag.ADJ and word in superlatives:
        return superlatives[word], Suffix.SUPERLATIVE
    return None


def arbitrate(stem, endings, tag, lm):
    """The candidate lemma preferred by the language model, None when it knows none"""
    cands = [stem + e for e in endings]
    if len(cands) == 1:
        if lm.has_ngram(cands[0]):
            return cands[0]
        return None
    contexts = VERB_CONTEXTS if tag == Tag.VERB else cands
    best = lm.best_ngram(*[t + ' ' + c for c in cands for t in contexts])
    if best is not None:
        return best.split()[-1]
    return lm.best_ngram(*cands)


def choose(word, stem, endings, suffix, tag, lm):
    best = arbitrate(stem, endings, tag, lm)
    if best is not None:
        return best, suffix
    pb = split_prefix(stem)
    if pb is not None:
        best = arbitrate(pb[1], endings, tag, lm)
        if best is not None:
            return pb[0] + best, suffix
    return word, None


def rule_result(word, rule, tag, lm, adjs):
    """Outcome of one ending rule; None when it does not apply"""
    ending, shortest, kind, endings, suffix = rule
    if not word.endswith(ending) or len(word) < len(ending) + shortest:
        return None
    start = word[:-len(ending)]
    if kind == 'double':
        if start[-3] in VOWELS and start[-2] in CONSONANTS and start[-1] == start[-2]:
            return choose(word, start[:-2], [start[-1], start[-1] + start[-1]], suffix, tag, lm)
        return None
    if kind == 'consonant' and start[-1] not in CONSONANTS:
        return None
    if kind == 'unlisted' and word in adjs:
        return None
    if kind == 'singular' and (word.endswith('ss') or lm.has_ngram(word + 'es')):
        return None
    if kind in ('consonant', 'any'):
        return choose(word, start, endings, suffix, tag, lm)
    return choose(word, start[:-1], [start[-1] + e for e in endings], suffix, tag, lm)


def fixed_form(word, tag):
    if tag == Tag.VERB and word in FIXED_VERBS:
        return FIXED_VERBS[word]
    if tag == Tag.ADJ and word in FIXED_ADJS:
        return FIXED_ADJS[word]
    if tag == Tag.ADV and word in FIXED_ADVS:
        return FIXED_ADVS[word]
    if tag in NOUNS and word in FIXED_NOUNS:
        return FIXED_NOUNS[word]
    return None


def lemmatize(word, tag, lm, adjs, tables):
    """(lemma, suffix) of a word"""
    word = word.lower()
    r = fixed_form(word, tag)
    if r is not None:
        return r
    r = irregular(word, tag, tables)
    if r is not None:
        return r
    pb = split_prefix(word)
    if pb is not None:
        r = irregular(pb[1], tag, tables)
        if r is not None:
            return pb[0] + r[0], r[1]
    if tag == Tag.ADJ:
        rules = ADJ_RULES
    elif tag == Tag.VERB:
        rules = VERB_RULES
    elif tag == Tag.NOUN:
        rules = NOUN_RULES
    else:
        rules = ()
    for rule in rules:
        r = rule_result(word, rule, tag, lm, adjs)
        if r is not None:
            return r
    return word, None
