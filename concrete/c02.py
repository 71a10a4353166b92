"""C02: documents of the pipeline"""
import itertools

import numpy as np

from concrete import env
from concrete.env import sb
from specs import library
from specs import pipeline as spec

PIPE = sb('pipeline.pipeline')
LOGIC = sb('pipeline.logic_pipeline')
PARSER = sb('syntax.parser')
LM = sb('langmodel.language_model')
NODI, FIX, CHUNK, ARGF = sb('syntax.nodifier'), sb('syntax.fixer'), sb('syntax.chunker'), sb('syntax.arg_finder')
STD, LEM, CAN = sb('normalization.standardizer'), sb('normalization.lemmatizer'), sb('normalization.canonicalizer')
EXT = sb('semantics.semantic_tuple_extractor')
# word: (tag, label)
LEX = {'cats': (8, 24), 'dog': (8, 18), 'eats': (14, 2), 'wanted': (14, 2), 'i': (11, 24), 'me': (11, 18), 'red': (1, 8), 'big': (1, 22),
       'is': (14, 2), 'not': (3, 17), 'sing': (14, 18), 'hot': (8, 8), 'London': (12, 18), 'and': (5, 3), 'to': (10, 21), 'up': (10, 21),
       'broken': (1, 22), 'by': (2, 15), 'the': (6, 4), 'mice': (8, 13), 'colour': (8, 18), '.': (13, 1), ',': (13, 1), 'mr': (12, 10)}
WORDS = list(LEX)
_ENV = {}


def setup():
    if _ENV:
        return _ENV
    env.write_english()
    env.write_langmodel({1: [('cat', 5, '0.1'), ('want', 3, '0.2'), ('eat', 9, '0.2'), ('color', 2, '0.1'), ('sing', 7, '0.1')],
                         2: [('i want', 2, '0.3'), ('i eat', 2, '0.4')]})
    vecs = {}
    for k, w in enumerate(WORDS):
        v = np.zeros(100, dtype=np.float32)
        v[0] = k + 1
        vecs[w.lower()] = v
    env.write_models({c: i + 1 for i, c in enumerate('abcdefghijklmnopqrstuvwxyz†‡ʃʄ')}, vecs)
    lm = LM.LanguageModel(1, 1)
    t = env.DEFAULT_TABLES
    pps = t['irregular_past_participles']
    rev = {v: k for k, v in pps.items()}
    adjs, nouns = {'big', 'clever', 'red'}, {'mouse', 'child', 'red'}
    lem = LEM.Lemmatizer(lm, adjs, t['irregular_preterits'], pps, t['irregular_plurals'], t['irregular_comparatives'],
                         t['irregular_superlatives'], rev)
    _ENV.update(lexicon={k + 1: LEX[w] for k, w in enumerate(WORDS)}, nodify=NODI.Nodifier(), std=STD.Standardizer(lm), lem=lem,
                fix=FIX.Fixer(adjs, nouns), chunk=CHUNK.Chunker(), canon=CAN.Canonicalizer(lem), args=ARGF.ArgFinder(),
                ext=EXT.SemanticTupleExtractor(lm, rev), cache={})
    return _ENV


def stuples_of(e, seed, tokens, chunk):
    """The steps in their documented order, on a single sentence"""
    key = (seed, tuple(tokens), chunk)
    if key not in e['cache']:
        if len(e['cache']) > 5000:
            e['cache'].clear()
        tags, trees = e['parser']([list(tokens)])
        nodes, tree = e['nodify'](list(tokens), tags[0], trees[0])
        for n in nodes.values():
            n.standard = e['std'](n.standard)
            n.lemma, n.suffix = e['lem'](n.standard, n.tag)
        for n in nodes.values():
            e['fix'](n, tree)
        if chunk:
            e['chunk'](nodes.values(), tree)
        for n in nodes.values():
            e['canon'](n)
        e['args'](nodes.values(), tree)
        e['cache'][key] = [str(t) for t in e['ext'](nodes.values())]
    return e['cache'][key]


def sentence(rng, n):
    return [rng.choice(WORDS) for _ in range(n)]


def gen(rng):
    if rng.random() < .05:
        return dict(kind='groupby', items=[rng.randrange(4) for _ in range(rng.randrange(9))], mod=rng.choice([2, 3]))
    if rng.random() < .1:
        return dict(kind='doc', sents=[['t%d' % rng.randrange(9) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 4))])
    texts = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        sents = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            if rng.random() < .3:
                k = rng.choice([48, 49, 50, 51, 52, 60, 101, 105])
                s = sentence(rng, k)
                for _ in range(rng.choice([0, 1, 1, 2, 5])):
                    s[rng.randrange(k)] = rng.choice(spec.SPLITTERS)
                if rng.random() < .2:
                    s[0] = s[-1] = '-'
            else:
                s = sentence(rng, rng.choice([0, 1, 2, 3, 5, 8]))
                if rng.random() < .3 and s:
                    s[rng.randrange(len(s))] = rng.choice(spec.SPLITTERS)
            sents.append(s)
        texts.append(sents)
    return dict(kind='pipe', texts=texts, seed=rng.randrange(1000), cores=rng.choice([1, 2, 3, 5, 8]),
                batch=rng.choice([1, 2, 3, 128]), gpu=rng.random() < .5, chunk=rng.random() < .7)


def CORNERS():
    sep = [['cats', 'eats', 'dog'] * 16 + ['.', '.'], ['cats', 'eats', 'dog'] * 17, (['cats', 'eats', 'dog'] * 10 + [':']) * 2,
           ['cats', 'eats', 'dog'] * 20 + [';'] + ['i', 'sing']]
    return [dict(kind='pipe', texts=[[s], [['i', 'eats', 'mice']], []], seed=k, cores=c, batch=b, gpu=g, chunk=True)
            for k, s in enumerate(sep) for c, b, g in ((1, 128, True), (2, 1, False), (9, 2, True))] + \
           [dict(kind='pipe', texts=[], seed=0, cores=2, batch=2, gpu=True, chunk=True),
            dict(kind='pipe', texts=[[], []], seed=0, cores=2, batch=2, gpu=True, chunk=True)] + \
           [dict(kind='pipe', texts=[[['cats', 'eats', 'dog', s, 'i']] for s in spec.SPLITTERS] +
                 [[['cats', 'eats', 'dog'] * 12 + [s] + ['i', 'sing'] * 10] for s in spec.SPLITTERS], seed=3, cores=3, batch=7, gpu=True, chunk=False),
            dict(kind='doc', sents=[[], ['a'], ['b', 'c']])]


def run(case):
    if case['kind'] == 'groupby':  # The contract assumed of the library
        key = lambda x: x % case['mod']
        exp = [(k, list(g)) for k, g in itertools.groupby(case['items'], key)]
        if library.groupby(case['items'], key) != exp:
            raise AssertionError('contract of itertools.groupby on %r' % (case,))
        return None
    if case['kind'] == 'doc':
        doc = sb('pipeline.document').Document()
        for s in case['sents']:
            x = sb('pipeline.sentence').Sentence()
            x.stuples = list(s)
            doc.sentences.append(x)
        exp = [t for s in case['sents'] for t in s]
        if list(doc.stuples) != exp or [list(x) for x in doc] != case['sents']:
            return 'document of %r: %r' % (case['sents'], doc.stuples)
        return None
    e = setup()
    env.set_oracle(env.LexOracle(case['seed'], e['lexicon']))
    if e.get('seed') != case['seed']:
        e['parser'] = PARSER.Parser(1, 1)
        e['seed'] = case['seed']
    texts = ['text %d' % i for i in range(len(case['texts']))]
    table = {t: [list(s) for s in sents] for t, sents in zip(texts, case['texts'])}
    pipe = PIPE.Pipeline(sentencizer=lambda t: [list(s) for s in table[t]], nb_cores=case['cores'], batch_size=case['batch'],
                         use_gpu=case['gpu'])
    docs = pipe(texts, chunk_common_nouns=case['chunk'])
    got = [[[str(t) for t in s.stuples] for s in d.sentences] for d in docs]
    exp = spec.documents(texts, lambda t: table[t], lambda s: stuples_of(e, case['seed'], s, case['chunk']))
    if got != exp:
        sizes = lambda x: [[len(s) for s in d] for d in x]
        return 'documents: expected %r, got %r (tuples per sentence %r, %r)' % (exp, got, sizes(exp), sizes(got))
    for d in docs:
        if [str(t) for t in d.stuples] != [str(t) for s in d for t in s]:
            return 'tuples of a document'
    return None
