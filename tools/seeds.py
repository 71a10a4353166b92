"""Planted bugs: written from the text of the properties and the code"""
TF = '''import types


class _Any:
    def __call__(self, *a, **k):
        return _Any()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return _Any()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return _Any()


for _n in ('tensorflow', 'tensorflow.keras', 'tensorflow.keras.layers', 'tensorflow.keras.models', 'tensorflow.keras.callbacks',
           'tensorflow.keras.optimizers', 'tensorflow.keras.utils'):
    sys.modules[_n] = _Mod(_n)
'''
FAKE_LM = '''class FakeLM:
    """probability table"""

    def __init__(self, **t):
        self.t = {k.replace('_', ' '): v for k, v in t.items()}

    def has_ngram(self, ngram, min_count=1):
        return self.t.get(ngram, (0, 0))[0] >= min_count

    def best_ngram(self, *ngrams):
        known = [n for n in ngrams if n in self.t]
        return max(known, key=lambda n: self.t[n][1]) if known else None


'''
P = 'scrappybara/'
SEEDS = [
    dict(id='B01', property='C01', needs='an item whose processing takes longer than one second',
         breaks='the results of a slow worker are missing from the output: fewer outputs than items',
         edits=[(P + 'utils/multithreading.py', 'nb_threads[idx].join()', 'nb_threads[idx].join(1)')],
         demo='''import time
from scrappybara.utils.multithreading import run_multithreads


def slow(x):
    if x == 3:
        time.sleep(2.5)
    return x * 10


assert run_multithreads(list(range(6)), slow, 3) == [0, 10, 20, 30, 40, 50]
'''),
    dict(id='B02', property='C02', needs='a text all of whose sentences are too long to be kept, among other texts',
         breaks='the text gets no document, so documents are no longer aligned with the texts',
         edits=[(P + 'pipeline/pipeline.py', '            sent_ranges.append((total_sents, new_total))\n',
                 '            if new_total > total_sents:\n                sent_ranges.append((total_sents, new_total))\n')],
         demo=TF + '''
from scrappybara.pipeline.pipeline import Pipeline
import threading
p = Pipeline.__new__(Pipeline)
for name, value in (('nb_processes', 2), ('use_gpu', True), ('sentencize', lambda t: [t.split()])):
    setattr(p, '_Pipeline__' + name, value)
setattr(p, '_Pipeline__parse', lambda lists: ([[] for _ in lists], [None for _ in lists]))
p._logic_process = lambda token_lists, tags, trees, chunk, nb: ([{} for _ in token_lists], [[' '.join(t)] for t in token_lists])
docs = p(['a b', 'x ' * 60, 'c d'])
assert [[s.stuples for s in d.sentences] for d in docs] == [[['a b']], [], [['c d']]], [[s.stuples for s in d.sentences] for d in docs]
'''),
    dict(id='B03', property='C03', needs='a token of more than 20 characters',
         breaks='the row of a long token holds its first characters instead of its last ones',
         edits=[(P + 'syntax/training_samples.py', 'token = token[len(token) - cfg.MAX_WORD_LENGTH:]',
                 'token = token[:cfg.MAX_WORD_LENGTH]')],
         demo=TF + '''
import numpy as np
from scrappybara.syntax.training_samples import vectorize_sentence


class Chars(dict):
    def __missing__(self, k):
        return 99


class Words:
    def __getitem__(self, k):
        return np.zeros(4, dtype=np.float32)


cs = Chars({c: i + 1 for i, c in enumerate('abcdefghijklmnopqrstuvwxyz')})
_, codes, _ = vectorize_sentence(['abcdefghijklmnopqrstuvwxyz'], cs, Words())
assert list(codes[1][1:4]) == [7, 8, 9], codes[1]
'''),
    dict(id='B04', property='C04', needs='predictions that leave two unattached subtrees',
         breaks='the tree is rooted at the last unattached token instead of the first one',
         edits=[(P + 'syntax/parser.py', '            return sorted(cands - cannot_be_root)[0]',
                 '            return sorted(cands - cannot_be_root)[-1]')],
         demo=TF + '''
from scrappybara.syntax import parser as m
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.transitions import Trans
d = [Dep.PAD.value, Dep.SUBJ.value, Dep.ROOT.value, Dep.SUBJ.value, Dep.ROOT.value, Dep.PAD.value]
p = m._Parse(6, [0] * 6, d, None, None)
for t in (Trans.LEFT, Trans.SHIFT, Trans.LEFT, Trans.SHIFT):
    if not p.complete:
        p.register_transition(t)
assert len(p.arcs) == 2, p.arcs
tree = m._build_tree(p)
assert tree.root == 1, (tree.root, p.arcs)
'''),
    dict(id='B05', property='C05', needs='a labelled sentence with two root tokens',
         breaks='the tree is rooted at the last root token',
         edits=[(P + 'syntax/labelled_data.py', '''                root_idx = child_idx
                break
''', '''                root_idx = child_idx
''')],
         demo=TF + '''
from scrappybara.syntax.labelled_data import LabelledSentence
s = LabelledSentence(0, [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), (';', 'PUNCT', 'NODEP', -1),
                         ('you', 'PRON', 'SUBJ', 4), ('drink', 'VERB', 'ROOT', -1)])
assert s.tree.root == 1, s.tree.root
'''),
    dict(id='B06', property='C06', needs='two siblings attached by different labels, the second label being queried',
         breaks='presence of a child by a set of labels only looks at the first label registered for the node',
         edits=[(P + 'utils/tree.py', "            return any([key in labels for key in self.__children[node]])",
                 "            return next(iter(self.__children[node])) in labels")],
         demo='''from scrappybara.utils.tree import Tree
t = Tree('r')
t.register_child('a', 'r', 'x')
t.register_child('b', 'r', 'y')
assert t.has_child_via_set('r', {'b'})
assert t.has_child_via_set('r', {'a'})
assert not t.has_child_via_set('r', {'c'})
'''),
    dict(id='B07', property='C07', needs='a window of at least two tokens whose second token is "I" or has an uppercase start',
         breaks='n-grams are kept although a token other than the first starts with an uppercase letter',
         edits=[(P + 'langmodel/ngrams_extraction.py', "    return all([_valid_ngram_token(token) for token in tokens])",
                 "    return _valid_ngram_token(tokens[0]) and all([has_only_letters(token) for token in tokens])")],
         demo='''from scrappybara.langmodel.ngrams_extraction import extract_ngrams
assert extract_ngrams([['in', 'London', 'today']], 2) == []
assert extract_ngrams([['in', 'town', 'today']], 2) == ['in town', 'town today']
'''),
    dict(id='B08', property='C08', needs='more than one process and a number of n-grams that is not a multiple of it',
         breaks='the last n-grams of an order get no probability',
         edits=[(P + 'langmodel/smoother.py', '''        marks = np.linspace(0, nb_samples, self._nb_processes + 1, dtype=int)
        return [range(marks[i], marks[i + 1]) for i in range(self._nb_processes)]
''', '''        size = max(1, round(nb_samples / self._nb_processes))
        marks = [min(i * size, nb_samples) for i in range(self._nb_processes + 1)]
        return [range(marks[i], marks[i + 1]) for i in range(self._nb_processes)]
''')],
         demo='''from scrappybara.langmodel.ngram import Ngram
from scrappybara.langmodel.mle_smoother import MLESmoother


def probas(n):
    grams = []
    for i in range(7):
        g = Ngram('w' + 'abcdefg'[i])
        g.count = i + 1
        grams.append(g)
    MLESmoother(grams, 1, n)()
    return [g.proba for g in grams]


assert all(abs(a - b) < 1e-12 for a, b in zip(probas(1), probas(3))) and abs(sum(probas(5)) - 1) < 1e-9
'''),
    dict(id='B09', property='C09', needs='a context longer than the highest known one whose shorter suffix is known, with a limit',
         breaks='next words come from a shorter context although a longer one is known',
         edits=[(P + 'langmodel/language_model.py', 'for i in range(self.__max_order - 1, 0, -1):', 'for i in range(1, self.__max_order):')],
         demo='''import tempfile
import scrappybara.utils.files as files
import scrappybara.langmodel.language_model as m
d = tempfile.mkdtemp()
data = {1: 'a\\t9\\t0.3\\nb\\t9\\t0.3\\nc\\t9\\t0.2\\nd\\t9\\t0.2\\n', 2: 'a b\\t5\\t0.5\\nb c\\t5\\t0.5\\n', 3: 'a b d\\t4\\t0.4\\n'}
try:
    for n, text in data.items():
        with open('%s/%d_grams.txt' % (d, n), 'w') as f:
            f.write(text)
    m.txt_file_reader = lambda folder, name: open(d + '/' + name)
    lm = m.LanguageModel(1, 1, 1)
    assert lm.next_word('a b') == [('d', 0.4)], lm.next_word('a b')
    assert lm.next_word('b') == [('c', 0.5)]
finally:
    import shutil
    shutil.rmtree(d)
'''),
    dict(id='B10', property='C10', needs='two single quotes in a row before a blank',
         breaks='a visible character is lost by tokenization',
         edits=[(P + 'preprocessing/tokenizer.py', r"""(re.compile(r"'(\s|$)"), " ' "),""", r"""(re.compile(r"'+(\s|$)"), " ' "),""")],
         demo='''from scrappybara.preprocessing.tokenizer import Tokenizer
t = Tokenizer()
for text in ("the dogs'' tails", "the dogs' tails", "it is ''quoted'' here"):
    assert ''.join(t(text)) == ''.join(text.split()), (text, t(text))
'''),
    dict(id='B11', property='C11', needs='at least eleven quoted passages in one text, two of which are on the same line',
         breaks='the positions computed after a passage with a two-digit number are off, so that text is lost or repeated',
         edits=[(P + 'preprocessing/sentencizer.py', 'shift += len(quote) - 4 - len(number)', 'shift += len(quote) - 5')],
         demo='''from scrappybara.preprocessing.sentencizer import Sentencizer
s = Sentencizer()
text = '\\n'.join('"q%s" done' % c for c in 'abcdefghij') + '\\nhe said "one" then "two" and "three" again'
tokens = [t for sent in s(text) for t in sent]
want = []
for c in 'abcdefghij':
    want += ['"', 'q' + c, '"', 'done']
want += ['he', 'said', '"', 'one', '"', 'then', '"', 'two', '"', 'and', '"', 'three', '"', 'again']
assert tokens == want, tokens
'''),
    dict(id='B12', property='C12', needs='a verb in -ies with a stem of one letter, known to the language model',
         breaks='the rule of -ies verbs is not applied to short words, a later rule gives another lemma',
         edits=[(P + 'normalization/lemmatizer.py', """            start = token_start(word, 'ies', 1)""", """            start = token_start(word, 'ies', 2)""")],
         demo=FAKE_LM + '''from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.syntax.tags import Tag
lem = Lemmatizer(FakeLM(fly=(5, .5), flie=(1, .1), fry=(3, .3), lie=(9, .5), ly=(1, .1)), set(), {}, {}, {}, {}, {}, {})
assert lem('flies', Tag.VERB)[0] == 'fly'
lem = Lemmatizer(FakeLM(vy=(9, .5), vi=(9, .6), vie=(1, .1)), set(), {}, {}, {}, {}, {}, {})
assert lem('vies', Tag.VERB)[0] == 'vy', lem('vies', Tag.VERB)
'''),
    dict(id='B13', property='C13', needs='a token that the language model has seen exactly five times, with a more probable variant',
         breaks='a token seen at least five times is rewritten',
         edits=[(P + 'normalization/standardizer.py', 'self.__lm.has_ngram(token, 5)', 'self.__lm.has_ngram(token, 6)')],
         demo=FAKE_LM + '''from scrappybara.normalization.standardizer import Standardizer
assert Standardizer(FakeLM(colour=(5, .1), color=(9, .5)))('colour') == 'colour'
assert Standardizer(FakeLM(colour=(4, .1), color=(9, .5)))('colour') == 'color'
'''),
    dict(id='B14', property='C14', needs='a word whose particles are attached in an order that is not the order of the sentence',
         breaks='particles are joined in order of attachment, not in the order of the tokens',
         edits=[(P + 'syntax/nodifier.py', 'for i in sorted(particle_idxs):', 'for i in particle_idxs:')],
         demo='''from scrappybara.syntax.nodifier import Nodifier
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
t = Tree(0)
t.register_child(Dep.PART, 0, 2)
t.register_child(Dep.PART, 0, 1)
nodes, _ = Nodifier()(['put', 'up', 'with'], [Tag.VERB, Tag.ADV, Tag.ADV], t)
assert nodes[0].particles == ['up', 'with'], nodes[0].particles
'''),
    dict(id='B15', property='C15', needs='a coordinated verb that has an object of its own but no subject',
         breaks='the subject is not distributed over coordinated verbs that have another dependent',
         edits=[(P + 'syntax/arg_finder.py', "if not tree.has_child_via(v, Dep.SUBJ):", "if not tree.children(v):")],
         demo='''from scrappybara.syntax.arg_finder import ArgFinder
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.node import Node
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
i, ate, drank, tea = [Node(k, w, t) for k, (w, t) in enumerate([('I', Tag.PRON), ('ate', Tag.VERB), ('drank', Tag.VERB), ('tea', Tag.NOUN)])]
for n in (i, ate, drank, tea):
    n.canon = n.standard
t = Tree(ate)
t.register_child(Dep.SUBJ, ate, i)
t.register_child(Dep.AND, ate, drank)
t.register_child(Dep.OBJ, drank, tea)
ArgFinder()([i, ate, drank, tea], t)
assert drank.subjs == [i] and ate.subjs == [i], (drank.subjs, ate.subjs)
'''),
    dict(id='B16', property='C16', needs='a passive form of a verb with several subjects of different polarity',
         breaks='the polarity of passive tuples is negative as soon as one of the subjects is negated',
         edits=[(P + 'semantics/semantic_tuple_extractor.py', 'is_aff = xnor(any([subj.is_aff for subj in verb.subjs]), verb.is_aff, obj.is_aff)',
                 'is_aff = xnor(*[subj.is_aff for subj in verb.subjs], verb.is_aff, obj.is_aff)')],
         demo=FAKE_LM + '''from scrappybara.semantics.semantic_tuple_extractor import SemanticTupleExtractor
from scrappybara.syntax.node import Node
from scrappybara.syntax.tags import Tag
v, s1, s2, o = [Node(k, w, t) for k, (w, t) in enumerate([('eat', Tag.VERB), ('cat', Tag.NOUN), ('dog', Tag.NOUN), ('hay', Tag.NOUN)])]
for n in (v, s1, s2, o):
    n.canon = n.lemma = n.standard
s1.is_aff = False
v.subjs.extend([s1, s2])
v.objs.append(o)
out = [str(t) for t in SemanticTupleExtractor(FakeLM(), {'eat': 'eaten'})([v, s1, s2, o])]
v.subjs.reverse()
s1.is_aff = True
out2 = [str(t) for t in SemanticTupleExtractor(FakeLM(), {'eat': 'eaten'})([v, s1, s2, o])]
assert out[-1] == out2[-1], (out, out2)
'''),
    dict(id='B17', property='C17', needs='a number of texts that is not a multiple of the number of processes',
         breaks='the texts of the last, incomplete batch are not counted',
         edits=[(P + 'langmodel/language_model_builder.py', '''                except StopIteration:
                    consumed = True
                    break
''', '''                except StopIteration:
                    consumed = True
                    batch = batch[:i - 1]
                    break
''')],
         demo='''import os
import shutil
import tempfile
import multiprocessing
import scrappybara.langmodel.language_model_builder as m


class Pool:
    def __init__(self, n):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, items):
        return [f(x) for x in items]


d = tempfile.mkdtemp()
try:
    m.file_path = lambda *a: d
    m.multiprocessing = type('M', (), {'Pool': Pool, 'cpu_count': staticmethod(lambda: 2)})
    b = m.LanguageModelBuilder(1, 'maximum_likelihood_estimation', 2)
    b(iter(['one', 'two', 'three']))
    words = sorted(line.split('\\t')[0] for line in open(d + '/1_grams.txt'))
    assert words == ['one', 'three', 'two'], words
finally:
    shutil.rmtree(d)
'''),
    dict(id='B18', property='C15', needs='a relative clause introduced by a comparative or infinitive marker',
         breaks='the relative pronoun of a marked clause is replaced by the noun',
         edits=[(P + 'syntax/arg_finder.py', """                    not tree.has_child_via_set(verb, MARKER_DEPS)]):
                return parent
""", """                    not tree.has_child_via(verb, Dep.MARK)]):
                return parent
""")],
         demo='''from scrappybara.syntax.arg_finder import ArgFinder
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.node import Node
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree
for dep, expected in ((Dep.IMARK, 1), (Dep.CMARK, 1), (Dep.MARK, 1), (Dep.NEG, 0)):
    man, who, ate, to = [Node(k, w, t) for k, (w, t) in enumerate([('man', Tag.NOUN), ('who', Tag.PRON), ('ate', Tag.VERB), ('to', Tag.VERB)])]
    t = Tree(man)
    t.register_child(Dep.CPL, man, ate)
    t.register_child(Dep.SUBJ, ate, who)
    t.register_child(dep, ate, to)
    ArgFinder()([man, who, ate, to], t)
    assert ate.subjs == [[man], [who]][expected], (dep, ate.subjs)
'''),
    dict(id='B19', property='C06', needs='a node with another child of its parent attached by the same label, and one by another label',
         breaks='siblings attached by the same label as the node are missing',
         edits=[(P + 'utils/tree.py', """                for child in children:
                    if child != node:
                        siblings.append((label, child))
""", """                if node not in children or len(self.__children[parent]) == 1:
                    siblings.extend((label, child) for child in children if child != node)
""")],
         demo='''from scrappybara.utils.tree import Tree
t = Tree(0)
t.register_child('a', 0, 1)
t.register_child('a', 0, 2)
t.register_child('b', 0, 3)
assert t.siblings(1) == [('a', 2), ('b', 3)], t.siblings(1)
assert t.siblings(3) == [('a', 1), ('a', 2)]
'''),
]
