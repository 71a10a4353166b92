"""Runs the real code of /repo in a scratch environment: a copy of the package made for this process (so that its data
folder is ours), and a stand-in for tensorflow whose models give arbitrary but reproducible predictions.
"""
import atexit
import hashlib
import importlib
import os
import pickle
import shutil
import sys
import tempfile
import types

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# TENSORFLOW STAND-IN
# ----------------------------------------------------------------------------

class _Anything:
    """Accepts every call, attribute and operation"""

    def __call__(self, *args, **kwargs):
        return _Anything()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return _Anything()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class FakeModel:
    """tf.keras.Model; predictions come from Oracle"""

    def __init__(self, inputs=None, outputs=None, **_):
        self.inputs = list(inputs) if isinstance(inputs, (list, tuple)) else [inputs]
        self.input = self.inputs[0]
        self.outputs = [outputs]
        self.output = outputs

    def compile(self, *args, **kwargs):
        pass

    def load_weights(self, path, *args, **kwargs):
        pass

    def save_weights(self, path, *args, **kwargs):
        pass

    def predict(self, inputs, *args, **kwargs):
        inputs = [np.asarray(x) for x in inputs]
        size = len(inputs[0])
        assert all(len(x) == size for x in inputs), 'inputs of different lengths'
        ORACLE.calls.append((len(inputs), size))
        rows = [[x[i] for x in inputs] for i in range(size)]
        if len(inputs) == 2:
            return np.array([one_hot(ORACLE.tags(r[0], r[1]), 17) for r in rows])
        if len(inputs) == 3:
            return np.array([one_hot(ORACLE.deps(r[0], r[1], r[2]), 25) for r in rows])
        if len(inputs) == 6:
            return np.array([one_hot([ORACLE.trans(*r)], 4)[0] for r in rows])
        raise AssertionError('unexpected number of inputs: %d' % len(inputs))


def one_hot(codes, size):
    out = np.full((len(codes), size), 0.01, dtype=np.float32)
    for i, c in enumerate(codes):
        out[i, c] = 0.7
    return out


def digest(seed, *arrays):
    h = hashlib.blake2b(digest_size=16)
    h.update(str(seed).encode())
    for a in arrays:
        h.update(np.ascontiguousarray(np.asarray(a, dtype=np.float64)).tobytes())
        h.update(b'|')
    return h.digest()


class HashOracle:
    """Predictions are a pseudo-random function of the whole input row"""

    def __init__(self, seed=0, dep_pool=None, trans_pool=(0, 1, 2, 3), tag_pool=None):
        self.seed = seed
        self.dep_pool = dep_pool or list(range(25))
        self.tag_pool = tag_pool or list(range(17))
        self.trans_pool = list(trans_pool)
        self.calls = []

    def _codes(self, d, n, pool):
        r = np.random.RandomState(int.from_bytes(d[:4], 'little'))
        return [pool[k] for k in r.randint(0, len(pool), size=n)]

    def tags(self, chars, words):
        return self._codes(digest((self.seed, 't'), chars, words), 52, self.tag_pool)

    def deps(self, tags, chars, words):
        return self._codes(digest((self.seed, 'd'), tags, chars, words), 52, self.dep_pool)

    def trans(self, tags, deps, chars, words, m1, m2):
        return self._codes(digest((self.seed, 'x'), tags, deps, chars, words, m1, m2), 1, self.trans_pool)[0]


class LexOracle(HashOracle):
    """Predictions depend on the word ids held by the first cell of the word vectors: lexicon[id] = (tag, dep)"""

    def __init__(self, seed, lexicon):
        super().__init__(seed)
        self.lexicon = lexicon

    def _ids(self, words):
        return [int(round(float(w[0]))) for w in words]

    def tags(self, chars, words):
        return [self.lexicon.get(i, (8, 1))[0] for i in self._ids(words)]

    def deps(self, tags, chars, words):
        return [self.lexicon.get(i, (8, 1))[1] for i in self._ids(words)]

    def trans(self, tags, deps, chars, words, m1, m2):
        i = list(np.asarray(m1)).index(True)
        j = list(np.asarray(m2)).index(True)
        di, dj = int(deps[i]), int(deps[j])
        k = digest((self.seed, i, j), words)[0]
        if k < 40:
            return k % 4
        if di != 2 and dj == 2:
            return 0
        if di == 2 and dj != 2:
            return 1
        return (0, 1, 1, 2, 3)[k % 5]


ORACLE = HashOracle()


def set_oracle(oracle):
    global ORACLE
    ORACLE = oracle


def _tensorflow():
    tf = types.ModuleType('tensorflow')
    tf.keras = types.SimpleNamespace(layers=_Anything(), Model=FakeModel, callbacks=_Anything(), Input=_Anything())
    tf.device = lambda *a, **k: _Anything()
    tf.boolean_mask = _Anything()
    tf.int32, tf.float32, tf.bool = 'int32', 'float32', 'bool'
    tf.__getattr__ = lambda name: _Anything()
    sys.modules['tensorflow'] = tf
    sys.modules['tensorflow.keras'] = tf.keras


# PACKAGE
# ----------------------------------------------------------------------------

SCRATCH = None


def setup():
    """Copies the package of the working tree to a scratch folder and makes it importable"""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='sbverif_')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True))
    shutil.copytree(os.path.join(REPO, 'scrappybara'), os.path.join(SCRATCH, 'scrappybara'),
                    ignore=shutil.ignore_patterns('data', '__pycache__'))
    for sub in ('english', 'langmodel', 'models'):
        os.makedirs(os.path.join(SCRATCH, 'scrappybara', 'data', sub))
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.abspath(REPO)]
    sys.path.insert(0, SCRATCH)
    sys.path.insert(1, VERIF)
    _tensorflow()
    import warnings
    warnings.filterwarnings('ignore')
    return SCRATCH


def data(*parts):
    return os.path.join(SCRATCH, 'scrappybara', 'data', *parts)


def write_text(content, *parts):
    with open(data(*parts), 'w', encoding='utf-8') as f:
        f.write(content)


def write_pickle(obj, *parts):
    with open(data(*parts), 'wb') as f:
        pickle.dump(obj, f)


def write_langmodel(ngrams):
    """ngrams: {order: [(text, count, proba)]}"""
    for name in os.listdir(data('langmodel')):
        os.remove(data('langmodel', name))
    for order in ngrams:
        write_text(''.join('%s\t%d\t%s\n' % (t, c, p) for t, c, p in ngrams[order]), 'langmodel', '%d_grams.txt' % order)


DEFAULT_TABLES = {
    'irregular_preterits': {'went': 'go', 'sang': 'sing', 'ran': 'run'},
    'irregular_past_participles': {'gone': 'go', 'sung': 'sing', 'broken': 'break'},
    'irregular_plurals': {'mice': 'mouse', 'children': 'child'},
    'irregular_comparatives': {'worse': 'bad'},
    'irregular_superlatives': {'worst': 'bad'},
}


def write_english(tables=None, nouns=('mouse', 'child', 'red'), adjs=('big', 'clever', 'red')):
    tables = tables or DEFAULT_TABLES
    for name in DEFAULT_TABLES:
        write_text(''.join('%s\t%s\n' % kv for kv in tables.get(name, {}).items()), 'english', name + '.txt')
    write_text(''.join(w + '\n' for w in nouns), 'english', 'nouns.txt')
    write_text(''.join(w + '\n' for w in adjs), 'english', 'adjectives.txt')


def write_models(chars, vectors):
    write_pickle(chars, 'models', 'char_codes.pkl')
    write_pickle(vectors, 'models', 'word_vectors.pkl')


def sb(module):
    return importlib.import_module('scrappybara.' + module)
