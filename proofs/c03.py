"""C03: vectors fed to the models."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.values import *
from pyvc.common import map_axioms

NOTE = '''Proved for every list of tokens, any table of character codes and any table of word vectors of size 100: vectorize_sentence
gives the length and the two matrices of the contract, or the dedicated error above 50 tokens; the code of a character and the
vector of a word are those of the tables, one code above all others and zeros when unknown; masks; the matrices of the three
kinds of training samples, for sentences of 1 to 50 tokens with as many tags and labels. Machine integers and floating-point
numbers of the arrays are taken as mathematical ones.'''


def prove(p):
    ip = p.interp('scrappybara.syntax.training_samples', 'scrappybara.syntax.charset', 'scrappybara.syntax.wordset',
                  'scrappybara.syntax.transitions', 'specs.vectors')
    get = ip.loader.get
    th = ip.th
    mod = 'scrappybara.syntax.'
    tokens = th.mk(TList(TStr), 'tokens')
    tags = th.mk(TList(TEnum(get(mod + 'tags.Tag'))), 'tags')
    deps = th.mk(TList(TEnum(get(mod + 'dependencies.Dep'))), 'deps')
    trans = th.mk(TEnum(get(mod + 'transitions.Trans')), 'trans')
    i, j = th.mk(TInt, 'i'), th.mk(TInt, 'j')
    codes = OpaqueFn('char_code', TInt)
    vectors = OpaqueFn('word_vector', TList(TReal))
    ip.sv.axioms['fn_word_vector'] = lambda app: [_len(app) == 100]
    ip.contracts[mod + 'charset.Charset.__getitem__'] = lambda ip, args, kw: ip.call(codes, [args[1]], {})
    ip.contracts[mod + 'wordset.Wordset.__getitem__'] = lambda ip, args, kw: ip.call(vectors, [args[1]], {})

    def sets():
        return [ip.call(get(mod + 'charset.Charset'), [], {}), ip.call(get(mod + 'wordset.Wordset'), [], {})]

    def lst(v):
        return ip.new_list(v.seq)

    def spec(name, *args):
        return ip.call(get('specs.vectors.' + name), list(args), {})

    p.goal('vectorize_sentence', lambda: p.equivalent(
        'vectorize_sentence', ip,
        lambda: ip.call(get(mod + 'training_samples.vectorize_sentence'), [lst(tokens)] + sets(), {}),
        lambda: spec('vectorize', lst(tokens), codes, vectors, get(mod + 'training_samples.SentenceTooLongError'))))
    st = ip.st.fork()
    st.pc += [i.t >= 0, i.t < 52, j.t >= 0, j.t < 52]
    p.goal('make_masks', lambda: p.equivalent(
        'make_masks', ip, lambda: ip.call(get(mod + 'training_samples.make_masks'), [i, j], {}),
        lambda: (spec('mask', i), spec('mask', j)), st=st))
    n = _len(tokens.seq[0].t)
    st2 = ip.st.fork()
    st2.pc += [n >= 1, n <= 50, _len(tags.seq[0].t) == n, _len(deps.seq[0].t) == n, i.t >= 0, i.t < n, j.t >= 0, j.t < n]

    def sample(cls, *args):
        s = ip.call(get(mod + 'training_samples.' + cls), list(args) + sets(), {})
        return ip.getattr(s, 'training_mats')

    p.goal('PTagsSample', lambda: p.equivalent(
        'PTagsSample', ip, lambda: sample('PTagsSample', lst(tokens), lst(tags)),
        lambda: spec('tag_sample', lst(tokens), lst(tags), codes, vectors), st=st2))
    p.goal('PDepsSample', lambda: p.equivalent(
        'PDepsSample', ip, lambda: sample('PDepsSample', lst(tokens), lst(tags), lst(deps)),
        lambda: spec('dep_sample', lst(tokens), lst(tags), lst(deps), codes, vectors), st=st2))
    p.goal('TransSample', lambda: p.equivalent(
        'TransSample', ip, lambda: sample('TransSample', lst(tokens), lst(tags), lst(deps), i, j, trans),
        lambda: spec('trans_sample', lst(tokens), lst(tags), lst(deps), i, j, trans, codes, vectors), st=st2))
    p.absorb(ip)
    p.goal('tables', lambda: tables(p))


def tables(p):
    ip = p.interp('scrappybara.syntax.charset', 'scrappybara.syntax.wordset', 'specs.vectors')
    get = ip.loader.get
    th = ip.th
    char, other, word = th.mk(TStr, 'char'), th.mk(TStr, 'other'), th.mk(TStr, 'word')
    files = {'char_codes.pkl': th.mk(TMap(TStr, TInt), 'codes'), 'word_vectors.pkl': th.mk(TMap(TStr, TList(TReal)), 'vectors')}
    keys = map_axioms(ip, files['char_codes.pkl'])

    def load(ip, args, kw):
        name = ip.force(args[-1])
        if [ip.force(a) for a in args[:-1]] != ['models'] or name not in files or kw:
            raise Unsupported('another file is loaded')
        return files[name]

    ip.contracts['scrappybara.utils.files.load_pkl_file'] = load
    ip.assumptions.add('load_pkl_file gives back the table saved in the file (pickle)')

    def loaded(cls):
        return ip.call(ip.getattr(ip.call(get(cls), [], {}), 'load'), [], {})

    st = ip.st.fork()
    st.pc.append(_len(keys[0].t) > 0)
    cs, ws = 'scrappybara.syntax.charset.Charset', 'scrappybara.syntax.wordset.Wordset'
    p.equivalent('Charset: code of a character', ip, lambda: ip.bi.getitem(ip, loaded(cs), char),
                 lambda: ip.call(get('specs.vectors.char_code'), [files['char_codes.pkl'], char], {}), st=st)
    k = z3.Int('k')
    ip.best_points = [k]
    known = th.at(keys[0].t, TStr, k)
    st2 = st.fork()
    st2.pc += [k >= 0, k < _len(keys[0].t), z_not(ip.bi.map_has(ip, files['char_codes.pkl'], other))]

    def same_code():
        x, y = (ip.bi.getitem(ip, loaded(cs), c) for c in (known, other))
        return Sym(TBool, zb(ip.equals(x, y)))

    p.equivalent('Charset: the code of unknown characters is not the code of a character', ip, same_code, lambda: False, st=st2)
    p.equivalent('Wordset: vector of a word', ip, lambda: ip.bi.getitem(ip, loaded(ws), word),
                 lambda: ip.call(get('specs.vectors.word_vector'), [files['word_vectors.pkl'], word], {}), st=st)
    p.absorb(ip)
