"""C11: sentencization"""
from concrete.env import sb
from specs import preprocess as spec

SENT = sb('preprocessing.sentencizer')
TOK = sb('preprocessing.tokenizer')
REAL = TOK.Tokenizer()
PIECES = ['He', 'said', ' ', ' ', ' ', '"', '"', '(', ')', '. ', '.', '! ', '? ', '... ', '; ', ': ', ', ', '\n', '\r\n', ' \t ', '."', '."', '?"', '".',
          'Mr. ', 'A', 'end', '("', '")', '""', '()', '( )', '" "', '1', '22', "'s", '…', '!?', ':)', "it's", 'e.g. ', '\n\n', '“', '”', 'x', '\u00a0', '\x0b']
TOKENIZERS = {'real': REAL, 'split': str.split, 'spaced': lambda s: ''.join(' %s ' % c if c in '.?!:¶,' else c for c in s).split()}


def gen(rng):
    if rng.random() < .2:
        # Many passages
        n = rng.randint(2, 25)
        text = ''
        for i in range(n):
            w = rng.choice(['q%d', 'He%d. ', 'x y%d', 'e%d!']) % i
            text += rng.choice(['"%s" ', '(%s) ', '("%s") ', '"(%s)" ', 'w%s ', '"%s." ']) % w
        return dict(kind='many', text=text, tok=rng.choice(['real', 'spaced', 'split']))
    pool = PIECES if rng.random() < .5 else rng.sample(PIECES, 9) + [' ', 'a']
    return dict(kind='text', text=''.join(rng.choice(pool) for _ in range(rng.randint(0, 16))),
                tok=rng.choice(['real', 'real', 'spaced', 'split']))


def CORNERS():
    texts = ['', 'A. B', 'He said "go." Then (he left. Now) ran.', '"a" "b" (c "d. e" f) g. h', 'a\nb. c\n\nd', 'a (b (c) d) e.',
             '"unclosed. He', '(unclosed. He', 'x "a" (b) "c" (d) "e". "f"', ' '.join('"q%d. x" (b%d! "n%d")' % (i, i, i) for i in range(12)),
             '"a.""b."', '(.)', '"."', '. . .', '¿Qué? Sí!']
    return [dict(kind='text', text=t, tok=k) for t in texts for k in TOKENIZERS]


def valid(case):
    return spec.in_domain(case['text']) and not any(m in case['text'] for m in spec.BLOCK_MARKS)


def run(case):
    tok = TOKENIZERS[case['tok']]
    got = [list(s) for s in SENT.Sentencizer(tok)(case['text'])]
    exp = spec.sentences(case['text'], lambda s: list(tok(s)))
    if got != exp:
        return 'sentences of %r: expected %r, got %r' % (case['text'], exp, got)
    if any(m in t for s in got for t in s for m in spec.BLOCK_MARKS[:4]):
        return 'sentences of %r expose a placeholder: %r' % (case['text'], got)
    if case['tok'] == 'real' and [list(s) for s in SENT.Sentencizer()(case['text'])] != got:
        return 'default tokenizer'
    return None
