"""C10: tokenization"""
import re

from concrete.env import sb
from specs import preprocess as spec

TOK = sb('preprocessing.tokenizer')
TOKENIZE = TOK.Tokenizer()
URLS = ['http://a.b', 'http://a.b/page', 'https://www.x.com/a?b=c&d=(e)', 'www.site.org', 'www.site.org/x', 'dom.com/abc',
        'a.b.c/d', 'HTTP://A.B/C', 'http://a.b.c', 'x.y/', 'www.a.b/c/d.e', 'www.a.bc', 'https://a.bc', 'dom.com/abc/de']
PIECES = ['Mr.', 'Dr. ', 'e.g.', 'U.S.', '...', '..', '. ', '.', ',', "'", '"', "n't", "'s", "'re ", "'n'", " 'n' ", " n' ", " 'n ",
          ':)', ';-)', ':(', ';(', ':', ';', '-', '–', '—', '’', '“', '”', '″', '′', '>=', '<=', '=>', '=<', '> =', '< =', '>', '<',
          '=', '->', '<-', '(', ')', '[', ']', '{', '}', '|', '\\', '/', '%', '&', '+', '*', '**', '#', '@', '$', '£', '!', '?', '!?', '…',
          ' ', '  ', '\t', '\n', '\u00a0', '\u2003', ' 5\'', ' 5\'10"', ' 6"', ' 1,000', ' 3.5', '4.', '2nd', 'a', 'I', 'cannot', 'Cannot', 'can',
          'not', 'cat', 'CAT', 'Word', 'word', 'ab', 'A', 'B', 'A & B', 'A B & C', 'R&D', 'rock', 'é', 'ß', '漢', '_', '__', '•', '༺1༻', '⦅2⦆',
          '2:Engage', 'abc:12', 'Note:This', 'aaa+bbb', '10+years', 'aaa\'bbb', '-word', '*word', 'st. P', 'ed. A', 'x>y', 'x<y', 'ſ', 'İ']


def gen(rng):
    if rng.random() < .25:
        return dict(kind='urls', text=''.join(rng.choice(URLS + ['and', 'It', 'is.', '"quoted"', 'rock', "'n'", ':)', 'x,']) +
                                              rng.choice([' ', ' ', '  ', '\n']) for _ in range(rng.randint(1, 6))))
    pool = rng.sample(PIECES, rng.randint(2, 10)) + [' '] if rng.random() < .5 else PIECES + [' '] * 20
    pool = pool + (rng.sample(URLS, 2) if rng.random() < .3 else [])
    return dict(kind='text', text=''.join(rng.choice(pool) for _ in range(rng.randint(1, 12))))


def CORNERS():
    out = [dict(kind='text', text='')]
    out += [dict(kind='text', text=a + b + c) for a in ('a', ' ', 'Ab ') for b in PIECES for c in ('b', ' ', ' C', '1', '')]
    out += [dict(kind='urls', text=a + ' ' + b) for a in URLS for b in URLS]
    out += [dict(kind='text', text="rock 'n' roll.com/abc"), dict(kind='text', text='a.b/c :) a.b/c:) ;-) www.a.b 5\'')]
    out += [dict(kind='text', text=' '.join('%s.com/%d' % (chr(97 + i % 26), i) for i in range(25)))]
    out += [dict(kind='text', text=' '.join([':)', 'a.b/c', ';)', ';-)'] * 12))]
    return out


def valid(case):
    return spec.in_domain(case['text'])


def run(case):
    text = case['text']
    tokens = TOKENIZE(text)
    if text == '':
        return None if list(tokens) == [''] else 'empty text: %r' % tokens
    chars = spec.visible(text)
    if not spec.same_visible(chars, tokens):
        return 'tokens of %r do not keep its characters: %r' % (text, tokens)
    if not spec.no_marker(tokens):
        return 'tokens of %r expose a placeholder: %r' % (text, tokens)
    for t in tokens:
        if t == '' or re.search(r'\s', t):
            return 'tokens of %r: %r is empty or has white space' % (text, t)
    if case['kind'] == 'urls':
        for u in text.split():
            if u in URLS and u not in tokens:
                return 'tokens of %r: %s is broken: %r' % (text, u, tokens)
    return None
