"""Contracts of tokenization (property C10) and sentencization (property C11)."""
import re

QUOTES = {'‘': "'", '’': "'", '′': "'", '“': '"', '”': '"', '″': '"'}
DASHES = ('–', '—')
MARKER_PARTS = ('NSD', 'NSGE', 'NSLE', 'RNSGE', 'RNSLE', 'PROTECTED')
BLOCK_MARKS = ('༺', '༻', '⦅', '⦆', '¶')


def in_domain(text):
    """The text contains no part of an internal placeholder"""
    return not any([m in text for m in MARKER_PARTS])


def visible(text):
    """Characters of a text, white space removed, typographic quotes and dashes normalised"""
    out = []
    last_dash = False
    for c in text:
        if c in DASHES:
            if not last_dash:
                out.append('-')
            last_dash = True
        else:
            last_dash = False
            if not c.isspace():
                out.append(QUOTES.get(c, c))
    return ''.join(out)


def same_visible(chars, tokens):
    """The joined tokens are the visible characters, up to feet, inches and repeated stars.
    Feet and inches are only allowed after a number, a star is dropped only after another star.
    """
    got = ''.join(tokens)
    reach = {0}  # positions of `got` reachable after each visible character
    prev = ''
    for c in chars:
        new = set()
        for j in reach:
            if j < len(got) and got[j] == c:
                new.add(j + 1)
            if c == "'" and got[j:j + 2] == 'ft' and prev and (prev.isdigit() or prev in ',.'):
                new.add(j + 2)
            if c == '"' and got[j:j + 2] == 'in' and prev and (prev.isdigit() or prev in ',.'):
                new.add(j + 2)
            if c == '*' and prev == '*':
                new.add(j)
        reach = new
        prev = c
    return len(got) in reach


def no_marker(tokens):
    return not any([m in t for t in tokens for m in ('NSD', 'NSGE', 'NSLE', 'PROTECTED')])


# SENTENCES
# ----------------------------------------------------------------------------

def lines(text):
    return re.split(r'\s*[\t\n\r]+\s*', text)


def passages(text, opening, closing):
    """Alternation of outside and inside texts: [outside, inside, outside, ...]; a passage is closed by the first closing
    character on its line
    """
    out = []
    while True:
        i = text.find(opening)
        if i < 0:
            break
        j = text.find(closing, i + 1)
        if j < 0:
            break
        out.extend([text[:i], text[i + 1:j]])
        text = text[j + 1:]
    return out + [text]


def sentences(text, tokenize):
    """Sentences of a text.
    Passages are read from the text itself; in the text given to the tokenizer each one is a single block.
    """
    quotes, brackets, blocks = [], [], []
    for line in lines(text):
        line = ' '.join(line.strip().replace('."', '."¶').split())
        parts = passages(line, '"', '"')
        line = parts[0]
        for inside, outside in zip(parts[1::2], parts[2::2]):
            line += ' ༺%d༻ ' % len(quotes) + outside
            quotes.append(inside)
        blocks.append(re.sub(r'\s+', ' ', line))
    for k, line in enumerate(blocks):
        parts = passages(line, '(', ')')
        line = parts[0]
        for inside, outside in zip(parts[1::2], parts[2::2]):
            line += ' ⦅%d⦆ ' % len(brackets) + outside
            brackets.append(inside)
        blocks[k] = re.sub(r'\s+', ' ', line)

    def expand(token):
        if token.startswith('༺'):
            return ['"'] + tokenize(quotes[int(token[1:-1])]) + ['"']
        if token.startswith('⦅'):
            inner = []
            for t in tokenize(brackets[int(token[1:-1])]):
                inner += expand(t) if t.startswith('༺') else [t]
            return ['('] + inner + [')']
        return [token]

    out = []
    for line in blocks:
        current = []
        for token in tokenize(line):
            if token == '¶' or (token and all([c in '.?!:' for c in token])):
                out.append(current + ([] if token == '¶' else [token]))
                current = []
            else:
                current = current + expand(token)
        if current:
            out.append(current)
    return out
