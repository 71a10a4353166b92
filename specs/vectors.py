"""Contracts of the vectorization (property C03)."""

MAX_TOKENS = 50
MAX_CHARS = 20
ROWS = 52
COLS = 22
VECTOR = 100


def token_codes(token, code):
    """Character codes of a token, padded with zeros; code: char => code"""
    kept = token[-MAX_CHARS:]
    codes = [code(c) for c in '†' + kept + '‡']
    return codes + [0] * (COLS - len(codes))


def char_rows(tokens, code):
    rows = [token_codes(t, code) for t in ['ʃʃʃ'] + tokens + ['ʄʄʄ']]
    return rows + [[0] * COLS for _ in range(ROWS - len(rows))]


def word_rows(tokens, vector, size=VECTOR):
    rows = [vector(t) for t in ['ʃʃʃ'] + tokens + ['ʄʄʄ']]
    return rows + [[0.0] * size for _ in range(ROWS - len(rows))]


def mask(idx):
    return [i == idx for i in range(ROWS)]


def label_row(values):
    row = [0] + values + [0]
    return row + [0] * (ROWS - len(row))


def vectorize(tokens, code, vector, too_long):
    """Length, codes of the characters, vectors of the words of a sentence; an error above 50 tokens"""
    if len(tokens) > MAX_TOKENS:
        raise too_long()
    return len(tokens) + 2, char_rows(tokens, code), word_rows(tokens, vector)


def char_code(table, char):
    """Code of a character: the one of the table, or one above all of them"""
    return table[char] if char in table else max(table.values()) + 1


def word_vector(table, word):
    return table[word.lower()] if word.lower() in table else [0.0] * VECTOR


def tag_sample(tokens, tags, code, vector):
    return char_rows(tokens, code), word_rows(tokens, vector), label_row([t.value for t in tags])


def dep_sample(tokens, tags, deps, code, vector):
    return label_row([t.value for t in tags]), char_rows(tokens, code), word_rows(tokens, vector), \
        label_row([d.value for d in deps])


def trans_sample(tokens, tags, deps, i, j, transition, code, vector):
    return label_row([t.value for t in tags]), label_row([d.value for d in deps]), char_rows(tokens, code), \
        word_rows(tokens, vector), mask(i + 1), mask(j + 1), transition.value
