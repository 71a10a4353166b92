"""Abstraction of strings for the solver.

Every string formula is translated to uninterpreted terms: a sort of texts with a length and the character (code point) at a
position. The facts instantiated (lengths and characters of literals, substrings, concatenations; comparison with a literal,
prefix and suffix tests as tests on characters) are all true of strings, so that a contradiction found in the translation is
a contradiction of the original formulas; the converse does not hold (the solver may still use the theory of strings then).
"""
import z3

from .core import z_and, z_or, z_not

Text = z3.DeclareSort('Text')
LEN = z3.Function('text_len', Text, z3.IntSort())
CHAR = z3.Function('text_char', Text, z3.IntSort(), z3.IntSort())
SUB = z3.Function('text_sub', Text, z3.IntSort(), z3.IntSort(), Text)
CAT = z3.Function('text_cat', Text, Text, Text)
_STRING = z3.StringSort()


def literal(t):
    """Python text of a string literal"""
    s = t.as_string()
    if '\\u{' not in s:
        return s
    from .theory import z3_str
    return z3_str(t)


class Strings:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.lits = {}
        self.fns = {}
        self.has = {}

    # WHICH FORMULAS
    # ------------------------------------------------------------------------

    def mentions(self, t):
        """The formula mentions strings"""
        k = t.get_id()
        hit = self.has.get(k)
        if hit is not None:
            return hit[1]
        r = t.sort() == _STRING or any(self.mentions(c) for c in t.children())
        self.has[k] = (t, r)
        return r

    # TRANSLATION
    # ------------------------------------------------------------------------

    def sort(self, s):
        return Text if s == _STRING else s

    def tr(self, t):
        """(translated term, facts)"""
        k = t.get_id()
        hit = self.cache.get(k)
        if hit is not None and hit[0].eq(t):
            return hit[1], hit[2]
        if not self.mentions(t):
            self.cache[k] = (t, t, ())
            return t, ()
        facts = {}
        out = self._tr(t, facts)
        self.cache[k] = (t, out, tuple(facts.values()))
        return out, self.cache[k][2]

    def sub(self, t, facts):
        out, fs = self.tr(t)
        for f in fs:
            facts[f.get_id()] = f
        return out

    def add(self, facts, f):
        facts[f.get_id()] = f

    def lit(self, s, facts):
        c = self.lits.get(s)
        if c is None:
            c = z3.Const('text:%s' % s, Text)
            self.lits[s] = c
        self.add(facts, LEN(c) == len(s))
        for i, ch in enumerate(s):
            self.add(facts, CHAR(c, i) == ord(ch))
        return c

    def _tr(self, t, facts):
        if z3.is_string_value(t):
            return self.lit(literal(t), facts)
        if z3.is_quantifier(t):
            vs = [z3.FreshConst(t.var_sort(i), 'q') for i in range(t.num_vars())]
            inner = {}
            body = self.sub(z3.substitute_vars(t.body(), *reversed(vs)), inner)
            us = [self.sub(v, facts) for v in vs]
            for f in inner.values():
                self.add(facts, z3.ForAll(us, f) if self.uses(f, us) else f)
            return z3.ForAll(us, body) if t.is_forall() else z3.Exists(us, body)
        d = t.decl()
        kind = d.kind()
        ch = t.children()
        if kind == z3.Z3_OP_SEQ_LENGTH:
            x = self.sub(ch[0], facts)
            n = LEN(x)
            self.add(facts, n >= 0)
            return n
        if kind == z3.Z3_OP_SEQ_EXTRACT:
            x, a, n = (self.sub(c, facts) for c in ch)
            r = SUB(x, a, n)
            ln = LEN(x)
            self.add(facts, ln >= 0)
            self.add(facts, LEN(r) == z3.If(z3.And(a >= 0, a < ln, n > 0), z3.If(a + n <= ln, n, ln - a), 0))
            self.add(facts, z3.Implies(z3.And(a == 0, n == ln), r == x))
            return r
        if kind == z3.Z3_OP_SEQ_CONCAT:
            xs = [self.sub(c, facts) for c in ch]
            r = xs[-1]
            for x in reversed(xs[:-1]):
                new = CAT(x, r)
                self.add(facts, LEN(x) >= 0)
                self.add(facts, LEN(r) >= 0)
                self.add(facts, LEN(new) == LEN(x) + LEN(r))
                self.add(facts, z3.Implies(LEN(r) == 0, new == x))
                self.add(facts, z3.Implies(LEN(x) == 0, new == r))
                r = new
            return r
        if kind in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX) and z3.is_string_value(ch[0]):
            s = literal(ch[0])
            x = self.sub(ch[1], facts)
            ln = LEN(x)
            self.add(facts, ln >= 0)
            start = z3.IntVal(0) if kind == z3.Z3_OP_SEQ_PREFIX else ln - len(s)
            return z_and(ln >= len(s), *[self.char(x, start + i, facts) == ord(c) for i, c in enumerate(s)])
        if kind == z3.Z3_OP_EQ and ch[0].sort() == _STRING:
            for a, b in ((0, 1), (1, 0)):
                if z3.is_string_value(ch[a]) and not z3.is_string_value(ch[b]):
                    s = literal(ch[a])
                    x = self.sub(ch[b], facts)
                    l = self.lit(s, facts)
                    self.add(facts, LEN(x) >= 0)
                    same = z_and(LEN(x) == len(s), *[self.char(x, z3.IntVal(i), facts) == ord(c) for i, c in enumerate(s)])
                    self.add(facts, (x == l) == same)
                    return x == l
            x, y = self.sub(ch[0], facts), self.sub(ch[1], facts)
            if ch[0].eq(ch[1]):
                return z3.BoolVal(True)
            if z3.is_string_value(ch[0]) and z3.is_string_value(ch[1]):
                return z3.BoolVal(literal(ch[0]) == literal(ch[1]))
            # Texts of one character are equal when their character is
            cx, cy = self.char(x, z3.IntVal(0), facts), self.char(y, z3.IntVal(0), facts)
            self.add(facts, z3.Implies(z3.And(LEN(x) == 1, LEN(y) == 1), (x == y) == (cx == cy)))
            self.add(facts, z3.Implies(z3.And(LEN(x) == 0, LEN(y) == 0), x == y))
            return x == y
        if kind == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(ch[0]):
            s = literal(ch[0])
            x = self.sub(ch[1], facts)
            self.add(facts, LEN(x) >= 0)
            r = self.fn('text_in', [self.lit(s, facts), x], z3.BoolSort())
            c0 = self.char(x, z3.IntVal(0), facts)
            self.add(facts, z3.Implies(LEN(x) == 0, r))
            self.add(facts, z3.Implies(LEN(x) > len(s), z_not(r)))
            self.add(facts, z3.Implies(LEN(x) == 1, r == z_or(*[c0 == ord(c) for c in sorted(set(s))])))
            return r
        if kind == z3.Z3_OP_DISTINCT and ch[0].sort() == _STRING:
            return z_and(*[z_not(self.sub(ch[i] == ch[j], facts)) for i in range(len(ch)) for j in range(i)])
        if kind == z3.Z3_OP_SEQ_INDEX and z3.is_int_value(ch[2]) and ch[2].as_long() == 0:
            xs = [self.sub(c, facts) for c in ch]
            r = self.fn('text_index', xs[:2], z3.IntSort())
            self.add(facts, (r >= 0) == self.sub(z3.Contains(ch[0], ch[1]), facts))
            self.add(facts, r >= -1)
            return r
        xs = [self.sub(c, facts) for c in ch]
        if kind == z3.Z3_OP_ITE:
            return z3.If(*xs)
        if kind == z3.Z3_OP_UNINTERPRETED or t.sort() == _STRING or any(c.sort() == _STRING for c in ch):
            if not ch:
                return z3.Const('text_%s' % d.name(), Text)
            name = d.name() if kind == z3.Z3_OP_UNINTERPRETED else 'op_%s' % d.name()
            return self.fn(name + '#', xs, self.sort(t.sort()))
        return d(*xs)

    def uses(self, t, vs):
        return any(t.eq(v) for v in vs) or any(self.uses(c, vs) for c in t.children())

    def fn(self, name, xs, sort):
        return z3.Function(name, *[x.sort() for x in xs], sort)(*xs)

    def char(self, x, i, facts, depth=0):
        """Character of a text at a position, with the facts that relate it to the texts x is made of"""
        i = z3.simplify(i)
        c = CHAR(x, i)
        if depth > 12:
            return c
        d = x.decl()
        if d.eq(SUB):
            y, a, n = x.children()
            j = z3.simplify(a + i)
            self.add(facts, z3.Implies(z3.And(i >= 0, i < LEN(x)), c == self.char(y, j, facts, depth + 1)))
        elif d.eq(CAT):
            y, z = x.children()
            self.add(facts, z3.Implies(z3.And(i >= 0, i < LEN(y)), c == self.char(y, i, facts, depth + 1)))
            j = z3.simplify(i - LEN(y))
            self.add(facts, z3.Implies(z3.And(i >= LEN(y), i < LEN(x)), c == self.char(z, j, facts, depth + 1)))
        elif d.kind() == z3.Z3_OP_ITE:
            q, y, z = x.children()
            self.add(facts, z3.Implies(q, c == self.char(y, i, facts, depth + 1)))
            self.add(facts, z3.Implies(z_not(q), c == self.char(z, i, facts, depth + 1)))
        elif x.num_args() == 0 and d.name().startswith('text:'):
            s = d.name()[5:]
            for k, v in enumerate(s):
                self.add(facts, z3.Implies(i == k, c == ord(v)))
        return c

    def translate(self, formulas):
        facts = {}
        out = []
        for f in formulas:
            out.append(self.sub(f, facts))
        if facts and self.lits:
            pass
        return out + list(facts.values())
