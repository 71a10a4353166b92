"""Sequence theory: lengths, indexing, quantifier-like operators, equality of values."""
import enum
from fractions import Fraction

import z3

from .core import *
from .core import _len
from .solver import Solver


def is_scalar(v):
    return isinstance(v, (Sym, bool, int, float, str, Fraction)) or (isinstance(v, enum.Enum) and isinstance(v, int))


class ProofFail(Exception):
    pass


def scalar_type(v):
    if isinstance(v, Sym):
        return v.ty
    if isinstance(v, bool):
        return TBool
    if isinstance(v, enum.Enum):
        return TEnum(type(v))
    if isinstance(v, int):
        return TInt
    if isinstance(v, (float, Fraction)):
        return TReal
    if isinstance(v, str):
        return TStr
    return None


NINF = z3.Real('ninf')
PINF = z3.Real('pinf')


def term(v):
    """z3 term of a scalar value"""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, enum.Enum):
        return z3.IntVal(int(v.value))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        if v == float('-inf'):
            return NINF
        if v == float('inf'):
            return PINF
        return z3.RealVal(str(Fraction(v)))
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported('no term for %r' % (v,))


def lift(ty, t):
    """Value of a z3 term: concrete when the term is a literal"""
    t = z3.simplify(t) if not z3.is_const(t) else t
    k = ty.kind
    if k == 'bool':
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    elif k == 'int':
        if z3.is_int_value(t):
            return t.as_long()
    elif k == 'enum':
        if z3.is_int_value(t):
            try:
                return ty.args[0](t.as_long())
            except ValueError:
                pass
    elif k == 'str':
        if z3.is_string_value(t):
            return z3_str(t)
    return Sym(ty, t)


def z3_str(t):
    s = t.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


class Theory:
    def __init__(self, solver=None):
        self.sv = solver or Solver()
        self.sv.val_eq = self.val_eq
        self.invariants = []  # functions(app name) registered by specs
        self.decl_types = {}
        self.sv.op_axioms['EX'] = self._ax_ex
        self.sv.op_axioms['FIRST'] = self._ax_first
        self.sv.op_axioms['LAST'] = self._ax_last
        self.sv.op_axioms['SEQ'] = self._ax_seq
        self.sv.op_axioms['SUM'] = self._ax_sum
        self.sv.light_axioms['SUM'] = self._ax_sum_light
        self.sv.at_axiom = self._ax_key
        self.failures = []
        self.pc_fn = list
        self.depth = 0
        self.splits = 0
        self.custom_eq = []
        self.norm_rules = []
        self.mems = {}

    @property
    def pc(self):
        return self.pc_fn()

    # SYMBOLIC VALUES FROM UNINTERPRETED FUNCTIONS
    # ------------------------------------------------------------------------

    def uf(self, name, args, sort, ty=None):
        fn = z3.Function(name, *[a.sort() for a in args], sort)
        if ty is not None and name not in self.decl_types:
            self.decl_types[name] = ty
            if ty.kind == 'enum' and name not in self.sv.axioms:
                vals = sorted(int(m.value) for m in ty.args[0])
                if vals == list(range(vals[0], vals[-1] + 1)):
                    self.sv.axioms[name] = lambda app: [z3.And(app >= vals[0], app <= vals[-1])]
                else:
                    self.sv.axioms[name] = lambda app: [z3.Or(*[app == v for v in vals])]
        return fn(*args)

    def mk(self, ty, name, args=()):
        """Value of a type, given by uninterpreted functions of the arguments"""
        args = list(args)
        k = ty.kind
        if k == 'tuple':
            return tuple(self.mk(e, '%s_%d' % (name, i), args) for i, e in enumerate(ty.args))
        if k == 'opt':
            isnone = self.uf(name + '_isnone', args, z3.BoolSort())
            return Choice([(isnone, None), (z3.Not(isnone), self.mk(ty.args[0], name, args))])
        if k == 'list':
            return SeqVal((Var(self.uf(name, args, SeqX), ty.args[0]),), 'list')
        if k == 'map':
            return MapVal(self.uf(name, args, MapX), ty.args[0], ty.args[1])
        if k == 'set':
            return SetVal(self.uf(name, args, MapX), ty.args[0])
        if k == 'none':
            return None
        return Sym(ty, self.uf(name, args, z3sort(ty), ty))

    def at(self, t, ety, i):
        """Element i of an opaque sequence"""
        if ety is None:
            raise Unsupported('element of a sequence of unknown type')
        e = self.sv.entries.get(t.decl().name())
        if e is not None and e.op == 'SORTED' and self.best is not None and z3.is_int_value(zint(i)) \
                and zint(i).as_long() == 0:
            ks, rev = e.inst(t.children())  # The sort is stable: its first element is the first of the best
            return self.best('max' if rev else 'min', ks.seq)
        return self.mk(ety, 'at<%s>' % ety.key, [t, zint(i)])

    best = None

    @staticmethod
    def len_of(t):
        return _len(t)

    # OPERATORS
    # ------------------------------------------------------------------------

    def opaque(self, op, closure, sort):
        return self.sv.app(op, closure, free_binders(closure), sort)

    def EX(self, n, b, c):
        """Exists b in [0, n) with c"""
        c = z3.simplify(zb(c))
        if is_false(c):
            return z3.BoolVal(False)
        n = zint(n)
        if b.decl().name() not in free_consts(c):
            return z_and(c, n > 0)
        if z3.is_or(c):
            # What does not depend on the binder is taken out; the rest stays together
            dep = [x for x in c.children() if b.decl().name() in free_consts(x)]
            ind = [x for x in c.children() if b.decl().name() not in free_consts(x)]
            if ind:
                return z_or(z_and(n > 0, z_or(*ind)), self.EX(n, b, z_or(*dep)))
        if z3.is_and(c):  # Factor out what does not depend on the binder
            dep = [x for x in c.children() if b.decl().name() in free_consts(x)]
            ind = [x for x in c.children() if b.decl().name() not in free_consts(x)]
            if ind:
                return z_and(*ind, self.EX(n, b, z_and(*dep)))
            keep = self._without_witness(c.children())
            if len(keep) < c.num_args():
                return self.EX(n, b, z_and(*keep))
        v = self._point(b, c)
        if v is not None:
            return z3.simplify(z_and(v >= 0, v < n, z3.substitute(c, (b, v))))
        r = self._over_keys(n, b, c)
        if r is not None:
            return r
        e = self.sv.entries.get(c.decl().name()) if z3.is_app(c) else None
        if e is not None and e.op == 'EX':
            # Nested ranges that follow each other are one range
            b2, n2, c2 = self._lam(e.inst(c.children()))
            r = self._telescope(Comp(b, n, (Comp(b2, n2, (Guard(c2, (Unit(0),)),)),)))
            if r is not None and len(r) == 1 and isinstance(r[0], Comp) and len(r[0].body) == 1 and isinstance(
                    r[0].body[0], Guard):
                return self.EX(r[0].n, r[0].b, r[0].body[0].c)
        m = self._membership(n, b, c)
        if m is not None:
            return m
        clo = SeqVal((Comp(b, n, (Unit(Sym(TBool, self._sorted_args(b, c))),)),))
        return self.opaque('EX', clo, z3.BoolSort())

    @staticmethod
    def _sorted_args(b, c):
        """Conjuncts or disjuncts in an order that does not depend on the name of the index"""
        if not (z3.is_or(c) or z3.is_and(c)):
            return c
        x = z3.Int('b!')
        kids = c.children()
        if z3.is_and(c):
            # x == 1 makes x != 2 useless
            known = {}
            for k in kids:
                if z3.is_eq(k):
                    for u, v in ((k.arg(0), k.arg(1)), (k.arg(1), k.arg(0))):
                        if z3.is_int_value(u) and not z3.is_int_value(v):
                            known[v.get_id()] = u.as_long()

            def useless(k):
                if not (z3.is_not(k) and z3.is_eq(k.arg(0))):
                    return False
                e = k.arg(0)
                return any(z3.is_int_value(u) and v.get_id() in known and known[v.get_id()] != u.as_long()
                           for u, v in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))))

            kids = [k for k in kids if not useless(k)]
            if len(kids) == 1:
                return kids[0]
        kids = sorted(kids, key=lambda t: z3.substitute(t, (b, x)).sexpr())
        return z3.Or(*kids) if z3.is_or(c) else z3.And(*kids)

    @staticmethod
    def _point(b, c):
        """The only index that can satisfy the condition (one of its conjuncts is b + x == y), None otherwise"""
        for e in c.children() if z3.is_and(c) else [c]:
            if z3.is_eq(e) and e.arg(0).sort() == z3.IntSort():
                for sign in (1, -1):
                    v = z3.simplify(b - sign * (e.arg(0) - e.arg(1)))
                    if b.decl().name() not in free_consts(v):
                        return v
        return None

    def _over_keys(self, n, b, c):
        """Exists b < len(KEYS(s)) with c(at(KEYS(s), b)): some element x of s with c(x)"""
        if not (z3.is_app(n) and n.decl().name() == 'len' and z3.is_app(n.arg(0))):
            return None
        t = n.arg(0)
        e = self.sv.entries.get(t.decl().name())
        if e is None or e.op != 'KEYS' or b.decl().name() in free_consts(t):
            return None
        seq = e.inst(t.children()).seq
        ety = self.elem_type(seq)
        if ety is None:
            return None
        mine = self._terms(self.at(t, ety, b))

        def pred(v):
            theirs = self._terms(v)
            if len(theirs) != len(mine) or any(x.sort() != y.sort() for x, y in zip(mine, theirs)):
                raise Unsupported('keys of several shapes')
            return z3.substitute(c, *zip(mine, theirs))

        marks = [z3.FreshConst(x.sort()) for x in mine]
        if b.decl().name() in free_consts(z3.substitute(c, *zip(mine, marks))):
            return None
        return self.exists(seq, pred)

    def _membership(self, n, b, c):
        """Exists b < len(t) with at(t, b) == x: mem(t, x)"""
        if not z3.is_eq(c):
            return None
        for u, x in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if not (z3.is_app(u) and u.num_args() == 2 and u.decl().name().startswith('at<') and u.arg(1).eq(b)):
                continue
            t, bn = u.arg(0), b.decl().name()
            if bn in free_consts(t) or bn in free_consts(x) or not n.eq(_len(t)):
                continue
            if u.sort() == z3.BoolSort():
                return None
            at = u.decl().name()
            name = 'mem' + at[2:]
            self.mems.setdefault(at, {})[t.get_id()] = t
            if name not in self.sv.axioms:
                prev = self.sv.axioms.get(at)

                def at_axiom(app, at=at, name=name, prev=prev):
                    out = list(prev(app)) if prev is not None else []
                    if app.arg(0).get_id() in self.mems[at] or True:
                        i = app.arg(1)
                        out.append(z3.Implies(z3.And(i >= 0, i < _len(app.arg(0))),
                                              self.uf(name, [app.arg(0), app], z3.BoolSort())))
                    return out

                self.sv.axioms[at] = at_axiom
                self.sv.axioms[name] = lambda app: [z3.Implies(app, _len(app.arg(0)) > 0)]
                self.sv.deep_axioms[name] = lambda app, at=at, f=u.decl(): self._ax_mem(app, at, f)
            return self.uf(name, [t, x], z3.BoolSort())
        return None

    def _ax_mem(self, app, at, f):
        t, x = app.children()
        w = z3.Function('wit_' + app.decl().name(), t.sort(), x.sort(), z3.IntSort())(t, x)
        q = z3.Int('q!%d' % fresh_id())
        return [z3.Implies(app, z3.And(w >= 0, w < _len(t), f(t, w) == x)),
                z3.Implies(z3.Not(app), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < _len(t)), f(t, q) != x)))]

    def _without_witness(self, cs):
        """Conjuncts without those that only say that the first (last) index of an EX among them satisfies its condition"""
        exs = [c for c in cs if z3.is_app(c) and getattr(self.sv.entries.get(c.decl().name()), 'op', None) == 'EX']
        if not exs:
            return cs
        out = list(exs)
        for c in cs:
            if any(c is x for x in exs):
                continue
            wit = [a for a in apps_of(c) if getattr(self.sv.entries.get(a.decl().name()), 'op', None) in ('FIRST', 'LAST')]
            if wit and self.sv.check(exs + [z_not(c)], 500, deep=True)[0] == 'unsat':
                continue
            out.append(c)
        return out

    def FIRST(self, n, b, c):
        v = self._point(b, z3.simplify(zb(c)))
        if v is not None:
            return v
        clo = SeqVal((Comp(b, zint(n), (Unit(Sym(TBool, self._sorted_args(b, z3.simplify(zb(c))))),)),))
        return self.opaque('FIRST', clo, z3.IntSort())

    def LAST(self, n, b, c):
        v = self._point(b, z3.simplify(zb(c)))
        if v is not None:
            return v
        clo = SeqVal((Comp(b, zint(n), (Unit(Sym(TBool, self._sorted_args(b, z3.simplify(zb(c))))),)),))
        return self.opaque('LAST', clo, z3.IntSort())

    def SUM(self, n, b, t):
        """Sum of t for b in [0, n)"""
        t = z3.simplify(t)
        n = zint(n)
        if b.decl().name() not in free_consts(t):
            if z3.is_int_value(t) and t.as_long() == 0:
                return t
            if z3.is_rational_value(t) and t.as_fraction() == 0:
                return t
            cnt = z3.If(n > 0, n, z3.IntVal(0))
            cnt = n if self.sv.implied(self.pc, n >= 0) else cnt
            if t.sort() == z3.RealSort():
                cnt = z3.ToReal(cnt)
            return z3.simplify(cnt * t)
        if z3.is_add(t):
            return z3.simplify(z3.Sum([self.SUM(n, b, x) for x in t.children()]))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            t = z3.If(self._sorted_args(b, t.arg(0)), t.arg(1), t.arg(2))
        clo = SeqVal((Comp(b, n, (Unit(Sym(TReal if t.sort() == z3.RealSort() else TInt, t)),)),))
        return self.opaque('SUM', clo, t.sort())

    def _lam(self, closure):
        comp = closure.seq[0]
        return comp.b, zint(comp.n), comp.body[0].v.t

    def _ax_ex(self, sv, entry, args, app):
        b, n, c = self._lam(entry.inst(args))
        w = z3.Function('wit_' + entry.fn.name(), *[a.sort() for a in args], z3.IntSort())(*args)
        q = z3.Int('q!%d' % fresh_id())
        cw = z3.substitute(c, (b, w))
        cq = z3.substitute(c, (b, q))
        return [z3.Implies(app, z3.And(w >= 0, w < n, cw)),
                z3.Implies(z3.Not(app), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(cq))))]

    def _ax_first(self, sv, entry, args, app):
        b, n, c = self._lam(entry.inst(args))
        q = z3.Int('q!%d' % fresh_id())
        cq = z3.substitute(c, (b, q))
        ex = self.EX(n, b, c)
        return [z3.Implies(ex, z3.And(app >= 0, app < n, z3.substitute(c, (b, app)),
                                      z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < app), z3.Not(cq)))))]

    def _ax_last(self, sv, entry, args, app):
        b, n, c = self._lam(entry.inst(args))
        q = z3.Int('q!%d' % fresh_id())
        cq = z3.substitute(c, (b, q))
        ex = self.EX(n, b, c)
        return [z3.Implies(ex, z3.And(app >= 0, app < n, z3.substitute(c, (b, app)),
                                      z3.ForAll([q], z3.Implies(z3.And(q > app, q < n), z3.Not(cq)))))]

    def _ax_sum(self, sv, entry, args, app):
        b, n, t = self._lam(entry.inst(args))
        if sv.implied([b >= 0, b < n], t >= 0):
            return [app >= 0, (app > 0) == self.EX(n, b, t > 0), z3.Implies(n <= 0, app == 0)]
        return [z3.Implies(n <= 0, app == 0)]

    def _ax_key(self, app):
        """Keys come from what they were collected from"""
        t, i = app.children()
        e = self.sv.entries.get(t.decl().name()) if z3.is_app(t) else None
        if e is None or e.op != 'KEYS':
            return []
        r = self.exists(e.inst(t.children()).seq,
                        lambda v: v.t == app if isinstance(v, Sym) and v.t.sort() == app.sort() else z3.BoolVal(True))
        return [z3.Implies(z3.And(i >= 0, i < _len(t)), r)] if r is not None else []

    def _ax_sum_light(self, sv, entry, args, app):
        b, n, t = self._lam(entry.inst(args))
        if z3.is_int(app) and sv.implied([b >= 0, b < n], t >= 0):
            return [app >= 0]
        return []

    def _ax_seq(self, sv, entry, args, app):
        seq = entry.inst(args).seq
        try:
            return [_len(app) == self.seq_len(seq)]
        except Unsupported:
            return []

    # SEQUENCES
    # ------------------------------------------------------------------------

    def seq_len(self, seq):
        """z3 Int"""
        total = z3.IntVal(0)
        for s in seq:
            if isinstance(s, Unit):
                total = total + 1
            elif isinstance(s, Var):
                total = total + _len(s.t)
            elif isinstance(s, Guard):
                total = total + z3.If(s.c, self.seq_len(s.body), z3.IntVal(0))
            else:
                total = total + self.SUM(s.n, s.b, self.seq_len(s.body))
        return z3.simplify(total)

    def units(self, seq):
        """List of elements when the sequence is made of units only, None otherwise"""
        if all(isinstance(s, Unit) for s in seq):
            return [s.v for s in seq]
        return None

    def elem_type(self, seq):
        for s in seq:
            if isinstance(s, Var):
                if s.ety is not None:
                    return s.ety
            elif isinstance(s, Unit):
                ty = self.type_of(s.v)
                if ty is not None:
                    return ty
            else:
                ty = self.elem_type(s.body)
                if ty is not None:
                    return ty
        return None

    def type_of(self, v):
        if isinstance(v, tuple):
            tys = [self.type_of(x) for x in v]
            if any(t is None for t in tys):
                return None
            return TTuple(*tys)
        if isinstance(v, SeqVal):
            e = self.elem_type(v.seq)
            return TList(e) if e is not None else None
        if v is None:
            return TNone
        if isinstance(v, Choice):
            tys = [self.type_of(x) for c, x in v.alts]
            non = [t for t in tys if t is not None and t != TNone]
            if not non or any(t != non[0] for t in non):
                return None
            return TOpt(non[0]) if any(t == TNone for t in tys) else non[0]
        if isinstance(v, MapVal):
            return TMap(v.kty, v.vty)
        if isinstance(v, SetVal):
            return TSet(v.kty)
        return scalar_type(v)

    def indexable(self, seq):
        """(length, element function) when every segment has one element per index; None otherwise"""
        seq = self.norm(seq)
        if len(seq) == 1 and isinstance(seq[0], Guard):
            # Elements exist only under the condition
            ix = self.indexable(seq[0].body)
            if ix is None or ix[1] is None:
                return None
            return z3.simplify(z3.If(zb(seq[0].c), ix[0], z3.IntVal(0))), ix[1]
        parts = []
        for s in seq:
            if isinstance(s, Unit):
                parts.append((z3.IntVal(1), (lambda i, v=s.v: v)))
            elif isinstance(s, Var):
                if s.ety is None:
                    return None
                parts.append((_len(s.t), (lambda i, s=s: self.at(s.t, s.ety, i))))
            elif isinstance(s, Comp) and len(s.body) == 1 and isinstance(s.body[0], Unit):
                n = zint(s.n)
                if not self.sv.implied(self.pc, n >= 0):
                    n = z3.If(n >= 0, n, z3.IntVal(0))
                parts.append((n, (lambda i, s=s: subst(s.body[0].v, [(s.b, zint(i))]))))
            else:
                return None
        if not parts:
            return z3.IntVal(0), None
        if len(parts) == 1:
            return parts[0]
        total = z3.simplify(z3.Sum([p[0] for p in parts]))

        def elem(i):
            i = zint(i)
            alts = []
            off = z3.IntVal(0)
            for n, fn in parts:
                end = z3.simplify(off + n)
                c = z3.simplify(z3.And(i >= off, i < end))
                if not is_false(c):
                    alts.append((c, fn(z3.simplify(i - off))))
                if is_true(c):
                    break
                off = end
            return self.merge_vals(alts)

        return total, elem

    def reify(self, seq):
        """Opaque sequence term equal to the sequence expression"""
        seq = self.norm(seq)
        if len(seq) == 1 and isinstance(seq[0], Var):
            return seq[0].t
        return self.opaque('SEQ', SeqVal(seq), SeqX)

    def get(self, seq, i):
        """Element at index i (assumed in range)"""
        ix = self.indexable(seq)
        if ix is not None and ix[1] is not None:
            return ix[1](z3.simplify(zint(i)))
        ety = self.elem_type(seq)
        return self.at(self.reify(seq), ety, i)

    def slice(self, seq, lo, hi):
        """Elements lo..hi-1 (0 <= lo, hi <= len assumed after clamping by the caller)"""
        if not seq:
            return ()
        us = self.units(seq)
        l, h = to_int_if_concrete(lo), to_int_if_concrete(hi)
        if us is not None and l is not None and h is not None:
            return tuple(Unit(x) for x in us[l:h])
        # Concrete prefix that can be dropped
        if l is not None:
            rest = list(seq)
            while l > 0 and rest and isinstance(rest[0], Unit):
                rest.pop(0)
                l -= 1
            if l == 0 and self.sv.implied(self.pc, zint(hi) == self.seq_len(seq)):
                return tuple(rest)
        n = z3.simplify(zint(hi) - zint(lo))
        n = n if self.sv.implied(self.pc, n >= 0) else z3.simplify(z3.If(n >= 0, n, z3.IntVal(0)))
        b = fresh_binder()
        return self.norm((Comp(b, n, (Unit(self.get(seq, z3.simplify(b + zint(lo)))),)),))

    def block(self, seq, lo, hi):
        """Elements lo..hi-1 of a concatenation Comp(b < n, part(b)) when they are one of its parts: lo is the total length of
        the i first parts and hi that of the i + 1 first ones, 0 <= i < n
        """
        if len(seq) != 1 or not isinstance(seq[0], Comp):
            return None
        sums = [a for a in apps_of(lo) if getattr(self.sv.entries.get(a.decl().name()), 'op', None) == 'SUM']
        tried = []
        b, n, body = open_comp(seq[0])
        size = self.seq_len(body)
        for a in sums:
            i = self._lam(self.sv.entries[a.decl().name()].inst(a.children()))[1]
            if any(i.eq(x) for x in tried):
                continue
            tried.append(i)
            if not self.sv.implied(self.pc, z3.And(i >= 0, i < zint(n))):
                continue
            size_i = z3.substitute(size, (b, i))
            if self.sv.prove(self.pc, lo == self.SUM(i, b, size)) and self.sv.prove(self.pc, hi == lo + size_i):
                return subst(body, [(b, i)])
        return None

    def exists(self, seq, pred):
        """Formula: some element of the sequence satisfies pred (value -> z3 Bool)"""
        out = []
        for s in self.norm(seq):
            if isinstance(s, Unit):
                out.append(zb(pred(s.v)))
            elif isinstance(s, Guard):
                out.append(z_and(s.c, self.exists(s.body, pred)))
            elif isinstance(s, Var):
                if s.ety is None:
                    return None
                e = self.sv.entries.get(s.t.decl().name())
                if e is not None and e.op in ('KEYS', 'SEQ'):  # Same elements
                    out.append(self.exists(e.inst(s.t.children()).seq, pred))
                    continue
                b = fresh_binder()
                out.append(self.EX(_len(s.t), b, pred(self.at(s.t, s.ety, b))))
            else:
                b, n, body = open_comp(s)
                inner = self.exists(body, pred)
                if inner is None:
                    return None
                out.append(self.EX(n, b, inner))
        if any(x is None for x in out):
            return None
        return z_or(*out)

    def total(self, seq, fn, real=False):
        """Sum of fn(element)"""
        out = z3.RealVal(0) if real else z3.IntVal(0)
        for s in seq:
            if isinstance(s, Unit):
                out = out + fn(s.v)
            elif isinstance(s, Guard):
                t = self.total(s.body, fn, real)
                out = out + z3.If(s.c, t, z3.RealVal(0) if real else z3.IntVal(0))
            elif isinstance(s, Var):
                b = fresh_binder()
                out = out + self.SUM(_len(s.t), b, fn(self.at(s.t, s.ety, b)))
            else:
                b, n, body = open_comp(s)
                out = out + self.SUM(n, b, self.total(body, fn, real))
        return z3.simplify(out)

    def map_seq(self, seq, fn):
        """Sequence of fn(element), one element each; fn returns a tuple of segments"""
        out = []
        for s in seq:
            if isinstance(s, Unit):
                out.extend(fn(s.v))
            elif isinstance(s, Guard):
                out.append(Guard(s.c, self.map_seq(s.body, fn)))
            elif isinstance(s, Var):
                b = fresh_binder()
                out.append(Comp(b, _len(s.t), fn(self.at(s.t, s.ety, b))))
            else:
                b, n, body = open_comp(s)
                out.append(Comp(b, n, self.map_seq(body, fn)))
        return tuple(out)

    # NORMAL FORM
    # ------------------------------------------------------------------------

    def norm(self, seq, pc=()):
        out = []
        for s in seq:
            if isinstance(s, Unit) or isinstance(s, Var):
                out.append(s)
            elif isinstance(s, Guard):
                c = z3.simplify(zb(s.c))
                if is_false(c):
                    continue
                body = self.norm(s.body, pc)
                if is_true(c):
                    out.extend(body)
                    continue
                for x in body:
                    if isinstance(x, Guard):
                        out.append(Guard(z3.And(c, x.c), x.body))
                    elif isinstance(x, Comp) and self._said_by(c, x):
                        out.append(x)
                    else:
                        out.append(Guard(c, (x,)))
            else:
                k = to_int_if_concrete(s.n)
                if k is not None and k <= 0:
                    continue
                body = self.norm(s.body, pc)
                if not body:
                    continue
                if k is not None and k <= 40:
                    for i in range(k):
                        out.extend(self.norm(subst(body, [(s.b, z3.IntVal(i))]), pc))
                    continue
                seg = Comp(s.b, s.n, body)
                for rule in (self._eta, self._telescope):
                    r = rule(seg)
                    if r is not None:
                        seg = r
                        break
                if isinstance(seg, tuple):
                    out.extend(seg)
                else:
                    out.append(seg)
        return tuple(out)

    def _said_by(self, c, comp):
        """c only says that some b of the range of comp satisfies a condition which every element of comp is guarded by:
        comp is empty without c
        """
        if z3.is_and(c):
            return all(self._said_by(x, comp) for x in c.children())
        if not z3.is_app(c) or not all(isinstance(s, Guard) for s in comp.body):
            return False
        e = self.sv.entries.get(c.decl().name())
        pre = list(self.pc) + [comp.b >= 0, comp.b < zint(comp.n)]
        if e is None or e.op != 'EX':
            return c.decl().name().startswith('mem<') and all(self.sv.implied(pre + [zb(s.c)], c) for s in comp.body)
        b, n, d = self._lam(e.inst(c.children()))
        if not (n.eq(zint(comp.n)) or self.sv.implied(self.pc, n == zint(comp.n))):
            return False
        d = z3.substitute(d, (b, comp.b))
        return all(self.sv.implied(pre + [zb(s.c)], d) for s in comp.body)

    def _eta(self, seg):
        """Comp over b < len(t) of at(t, b) is t itself"""
        if len(seg.body) == 1 and isinstance(seg.body[0], Unit):
            v = seg.body[0].v
            t = None
            if isinstance(v, Sym) and z3.is_app(v.t) and v.t.decl().name() == 'at<%s>' % v.ty.key and v.t.num_args() == 2:
                if v.t.arg(1).eq(seg.b) and seg.b.decl().name() not in free_consts(v.t.arg(0)):
                    t = v.t.arg(0)
                    ety = v.ty
            if t is not None and self.sv.implied(self.pc, zint(seg.n) == _len(t)):
                return Var(t, ety)
        return None

    def _telescope(self, seg):
        """Comp_{i<n} Comp_{j<s(i+1)-s(i)} body(s(i)+j)  =  Comp_{k<s(n)-s(0)} body(s(0)+k)"""
        if len(seg.body) != 1 or not isinstance(seg.body[0], Comp):
            return None
        i, inner = seg.b, seg.body[0]
        j = inner.b
        iname, jname = i.decl().name(), j.decl().name()
        if iname not in free_consts(zint(inner.n)):
            return None
        # Candidate starts: index terms mentioning j
        found = []

        def scan(v):
            acc, seen = [], {}
            for t in self._terms(v):
                apps(t, acc, seen)
            for a in [None] + acc:
                for x in self._terms(v) if a is None else a.children():
                    if x.sort() == z3.IntSort() and jname in free_consts(x):
                        st = z3.simplify(x - j)
                        if jname not in free_consts(st) and not any(st.eq(y) for y in found):
                            found.append(st)

        scan(inner.body)
        for st in found:
            if iname not in free_consts(st):
                continue
            nxt = z3.substitute(st, (i, i + 1))
            n = zint(seg.n)
            pre = list(self.pc) + [i >= 0, i < n]
            m = zint(inner.n)
            cap = None
            if not self.sv.implied(pre, m == nxt - st, 2000):
                cap = self._cap(i, n, m, st, nxt, pre)
                if cap is None:
                    continue
            if not self.sv.implied(pre, nxt >= st, 2000):
                continue
            k = fresh_binder()
            # Abstract s(i)+j as one variable
            body = self._replace_index(inner.body, i, j, st, k)
            if body is None:
                continue
            start = z3.simplify(z3.substitute(st, (i, z3.IntVal(0))))
            end = cap if cap is not None else z3.simplify(z3.substitute(st, (i, n)))
            if not z3.is_int_value(start) and self.sv.implied(self.pc, start == 0):
                start = z3.IntVal(0)
            if not z3.is_int_value(end):
                for e in [e for a in apps_of(end) if a.decl().name() == 'linspace' for e in a.children()[:2]]:
                    if self.sv.implied(self.pc, end == e):
                        end = e
                        break
            if not z3.is_int_value(end):
                for a in [a for t in self._terms(body) for a in apps_of(t)]:
                    if a.decl().name().startswith('at<') and k.decl().name() not in free_consts(a.arg(0)) and \
                            self.sv.implied(self.pc, end == _len(a.arg(0))):
                        end = _len(a.arg(0))
                        break
            body = subst(body, [(k, z3.simplify(k + start))])
            tot = z3.simplify(z3.If(n > 0, end - start, z3.IntVal(0)))
            if self.sv.implied(self.pc, n >= 0):
                tot = z3.simplify(end - start)
            return self.norm((Comp(k, tot, body),))
        return None

    def _cap(self, i, n, m, st, nxt, pre):
        """The end E of ranges [s(i), min(s(i+1), E)) that cover [s(0), E), None otherwise"""
        todo, ites = [m], []
        while todo:
            x = todo.pop()
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                ites.append(x)
            todo.extend(x.children())
        for x in ites:
            if x.sort() != z3.IntSort():
                continue
            for e in x.children()[1:]:
                if i.decl().name() in free_consts(e):
                    continue
                if not self.sv.implied(pre, z3.And(m == z3.If(nxt <= e, nxt, e) - st, st <= e), 2000):
                    continue
                at = lambda k: z3.substitute(st, (i, k))
                if self.sv.implied(self.pc + [n > 0], z3.And(at(n) >= e, at(z3.IntVal(0)) <= e), 4000) and \
                        self.sv.implied(self.pc + [n <= 0], e <= at(z3.IntVal(0)), 2000):
                    return e
        return None

    def _terms(self, v):
        out = []

        def walk(x):
            if isinstance(x, Sym):
                out.append(x.t)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
            elif isinstance(x, Unit):
                walk(x.v)
            elif isinstance(x, Var):
                out.append(x.t)
            elif isinstance(x, Comp):
                out.append(zint(x.n))
                walk(x.body)
            elif isinstance(x, Guard):
                out.append(zb(x.c))
                walk(x.body)
            elif isinstance(x, (SeqVal, FrozenSet, FrozenMap)):
                walk(x.seq)
            elif isinstance(x, ObjVal):
                for y in x.fields.values():
                    walk(y)
            elif isinstance(x, Choice):
                for c, y in x.alts:
                    out.append(zb(c))
                    walk(y)
            elif isinstance(x, (MapVal, SetVal)):
                out.append(x.t)
            elif isinstance(x, OpaqueFn):
                out.extend(x.args)
            elif isinstance(x, FieldList):
                walk(x.ref)
            elif isinstance(x, LoopVal):
                walk((x.inits, x.steps))
                for y in (x.n, x.cont):
                    if y is not None:
                        out.append(y)

        walk(v)
        return out

    def _replace_index(self, body, i, j, st, k):
        """body with s(i)+j replaced by k; None when i or j remain"""
        pairs = []
        acc, seen = [], {}
        for t in self._terms(body):
            apps(t, acc, seen)
        for a in [None] + acc:
            for x in self._terms(body) if a is None else a.children():
                if x.sort() == z3.IntSort() and j.decl().name() in free_consts(x):
                    d = z3.simplify(x - j - st)
                    if not ({i.decl().name(), j.decl().name()} & set(free_consts(d))):
                        pairs.append((x, z3.simplify(k + d)))
        if not pairs:
            return None
        body = subst(body, pairs)
        left = value_consts(body)
        if i.decl().name() in left or j.decl().name() in left:
            return None
        return body

    # MERGING
    # ------------------------------------------------------------------------

    def merge_vals(self, alts):
        """Value equal to v_i under condition c_i (exclusive, exhaustive conditions)"""
        if isinstance(alts[0][1], Choice) and all(v is alts[0][1] for _, v in alts):
            return alts[0][1]
        flat = []
        for c, v in alts:
            if isinstance(v, Choice):
                for c2, v2 in v.alts:
                    flat.append((z_and(c, c2), v2))
            else:
                flat.append((zb(c), v))
        flat = [(c, v) for c, v in flat if not is_false(z3.simplify(c))]
        if not flat:
            raise Unsupported('no alternative')
        # Group identical values
        groups = []
        for c, v in flat:
            for g in groups:
                if same(g[1], v):
                    g[0].append(c)
                    break
            else:
                groups.append([[c], v])
        flat = [(z_or(*cs), v) for cs, v in groups]
        if len(flat) == 1:
            return flat[0][1]
        vals = [v for _, v in flat]
        if all(is_scalar(v) for v in vals):
            tys = [scalar_type(v) for v in vals]
            ty = tys[0]
            if any(t != ty for t in tys) and all(t in (TInt, TReal) for t in tys):
                ty = TReal
            if all(t == ty or (ty == TReal and t == TInt) for t in tys):
                ts = [term(v) for v in vals]
                if ty == TReal:
                    ts = [z3.ToReal(t) if t.sort() == z3.IntSort() else t for t in ts]
                t = ts[-1]
                for (c, _), x in zip(reversed(flat[:-1]), reversed(ts[:-1])):
                    t = z3.If(c, x, t)
                return lift(ty, z3.simplify(t))
        if all(isinstance(v, tuple) and len(v) == len(vals[0]) for v in vals):
            return tuple(self.merge_vals([(c, v[k]) for c, v in flat]) for k in range(len(vals[0])))
        if all(isinstance(v, SeqVal) and v.kind == vals[0].kind for v in vals):
            return SeqVal(tuple(Guard(c, v.seq) for c, v in flat), vals[0].kind)
        return Choice(flat)

    # EQUALITY
    # ------------------------------------------------------------------------

    def eq_term(self, a, b):
        """z3 Bool for the equality of two scalars, None when not expressible as a formula"""
        if isinstance(a, Choice):
            parts = []
            for c, v in a.alts:
                e = self.eq_term(v, b)
                if e is None:
                    return None
                parts.append(z_and(c, e))
            return z_or(*parts)
        if isinstance(b, Choice):
            return self.eq_term(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return z3.BoolVal(False)
            parts = [self.eq_term(x, y) for x, y in zip(a, b)]
            if any(p is None for p in parts):
                return None
            return z_and(*parts)
        if a is None or b is None:
            if a is None and b is None:
                return z3.BoolVal(True)
            other = b if a is None else a
            if isinstance(other, Undefined):
                return None
            return z3.BoolVal(False)
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return z3.BoolVal(a == b)
            ta, tb = term(a), term(b)
            if ta.sort() == tb.sort():
                return tb == ta if eq_rank(tb) < eq_rank(ta) else ta == tb
            if ta.sort() == z3.IntSort() and tb.sort() == z3.RealSort():
                return z3.ToReal(ta) == tb
            if tb.sort() == z3.IntSort() and ta.sort() == z3.RealSort():
                return z3.ToReal(tb) == ta
            if ta.sort() == z3.BoolSort() and tb.sort() == z3.IntSort():
                return z3.If(ta, z3.IntVal(1), z3.IntVal(0)) == tb
            if tb.sort() == z3.BoolSort() and ta.sort() == z3.IntSort():
                return z3.If(tb, z3.IntVal(1), z3.IntVal(0)) == ta
            return z3.BoolVal(False)
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
            return z3.BoolVal(a is b)
        if isinstance(a, Addr) and isinstance(b, Addr):
            return None if a != b else z3.BoolVal(True)
        kinds = (Addr, Sym, SeqVal, tuple, ObjVal, FieldList)
        if isinstance(a, Sym) and isinstance(b, (Addr, ObjVal)) or isinstance(b, Sym) and isinstance(a, (Addr, ObjVal)):
            return z3.BoolVal(False)
        if is_scalar(a) and isinstance(b, kinds) or is_scalar(b) and isinstance(a, kinds):
            return z3.BoolVal(False)
        if isinstance(a, (MapVal, SetVal)) and isinstance(b, (MapVal, SetVal)):
            return a.t == b.t
        return None

    def fail(self, msg, *args):
        if len(self.failures) < 200:
            self.failures.append((msg, args))
        return False

    def failure_text(self, last=8):
        return ' ; '.join(m % tuple(str(x)[:400] for x in a) if a else m for m, a in self.failures[-last:])

    def val_eq(self, pc, a, b):
        """Proves the equality of two frozen values under pc"""
        if a is b:
            return True
        if isinstance(a, Choice):
            for c, v in a.alts:
                if self.sv.feasible(pc + [c]) and not self.val_eq(pc + [c], v, b):
                    return False
            return True
        if isinstance(b, Choice):
            return self.val_eq(pc, b, a)
        if isinstance(a, Undefined) or isinstance(b, Undefined):
            return self.fail('undefined value reaches an observable result')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return not self.sv.feasible(pc, None) or self.fail('tuple lengths differ: %s / %s', len(a), len(b))
            return all(self.val_eq(pc, x, y) for x, y in zip(a, b))
        if isinstance(a, SeqVal) and isinstance(b, tuple):
            b = SeqVal(tuple(Unit(x) for x in b), 'tuple')
        elif isinstance(b, SeqVal) and isinstance(a, tuple):
            a = SeqVal(tuple(Unit(x) for x in a), 'tuple')
        if isinstance(a, SeqVal) and isinstance(b, SeqVal):
            if a.kind != b.kind and {a.kind, b.kind} & {'tuple'} and {a.kind, b.kind} & {'list'}:
                return not self.sv.feasible(pc, None) or self.fail('%s / %s' % (a.kind, b.kind))
            return self.seq_eq(pc, a.seq, b.seq)
        if isinstance(a, ObjVal) and isinstance(b, ObjVal):
            if a.cls is not b.cls:
                return not self.sv.feasible(pc, None) or self.fail('classes differ')
            if set(a.fields) != set(b.fields):
                return self.fail('fields differ: %s' % (set(a.fields) ^ set(b.fields)))
            return all(self.val_eq(pc, a.fields[k], b.fields[k]) for k in sorted(a.fields))
        if isinstance(a, FrozenMap) and isinstance(b, FrozenMap):
            return self.seq_eq(pc, a.seq, b.seq)
        if isinstance(a, FrozenSet) and isinstance(b, FrozenSet):
            return self.set_eq(pc, a.seq, b.seq)
        if isinstance(a, LoopVal) and isinstance(b, LoopVal):
            return self.loop_eq(pc, a, b)
        for rule in self.custom_eq:
            r = rule(self, pc, a, b)
            if r is not None:
                return r
        e = self.eq_term(a, b)
        if e is None:
            if isinstance(a, OpaqueFn) and isinstance(b, OpaqueFn) and a.name == b.name and len(a.args) == len(b.args):
                return all(self.sv.prove(pc, x == y) for x, y in zip(a.args, b.args))
            return not self.sv.feasible(pc, None) or self.fail('cannot compare %s and %s', a, b)
        if self.sv.prove(pc, e):
            return True
        return self.fail('values differ: %s / %s', a, b)

    def loop_eq(self, pc, a, b):
        """Lock-step coupling of two loops: equal initial states, and equal steps from equal states"""
        if (a.n is None) != (b.n is None) or len(a.places) != len(b.places):
            return self.fail('loops of different shapes')
        if a.n is not None and not self.sv.prove(pc, zint(a.n) == zint(b.n)):
            return self.fail('loops of different lengths')
        mark = len(self.failures)
        m = len(a.places)
        shapes_a = [self.shape(x) for x in a.places]
        shapes_b = [self.shape(x) for x in b.places]

        def search(k, used, perm):
            if k == m:
                return self._loop_steps_eq(pc, a, b, perm)
            order = [k] + [j for j in range(m) if j != k] if k < m else []
            for j in order:
                if j in used or shapes_a[k] != shapes_b[j]:
                    continue
                if (k == a.out) != (j == b.out):
                    continue
                if not self.val_eq(pc, a.inits[k], b.inits[j]):
                    continue
                if search(k + 1, used | {j}, perm + [j]):
                    return True
            return False

        if search(0, frozenset(), []):
            del self.failures[mark:]
            return True
        return self.fail('loop steps differ')

    def shape(self, v):
        if isinstance(v, tuple):
            return ('t',) + tuple(self.shape(x) for x in v)
        if isinstance(v, Choice):
            return ('c',) + tuple(self.shape(x) for _, x in v.alts)
        if isinstance(v, SeqVal):
            return ('q', 'list' if v.kind in ('seq', 'deque') else v.kind)
        if isinstance(v, Sym):
            return ('s', v.ty.key)
        return ('o', type(v).__name__)

    def _loop_steps_eq(self, pc, a, b, perm):
        # Common fresh state: the places of a, renamed; those of b identified with them
        fresh = {}
        pairs_a = []
        for name, c in a.bound().items():
            f = z3.Const('%s!%d' % ('b' if c.sort() == z3.IntSort() else 'k', fresh_id()), c.sort())
            fresh[name] = f
            pairs_a.append((c, f))
        pairs_b = [(b.b, fresh[a.b.decl().name()])]
        for k, j in enumerate(perm):
            ca, cb = list(value_consts(a.places[k]).values()), list(value_consts(b.places[j]).values())
            if len(ca) != len(cb) or any(x.sort() != y.sort() for x, y in zip(ca, cb)):
                return False
            pairs_b += [(y, fresh[x.decl().name()]) for x, y in zip(ca, cb)]
        i = fresh[a.b.decl().name()]
        pre = list(pc)
        if a.n is not None:
            pre += [i >= 0, i < zint(a.n)]
        else:
            ca, cb = _cont(a.cont, pairs_a), _cont(b.cont, pairs_b)
            if not self.sv.prove(pre, ca == cb):
                return False
            pre = pre + [ca]
        for k, j in enumerate(perm):
            if not self.val_eq(pre, subst(a.steps[k], pairs_a), subst(b.steps[j], pairs_b)):
                return False
        return True

    def set_eq(self, pc, a, b):
        if self.seq_eq(pc, a, b):
            return True

        def incl(pc, xs, ys):
            for s in xs:
                if isinstance(s, Unit):
                    m = self.exists(ys, lambda v: self.eq_term(v, s.v))
                    if m is None or not self.sv.prove(pc, m):
                        return False
                elif isinstance(s, Guard):
                    if not incl(pc + [s.c], s.body, ys):
                        return False
                elif isinstance(s, Var):
                    k = z3.Int('k!%d' % fresh_id())
                    if not incl(pc + [k >= 0, k < _len(s.t)], (Unit(self.at(s.t, s.ety, k)),), ys):
                        return False
                else:
                    k = z3.Int('k!%d' % fresh_id())
                    if not incl(pc + [k >= 0, k < zint(s.n)], subst(s.body, [(s.b, k)]), ys):
                        return False
            return True

        return (incl(pc, a, b) and incl(pc, b, a)) or self.fail('sets differ')

    def seq_eq(self, pc, a, b, budget=60):
        mark = len(self.failures)
        r = self._seq_eq(list(pc), self.norm(a), self.norm(b), budget)
        if r:
            del self.failures[mark:]
        return r

    def ctx_simp(self, pc, v):
        """Integer conditionals decided by pc are replaced by their branch"""
        conds = {}
        for t in self._terms(v):
            for c in int_ifs(t):
                conds[c.get_id()] = c
        if not conds:
            return v
        pairs = []
        for c in conds.values():
            names = free_consts(c)
            if self.sv.implied(pc, c, 200):
                pairs.append((c, z3.BoolVal(True)))
            elif self.sv.implied(pc, z_not(c), 200):
                pairs.append((c, z3.BoolVal(False)))
        if not pairs:
            return v
        return simp_terms(subst(v, pairs))

    def _simp_guards(self, pc, seq):
        out = []
        for s in seq:
            if isinstance(s, Guard):
                if self.sv.implied(pc, s.c):
                    out.extend(s.body)
                    continue
                if self.sv.implied(pc, z_not(s.c)):
                    continue
            out.append(s)
        return tuple(out)

    def _is_empty(self, pc, seq):
        for s in seq:
            if isinstance(s, Unit):
                if self.sv.feasible(pc, None):
                    return False
            elif isinstance(s, Var):
                if not self.sv.prove(pc, _len(s.t) <= 0):
                    return False
            elif isinstance(s, Guard):
                if not self._is_empty(pc + [zb(s.c)], s.body):
                    return False
            else:
                b, n, body = open_comp(s)
                if not self._is_empty(pc + [b >= 0, b < zint(n)], body):
                    return False
        return True

    def _as_comp(self, s):
        if isinstance(s, Var):
            if s.ety is None:
                return None
            b = fresh_binder()
            return Comp(b, _len(s.t), (Unit(self.at(s.t, s.ety, b)),))
        return s if isinstance(s, Comp) else None

    def _absorb(self, pc, seq):
        """body(-1), Comp_{i<n} body(i)  =  Comp_{i<n+1} body(i-1)  for n >= 0"""
        for j, s in enumerate(seq):
            if j and isinstance(s, Comp) and not isinstance(seq[j - 1], Unit):
                first = self.norm(simp_terms(subst(s.body, [(s.b, z3.IntVal(-1))])))
                m = len(first)
                if 0 < m <= j and all(same_seg(x, y) for x, y in zip(seq[j - m:j], first)) and \
                        self.sv.implied(pc, zint(s.n) >= 0):
                    k = fresh_binder()
                    one = Comp(k, z3.simplify(zint(s.n) + 1), simp_terms(subst(s.body, [(s.b, k - 1)])))
                    return self._absorb(pc, seq[:j - m] + (one,) + seq[j + 1:])
        return seq

    def _split_eq(self, pc, a, b, budget, depth=0):
        """Case split on the conditions that choose between objects"""
        conds = {}
        for t in self._terms(a) + self._terms(b):
            for c in int_ifs(t, RefSort):
                conds[c.get_id()] = c
        if not conds or depth > 5 or len(a) == len(b) and all(same_seg(x, y) for x, y in zip(a, b)):
            return self._seq_eq(pc, a, b, budget)
        c = min(conds.values(), key=lambda x: (len(str(x)), str(x)))
        for case in (c, z_not(c)):
            p = pc + [case]
            if not self.sv.feasible(p):
                continue
            pairs = [(c, z3.BoolVal(case is c))]
            x, y = (self._simp_guards(p, self.norm(simp_terms(subst(v, pairs)))) for v in (a, b))
            if not self._split_eq(p, x, y, budget, depth + 1):
                return False
        return True

    def _seq_eq(self, pc, a, b, budget):
        self.sv.tick()
        a, b = tuple(a), tuple(b)
        # Strip equal heads
        while a and b:
            x, y = a[0], b[0]
            if same_seg(x, y):
                a, b = a[1:], b[1:]
                continue
            if isinstance(x, Unit) and isinstance(y, Unit):
                if not self.val_eq(pc, x.v, y.v):
                    return False
                a, b = a[1:], b[1:]
                continue
            if isinstance(x, Guard) and isinstance(y, Guard):
                if self.sv.implied(pc, x.c == y.c) or self.sv.prove(pc, x.c == y.c):
                    if not self._seq_eq(pc + [x.c], x.body, y.body, budget):
                        return False
                    a, b = a[1:], b[1:]
                    continue
            if isinstance(x, Guard) or isinstance(y, Guard):
                break
            if isinstance(x, Var) and isinstance(y, Var) and self.sv.prove(pc, x.t == y.t):
                a, b = a[1:], b[1:]
                continue
            if isinstance(x, (Comp, Var)) and isinstance(y, (Comp, Var)):
                cx, cy = self._as_comp(x), self._as_comp(y)
                if cx is not None and cy is not None and self.sv.prove(pc, zint(cx.n) == zint(cy.n)):
                    k = z3.Int('b!%d' % fresh_id())
                    mark = len(self.failures)
                    pk = pc + [k >= 0, k < zint(cx.n)]
                    if self._split_eq(pk, self.norm(self.ctx_simp(pk, subst(cx.body, [(cx.b, k)]))),
                                      self.norm(self.ctx_simp(pk, subst(cy.body, [(cy.b, k)]))), budget):
                        del self.failures[mark:]
                        a, b = a[1:], b[1:]
                        continue
            break
        if not a and not b:
            return True
        # Case split on a leading guard
        for s in (a[:1] + b[:1]):
            if isinstance(s, Guard):
                if budget <= 0:
                    return self.fail('too many case splits')
                for c in (s.c, z_not(s.c)):
                    p = pc + [c]
                    if not self.sv.feasible(p):
                        continue
                    if not self._seq_eq(p, self._simp_guards(p, a), self._simp_guards(p, b), budget - 1):
                        return False
                return True
        # Remaining guards inside
        sa, sb = self._simp_guards(pc, a), self._simp_guards(pc, b)
        if len(sa) != len(a) or len(sb) != len(b):
            return self._seq_eq(pc, sa, sb, budget - 1)
        sa, sb = self._absorb(pc, a), self._absorb(pc, b)
        if len(sa) != len(a) or len(sb) != len(b):
            return self._seq_eq(pc, sa, sb, budget - 1)
        # Extensional comparison
        ia, ib = self.indexable(a), self.indexable(b)
        if ia is not None and ib is not None:
            if not self.sv.prove(pc, ia[0] == ib[0]):
                return not self.sv.feasible(pc, None) or self.fail('lengths differ: %s / %s', ia[0], ib[0])
            if ia[1] is None or ib[1] is None:
                return True
            k = z3.Int('b!%d' % fresh_id())
            pre = pc + [k >= 0, k < ia[0]]
            if not self.sv.feasible(pre, None):
                return True
            return self.val_eq(pre, self.ctx_simp(pre, ia[1](k)), self.ctx_simp(pre, ib[1](k)))
        # Provably empty sides
        if self.sv.prove(pc, z3.And(self.seq_len(a) == 0, self.seq_len(b) == 0)):
            return True
        if self._is_empty(pc, a) and self._is_empty(pc, b):
            return True
        if not self.sv.feasible(pc, None):
            return True
        return self.fail('sequences differ: %s / %s', list(a), list(b))


def eq_rank(t):
    """Orientation of equalities: applications before constants before literals"""
    if z3.is_app(t):
        return (-t.num_args() if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else 1, t.decl().name())
    return (2, '')


_ifs_cache = {}


def int_ifs(t, sort=z3.IntSort()):
    """Conditions of the conditionals of a sort in a term"""
    key = (t.get_id(), sort.name())
    hit = _ifs_cache.get(key)
    if hit is not None:
        return hit[1]
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == sort:
                out.append(x.arg(0))
            stack.extend(x.children())
    _ifs_cache[key] = (t, out)
    return out


def simp_terms(v):
    """Simplifies every term of a value"""
    return map_terms(v, z3.simplify)


def _cont(c, pairs):
    return z3.substitute(zb(c), *pairs)


def same(a, b):
    """Cheap syntactic equality of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if a is None or isinstance(a, (bool, int, float, str, enum.Enum, Addr)):
        return a == b
    if isinstance(a, Sym):
        return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SeqVal):
        return a.kind == b.kind and len(a.seq) == len(b.seq) and all(same_seg(x, y) for x, y in zip(a.seq, b.seq))
    if isinstance(a, FieldList):
        return a.field == b.field and same(a.ref, b.ref)
    if isinstance(a, (MapVal, SetVal)):
        return a.t.eq(b.t)
    if isinstance(a, Choice):
        return len(a.alts) == len(b.alts) and all(
            zb(c1).eq(zb(c2)) and same(v1, v2) for (c1, v1), (c2, v2) in zip(a.alts, b.alts))
    if isinstance(a, ObjVal):
        return a.cls is b.cls and set(a.fields) == set(b.fields) and all(same(a.fields[k], b.fields[k])
                                                                         for k in a.fields)
    return False


def same_seg(x, y):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, Unit):
        return same(x.v, y.v)
    if isinstance(x, Var):
        return x.t.eq(y.t)
    if isinstance(x, Guard):
        return zb(x.c).eq(zb(y.c)) and len(x.body) == len(y.body) and all(same_seg(p, q) for p, q in
                                                                        zip(x.body, y.body))
    if isinstance(x, Comp):
        if not zint(x.n).eq(zint(y.n)) or len(x.body) != len(y.body):
            return False
        body = y.body if x.b.eq(y.b) else subst(y.body, [(y.b, x.b)])
        return all(same_seg(p, q) for p, q in zip(x.body, body))
    return False
