"""Proof obligations over z3: lazily instantiated axioms, registry of opaque operators, congruence."""
import time

import z3

from .strings import Strings
from .core import (_len, apps, apps_of, zb, z_not, is_true, is_false, fresh_id, subst, Sym, SeqVal, FrozenSet, FrozenMap, ObjVal,
                   Choice, FieldList, MapVal, SetVal, OpaqueFn, LoopVal, Addr, Unit, Var, Comp, Guard, zint, Unsupported)

import os

z3.set_param('smt.random_seed', 7)
SLOW = os.environ.get('PYVC_SLOW')


class Timeout(Exception):
    """The time budget of the check is used up"""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.slowest = 0.0


class Entry:
    """An opaque operator application: fn(formals) denotes op(closure)"""

    def __init__(self, op, fn, formals, closure):
        self.op = op
        self.fn = fn
        self.formals = formals
        self.closure = closure

    def inst(self, args):
        if not self.formals:
            return self.closure
        return subst(self.closure, list(zip(self.formals, args)))


# CANONICAL KEYS (alpha-equivalence)
# ----------------------------------------------------------------------------

_canon_consts = {}
_keep_alive = []


def _canon_const(level, sort):
    key = (str(level), sort.name())
    if key not in _canon_consts:
        _canon_consts[key] = z3.Const('cb!%s!%s' % (level, sort.name()), sort)
    return _canon_consts[key]


def canon_key(v, pairs=(), level=0):
    """Hashable key, equal for alpha-equivalent values"""

    def term(t, ps):
        if isinstance(t, (bool, int)):
            return t
        s = z3.substitute(t, *ps) if ps else t
        _keep_alive.append(s)
        return ('z', s.get_id())

    def walk(x, ps, lv):
        if isinstance(x, Sym):
            return ('s', x.ty.key, term(x.t, ps))
        if isinstance(x, tuple):
            return ('t',) + tuple(walk(y, ps, lv) for y in x)
        if isinstance(x, Unit):
            return ('U', walk(x.v, ps, lv))
        if isinstance(x, Var):
            return ('V', term(x.t, ps))
        if isinstance(x, Comp):
            c = _canon_const(lv, z3.IntSort())
            return ('C', term(zint(x.n), ps), walk(x.body, list(ps) + [(x.b, c)], lv + 1))
        if isinstance(x, Guard):
            return ('G', term(zb(x.c), ps), walk(x.body, ps, lv))
        if isinstance(x, SeqVal):
            return ('Q', x.kind, walk(x.seq, ps, lv))
        if isinstance(x, FrozenSet):
            return ('FS', walk(x.seq, ps, lv))
        if isinstance(x, FrozenMap):
            return ('FM', x.kind, walk(x.seq, ps, lv))
        if isinstance(x, ObjVal):
            return ('O', id(x.cls), tuple((k, walk(y, ps, lv)) for k, y in sorted(x.fields.items())))
        if isinstance(x, Choice):
            return ('Ch', tuple((term(zb(c), ps), walk(y, ps, lv)) for c, y in x.alts))
        if isinstance(x, FieldList):
            return ('FL', walk(x.ref, ps, lv), x.field)
        if isinstance(x, (MapVal, SetVal)):
            return ('M', term(x.t, ps))
        if isinstance(x, OpaqueFn):
            return ('F', x.name, tuple(term(a, ps) for a in x.args))
        if isinstance(x, z3.ExprRef):
            return term(x, ps)
        if isinstance(x, LoopVal):
            inner = list(ps) + [(c, _canon_const('%d.%d' % (lv, k), c.sort())) for k, c in
                                enumerate(x.bound().values())]
            return ('L', walk(x.n, ps, lv), walk(x.inits, ps, lv), walk(x.cont, inner, lv + 1),
                    walk(x.steps, inner, lv + 1), x.out)
        if isinstance(x, Addr):
            return ('a', x.n)
        if x is None or isinstance(x, (bool, int, float, str)):
            return ('c', type(x).__name__, x)
        return ('o', id(x))

    return walk(v, list(pairs), level)


class Solver:
    def __init__(self, timeout_ms=5000):
        self.timeout_ms = timeout_ms
        self.stats = Stats()
        self.axioms = {}  # declaration name => function(app) -> list of formulas
        self.entries = {}  # z3 function name => Entry
        self.by_key = {}
        self.deep_axioms = {}
        self.at_axiom = None  # Axioms of the elements of a sequence
        self.light_axioms = {}  # The same for quick queries
        self.op_axioms = {}  # op => function(solver, entry, args) -> list of formulas
        self.val_eq = None  # set by the equality module: (gamma, v1, v2) -> bool
        self.deadline = None
        self._cache = {}
        self._keep = []
        self._inst_cache = {}
        self.prove_depth = 0
        self.strings = Strings()
        self.cong_cache = {}

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout()

    # AXIOM INSTANTIATION
    # ------------------------------------------------------------------------

    def _instances(self, app, deep):
        key = (app.get_id(), deep)
        hit = self._inst_cache.get(key)
        if hit is not None and hit[0].eq(app):
            return hit[1]
        out = []
        name = app.decl().name()
        if app.decl().eq(_len):
            out.append(app >= 0)
        ax = self.axioms.get(name)
        if ax is not None:
            out.extend(ax(app))
        else:
            entry = self.entries.get(name)
            if entry is not None and entry.op in self.light_axioms:
                out.extend(self.light_axioms[entry.op](self, entry, app.children(), app))
        if deep:
            if name.startswith('at<') and self.at_axiom is not None:
                out.extend(self.at_axiom(app))
            ax = self.deep_axioms.get(name)
            if ax is not None:
                out.extend(ax(app))
            entry = self.entries.get(name)
            if entry is not None:
                fn = self.op_axioms.get(entry.op)
                if fn is not None:
                    out.extend(fn(self, entry, app.children(), app))
        out = [zb(x) for x in out if not is_true(x)]
        self._inst_cache[key] = (app, out)
        return out

    def saturate(self, formulas, deep=False, rounds=4):
        """Instances of the axioms triggered by the terms of the formulas"""
        seen = {}
        acc = []
        todo = list(formulas)
        for _ in range(rounds):
            new_apps = []
            for f in todo:
                apps(f, new_apps, seen)
            todo = []
            for a in new_apps:
                todo.extend(self._instances(a, deep))
            if not todo:
                break
            acc.extend(todo)
        return acc

    # QUERIES
    # ------------------------------------------------------------------------

    def check(self, formulas, timeout_ms=None, deep=False, full=True):
        """('sat' | 'unsat' | 'unknown', model) for the conjunction (with axioms)"""
        formulas = [zb(f) for f in formulas]
        formulas = [f for f in formulas if not is_true(f)]
        if any(is_false(f) for f in formulas):
            return 'unsat', None
        key = (frozenset(f.get_id() for f in formulas), timeout_ms, deep, full)
        hit = self._cache.get(key)
        if hit is not None:
            return hit
        self.tick()
        everything = formulas + self.saturate(formulas, deep)
        strings = any(self.strings.mentions(f) for f in everything)
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout_ms or self.timeout_ms)
        s.add(*(self.strings.translate(everything) if strings else everything))
        r = s.check()
        if strings and r != z3.unsat and full:
            s = z3.Solver()
            s.set('timeout', timeout_ms or self.timeout_ms)
            s.add(*everything)
            r = s.check()
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.solver_s += dt
        self.stats.slowest = max(self.stats.slowest, dt)
        if dt > 0.3 and SLOW:
            import traceback
            names = [f.name for f in traceback.extract_stack()[-9:-1]]
            print('SLOW %.2f %s %s n=%d: %s' % (dt, r, '<'.join(reversed(names)), len(formulas), str(formulas[-1])[:int(SLOW)]), flush=True)
        model = None
        if r == z3.unsat:
            out = 'unsat'
        elif r == z3.sat:
            out = 'sat'
            model = s.model()
        else:
            out = 'unknown'
            self.stats.unknown += 1
        self._cache[key] = (out, model)
        self._keep.append(formulas)
        return out, model

    def feasible(self, pc, timeout_ms=500):
        return self.check(pc, timeout_ms, full=False)[0] != 'unsat'

    def implied(self, pc, c, timeout_ms=500):
        """Quick test (no congruence search): pc => c"""
        if is_true(c):
            return True
        return self.check(list(pc) + [z_not(c)], timeout_ms, full=False)[0] == 'unsat'

    def prove(self, pc, goal, timeout_ms=None):
        """Full-strength: pc => goal, with congruence between opaque operators"""
        goal = zb(goal)
        if is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.prove(pc, g, timeout_ms) for g in goal.children())
        base = list(pc) + [z_not(goal)]
        if self.check(base, min(timeout_ms or self.timeout_ms, 1500))[0] == 'unsat':
            return True
        if self.prove_depth > 5:
            return False
        self.prove_depth += 1
        try:
            extra = self._congruence(base, True)
            pairs = [(e.arg(1), e.arg(0)) for e in extra if z3.is_eq(e)]
            if pairs and is_false(z3.simplify(z3.substitute(base[-1], *pairs))):
                return True
            if extra and self.check(base + extra, timeout_ms)[0] == 'unsat':
                return True
            if self.prove_depth == 1:
                more = self._congruence(extra + base, False)
                if len(more) > 0:
                    extra = extra + more
                    if self.check(base + extra, timeout_ms)[0] == 'unsat':
                        return True
            if self.check(base + extra, timeout_ms, deep=True)[0] == 'unsat':
                return True
            if self.prove_depth > 2:
                return False
            if self.prove_depth > 1 and not extra and not any(a.decl().name() in self.entries for a in apps_of(goal)):
                return False  # No operator to compare
            more = self.saturate(base + extra, True, 1)
            more = [f for f in more if not z3.is_quantifier(f)]
            if not more:
                return False
            extra2 = self._congruence(more + base + extra + [z3.BoolVal(True)])
            return bool(extra2) and self.check(base + extra + extra2, timeout_ms, deep=True)[0] == 'unsat'
        finally:
            self.prove_depth -= 1

    def _congruence(self, formulas, goal_only=False):
        """Equalities between opaque operators; goal_only: those of the goal (last formula) only"""
        seen = {}
        acc = []
        for f in formulas:
            apps(f, acc, seen)
        local = set()  # Operators of the goal (nested proofs only look at those)
        if goal_only:
            g = []
            apps(formulas[-1], g, {})
            local = {a.get_id() for a in g}
        groups = {}
        for a in acc:
            e = self.entries.get(a.decl().name())
            if e is not None:
                groups.setdefault((e.op, a.sort().name()), []).append((e, a))
        extra = []
        gamma = list(formulas[:-1])
        pairs = 0
        rank = ('EX', 'FIRST', 'LAST', 'SUM', 'SEQ', 'SORTED')
        same = []  # Terms proved equal: one stands for the other
        for key in sorted(groups, key=lambda k: (rank.index(k[0]) if k[0] in rank else len(rank), k)):
            items = groups[key]
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    (e1, a1), (e2, a2) = items[i], items[j]
                    if a1.eq(a2):
                        continue
                    if goal_only and (a1.get_id() not in local or a2.get_id() not in local):
                        continue
                    if self.check(gamma + extra + [a1 != a2], 500, full=False)[0] == 'unsat':
                        continue
                    pairs += 1
                    if pairs > 400:
                        return extra
                    if self.closures_equal(gamma + extra, e1, a1, e2, a2, same):
                        extra.append(a1 == a2)
                        if not z3.is_bool(a1):
                            same.append((a2, a1))
        return extra

    def closures_equal(self, gamma, e1, a1, e2, a2, same=()):
        key = (frozenset(g.get_id() for g in gamma), a1.get_id(), a2.get_id())
        if key in self.cong_cache:
            return self.cong_cache[key]
        self._keep.append((gamma, a1, a2))
        self.cong_cache[key] = False  # Cuts cycles
        if self.always_equal(e1, a1, e2, a2):
            self.cong_cache[key] = True
            return True
        c1 = [z3.substitute(c, *same) for c in a1.children()] if same else a1.children()
        c2 = [z3.substitute(c, *same) for c in a2.children()] if same else a2.children()
        r = self.val_eq(gamma, e1.inst(c1), e2.inst(c2))
        self.cong_cache[key] = r
        return r

    def always_equal(self, e1, a1, e2, a2):
        """The two operators agree whatever the context (proved once for all arguments)"""
        c1, c2 = a1.children(), a2.children()
        index = {}
        pat = tuple(index.setdefault(c.get_id(), len(index)) for c in c1 + c2)
        key = ('always', e1.fn.name(), e2.fn.name(), pat)
        if key in self.cong_cache:
            return self.cong_cache[key]
        self.cong_cache[key] = False
        fresh = {}
        for c in c1 + c2:
            if c.get_id() not in fresh:
                fresh[c.get_id()] = z3.Const('%s%d' % ('b!' if c.sort() == z3.IntSort() else 'k!', fresh_id()), c.sort())
        n = self.timeout_ms
        self.timeout_ms = min(n, 2000)
        try:
            r = self.val_eq([], e1.inst([fresh[c.get_id()] for c in c1]), e2.inst([fresh[c.get_id()] for c in c2]))
        finally:
            self.timeout_ms = n
        self.cong_cache[key] = r
        return r

    # REGISTRY
    # ------------------------------------------------------------------------

    def app(self, op, closure, formals, sort):
        """Opaque application op(closure), a term over the free binders of the closure"""
        pairs = [(f, _canon_const('f%d' % k, f.sort())) for k, f in enumerate(formals)]
        key = (op, sort.name(), canon_key(closure, pairs))
        e = self.by_key.get(key)
        if e is None:
            name = '%s!%d' % (op, fresh_id())
            fn = z3.Function(name, *[x.sort() for x in formals], sort)
            e = Entry(op, fn, list(formals), closure)
            self.entries[name] = e
            self.by_key[key] = e
        return e.fn(*formals)
