"""Symbolic interpreter of Python source: every path, every iteration, merged at joins."""
import ast
import collections
import enum
import itertools

import z3

from .core import *
from .core import _len
from .theory import Theory, is_scalar, scalar_type, term, lift, same, same_seg
from .values import *

NORMAL, RETURN, RAISE, BREAK, CONTINUE = 'normal', 'return', 'raise', 'break', 'continue'


class Outcome:
    __slots__ = ('kind', 'val', 'st')

    def __init__(self, kind, val, st):
        self.kind = kind
        self.val = val
        self.st = st


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc):
        self.heap = heap
        self.pc = pc

    def fork(self):
        return State(dict(self.heap), list(self.pc))


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class NeedFork(Exception):
    pass


class Infeasible(Exception):
    pass


class Frame:
    __slots__ = ('scope', 'module', 'cls', 'func', 'self_val', 'yields')

    def __init__(self, scope, module, cls=None, func=None, self_val=None):
        self.scope = scope
        self.module = module
        self.cls = cls
        self.func = func
        self.self_val = self_val
        self.yields = None


def mangle(name, cls):
    if cls is not None and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.name.lstrip('_') + name
    return name


class Interp:
    MAX_CALLS = 60

    def __init__(self, theory=None):
        self.th = theory or Theory()
        self.th.best = lambda name, ks: self.bi.best_keyed(self, name, ks)
        self.sv = self.th.sv
        self.th.pc_fn = lambda: self.st.pc
        self.st = State({}, [])
        self.base_heap = self.st.heap
        self.trace = None
        self.pos = 0
        self.alts = None
        self.nofork = 0
        self.modules = {}
        self.contracts = {}
        self.while_hook = None  # Invariant given by the proof: while_hook(ip, statement, frame, one iteration) -> outcomes or None
        self.recursive = []  # (prefix of a qualified name, handler of recursive calls)
        self.inductive = False  # qualified name => handler(interp, args, kwargs)
        self.exc = {}
        self.side = 'code'
        self.call_stack = []
        self.visited = {}  # qualified name => number of interpretations (evidence)
        self.contract_uses = {}
        self.loader = None
        self.loop_stats = collections.Counter()
        self.recursion = {}
        self.assumptions = set()
        self.facts = {}  # Consequences of other path conditions
        self.keep = ()
        self.ext_uses = {}
        from . import builtins_ as bi
        from . import ext
        self.bi = bi
        self.sv.op_axioms['DHAS'] = lambda sv, e, args, app: bi.ax_dhas(self, e, app)
        self.sv.light_axioms['DHAS'] = self.sv.op_axioms['DHAS']
        self.builtins = bi.make_builtins(self)
        self.ext = ext.make_ext(self)

    # HEAP
    # ------------------------------------------------------------------------

    def alloc(self, rec):
        a = Addr(fresh_id())
        self.st.heap[a] = rec
        return a

    def rec(self, a):
        try:
            return self.st.heap[a]
        except KeyError:
            raise Unsupported('object of another path')

    def put(self, a, rec):
        self.st.heap[a] = rec

    def new_list(self, seq=(), kind='list'):
        return self.alloc(ListObj(tuple(seq), kind))

    def new_set(self, seq=()):
        return self.alloc(SetObj(tuple(seq)))

    def new_dict(self, seq=(), kind='dict'):
        return self.alloc(DictObj(tuple(seq), kind))

    # DECISIONS
    # ------------------------------------------------------------------------

    def decide(self, c):
        """Truth of a condition on the current path (forks when both are possible)"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.trace is None:
            raise Unsupported('decision outside of an exploration')
        if self.pos < len(self.trace):
            ch = self.trace[self.pos]
            self.pos += 1
            if ch[1]:
                self.st.pc.append(c if ch[0] else z_not(c))
            return ch[0]
        if self.sv.implied(self.st.pc, c):
            ch = (True, False)
        elif self.sv.implied(self.st.pc, z_not(c)):
            ch = (False, False)
        else:
            if self.nofork:
                raise NeedFork()
            self.alts.append(self.trace[:self.pos] + [(False, True)])
            ch = (True, True)
        self.trace.append(ch)
        self.pos += 1
        if ch[1]:
            self.st.pc.append(c)
        return ch[0]

    def explore(self, st, fn):
        """Runs fn (-> list of outcomes) along every feasible decision sequence from st"""
        saved = (self.st, self.trace, self.pos, self.alts, self.nofork)
        outs = []
        stack = [[]]
        n = 0
        try:
            while stack:
                n += 1
                if n > 3000:
                    raise Unsupported('too many paths')
                self.sv.tick()
                self.trace = stack.pop()
                self.pos = 0
                self.alts = []
                self.nofork = 0
                self.st = st.fork()
                try:
                    res = fn()
                except PyRaise as e:
                    res = [Outcome(RAISE, e.exc, self.st)]
                except Infeasible:
                    res = []
                outs.extend(res)
                stack.extend(self.alts)
        finally:
            self.st, self.trace, self.pos, self.alts, self.nofork = saved
        return outs

    def speculate(self, fn, assume=None):
        """Evaluates fn without forking; returns (True, value) or (False, None). State is kept only if unchanged."""
        saved_st, saved_pos, saved_trace, saved_alts = self.st, self.pos, list(self.trace or []), list(self.alts or [])
        self.st = saved_st.fork()
        if assume is not None:
            self.st.pc.append(assume)
        self.nofork += 1
        outer_trace = self.trace
        self.trace = []
        self.pos = 0
        ok, v = False, None
        try:
            v = fn()
            ok = True
            before, after = saved_st.heap, self.st.heap
            for a, r in before.items():
                if after.get(a) is not r:
                    ok = False
                    break
            if ok:
                for a in after:
                    if a not in before:
                        saved_st.heap[a] = after[a]
        except (NeedFork, PyRaise):
            ok = False
        finally:
            self.nofork -= 1
            self.st, self.pos, self.trace, self.alts = saved_st, saved_pos, outer_trace, saved_alts
        return ok, v

    # MERGING
    # ------------------------------------------------------------------------

    def conds_since(self, base, st):
        return z_and(*st.pc[len(base.pc):])

    def merge_states(self, base, sts, exhaustive=False):
        """One state for several alternatives forked from base"""
        if len(sts) == 1:
            return sts[0]
        conds = [self.conds_since(base, s) for s in sts]
        out = State({}, list(base.pc))
        if not exhaustive:
            d = z3.simplify(z_or(*conds))
            if not is_true(d):
                out.pc.append(d)
        keys = {}
        for s in sts:
            for a in s.heap:
                keys[a] = True
        for a in keys:
            have = [(c, s.heap[a]) for c, s in zip(conds, sts) if a in s.heap]
            if len(have) < len(sts) and not isinstance(a, Addr):
                # No log on some side: nothing was written there
                if not isinstance(have[0][1], ListObj):
                    raise Unsupported('merging %s' % (a,))
                kind = have[0][1].kind
                have = [(c, s.heap.get(a) or ListObj((), kind)) for c, s in zip(conds, sts)]
            first = have[0][1]
            if all(r is first for _, r in have):
                out.heap[a] = first
                continue
            out.heap[a] = self.merge_recs(have)
        return out

    def merge_recs(self, have):
        first = have[0][1]
        if any(type(r) is not type(first) for _, r in have):
            raise Unsupported('merging objects of different kinds')
        if isinstance(first, (ListObj, SetObj, DictObj)):
            if any(getattr(r, 'kind', None) != getattr(first, 'kind', None) for _, r in have):
                # A dictionary that was empty takes the kind of the other
                kinds = {r.kind for _, r in have if r.seq}
                if len(kinds) > 1:
                    raise Unsupported('merging dictionaries of different kinds')
                kind = kinds.pop() if kinds else first.kind
            else:
                kind = getattr(first, 'kind', None)
            seq = self.merge_seqs([(c, r.seq) for c, r in have])
            if isinstance(first, SetObj):
                return SetObj(seq)
            return type(first)(seq, kind)
        if isinstance(first, InstObj):
            names = {}
            for _, r in have:
                for k in r.fields:
                    names[k] = True
            return InstObj(first.cls, {k: self.th.merge_vals([(c, r.fields.get(k, UNBOUND)) for c, r in have])
                                       for k in names})
        if isinstance(first, ScopeObj):
            names = {}
            for _, r in have:
                for k in r.vars:
                    names[k] = True
            return ScopeObj({k: self.th.merge_vals([(c, r.vars.get(k, UNBOUND)) for c, r in have]) for k in names})
        raise Unsupported('merging %s' % type(first).__name__)

    def merge_seqs(self, alts):
        """alts: list of (cond, seq)"""
        seqs = [s for _, s in alts]
        k = 0
        while all(len(s) > k for s in seqs) and all(same_seg(s[k], seqs[0][k]) for s in seqs[1:]):
            k += 1
        prefix = seqs[0][:k]
        tails = [(c, s[k:]) for c, s in alts]
        # Group equal tails
        groups = []
        for c, t in tails:
            if not t:
                continue
            for g in groups:
                if len(g[1]) == len(t) and all(same_seg(x, y) for x, y in zip(g[1], t)):
                    g[0].append(c)
                    break
            else:
                groups.append([[c], t])
        # One unit element on each side: keep one element of merged value
        if groups and len(tails) > 1 and all(len(t) == 1 and isinstance(t[0], Unit) and self.mergeable(t[0].v)
                                             for _, t in tails):
            return prefix + (Unit(self.th.merge_vals([(c, t[0].v) for c, t in tails])),)
        return prefix + tuple(Guard(z3.simplify(z_or(*cs)), t) for cs, t in groups)

    def mergeable(self, v):
        return is_scalar(v)

    def merge_outcomes(self, base, outs, exhaustive=False):
        """Merges outcomes carrying values: (value, state)"""
        if len(outs) == 1:
            return outs[0].val, outs[0].st
        conds = [self.conds_since(base, o.st) for o in outs]
        val = self.th.merge_vals([(c, o.val) for c, o in zip(conds, outs)])
        return val, self.merge_states(base, [o.st for o in outs], exhaustive)

    # FREEZING
    # ------------------------------------------------------------------------

    def freeze(self, v, st=None, stack=()):
        """Value without heap references (those of self.keep excepted)"""
        heap = (st or self.st).heap
        if isinstance(v, Addr):
            if v in self.keep:
                return v
            if v in stack:
                raise Unsupported('cyclic object')
            r = heap.get(v)
            if r is None:
                raise Unsupported('object of another path')
            stack = stack + (v,)
            if isinstance(r, ListObj):
                return SeqVal(self.freeze_seq(r.seq, st, stack), r.kind)
            if isinstance(r, SetObj):
                return FrozenSet(self.freeze_seq(r.seq, st, stack))
            if isinstance(r, DictObj):
                return FrozenMap(self.freeze_seq(r.seq, st, stack), r.kind)
            if isinstance(r, InstObj):
                return ObjVal(r.cls, {k: self.freeze(x, st, stack) for k, x in r.fields.items()}, v)
            raise Unsupported('freezing %s' % type(r).__name__)
        if isinstance(v, tuple):
            return tuple(self.freeze(x, st, stack) for x in v)
        if isinstance(v, SeqVal):
            return SeqVal(self.freeze_seq(v.seq, st, stack), v.kind)
        if isinstance(v, Choice):
            return Choice([(c, self.freeze(x, st, stack)) for c, x in v.alts])
        if isinstance(v, ObjVal):
            return ObjVal(v.cls, {k: self.freeze(x, st, stack) for k, x in v.fields.items()}, v.origin)
        if isinstance(v, FieldList):
            return SeqVal(self.freeze_seq(self.field_seq(v, st), st, stack), 'list')
        if isinstance(v, RangeVal):
            return SeqVal(self.seq_of(v), 'range')
        if isinstance(v, self.bi.DictSlot):
            keep_st, self.st = self.st, st or self.st
            try:
                _, x = self.bi.slot_value(self, v)
            finally:
                self.st = keep_st
            return self.freeze(x, st, stack)
        return v

    def freeze_slice(self, seq):
        """Snapshot of a sequence unless its elements have an identity"""
        return seq

    def lower_axioms(self):
        pass

    def freeze_seq(self, seq, st=None, stack=()):
        out = []
        for s in seq:
            if isinstance(s, Unit):
                out.append(Unit(self.freeze(s.v, st, stack)))
            elif isinstance(s, Guard):
                out.append(Guard(s.c, self.freeze_seq(s.body, st, stack)))
            elif isinstance(s, Comp):
                out.append(Comp(s.b, s.n, self.freeze_seq(s.body, st, stack)))
            else:
                out.append(s)
        return tuple(out)

    # SYMBOLIC OBJECTS
    # ------------------------------------------------------------------------

    def schema(self, ref):
        return ref.ty.args[0]

    def log_key(self, schema, field):
        return ('log', schema.name, field)

    def field_log(self, ref, field, st=None):
        r = (st or self.st).heap.get(self.log_key(self.schema(ref), field))
        return r.seq if r is not None else ()

    def log_event(self, ref, field, op, value):
        key = self.log_key(self.schema(ref), field)
        r = self.st.heap.get(key)
        seq = r.seq if r is not None else ()
        self.st.heap[key] = ListObj(seq + (Unit((ref, op, value)),), 'log')

    def field_base(self, ref, field):
        sch = self.schema(ref)
        if field in sch.empty:
            return SeqVal((), 'list')
        return self.th.mk(sch.fields[field], 'fld_%s_%s' % (sch.name, field), [ref.t])

    def _ref_eq(self, r, ref):
        if not isinstance(r, Sym):
            return z3.BoolVal(False)
        c = z3.simplify(r.t == ref.t)
        if is_true(c) or is_false(c):
            return c
        if self.sv.implied(self.st.pc, c):
            return z3.BoolVal(True)
        if self.sv.implied(self.st.pc, z_not(c)):
            return z3.BoolVal(False)
        return c

    def _events_only(self, seq, op):
        for s in seq:
            if isinstance(s, Unit):
                if s.v[1] != op:
                    return False
            elif isinstance(s, Var):
                return False
            elif not self._events_only(s.body, op):
                return False
        return True

    def field_seq(self, fl, st=None):
        """Current content of a list field"""
        base = self.field_base(fl.ref, fl.field).seq
        log = self.field_log(fl.ref, fl.field, st)
        return self._resolve_list(log, fl.ref, base)

    def _resolve_list(self, log, ref, base):
        if not log:
            return base
        rest, last = log[:-1], log[-1]
        if isinstance(last, Unit):
            r, op, v = last.v
            c = self._ref_eq(r, ref)
            if op == 'append':
                below = self._resolve_list(rest, ref, base)
                return self.th.norm(below + (Guard(c, (Unit(v),)),))
            if is_true(c):
                return v.seq
            below = self._resolve_list(rest, ref, base)
            if is_false(c):
                return below
            return self.th.norm((Guard(c, v.seq), Guard(z_not(c), below)))
        if isinstance(last, Guard) and len(last.body) > 1:
            return self._resolve_list(rest + tuple(Guard(last.c, (x,)) for x in last.body), ref, base)
        if self._events_only((last,), 'append'):
            below = self._resolve_list(rest, ref, base)
            mapped = self.th.map_seq((last,), lambda ev: (Guard(self._ref_eq(ev[0], ref), (Unit(ev[2]),)),))
            return self.th.norm(below + mapped)
        if self._events_only((last,), 'set'):
            present, val = self.last_match((last,), lambda ev: self._ref_eq(ev[0], ref))
            if val is not None and self.sv.implied(self.st.pc, present):
                return val[2].seq
            below = self._resolve_list(rest, ref, base)
            if val is None:
                return below
            return self.th.norm((Guard(present, val[2].seq), Guard(z_not(present), below)))
        raise Unsupported('mixed writes to a list field')

    def last_match(self, seq, pred):
        """(formula: some element matches, value of the last matching one) over a sequence expression"""
        cond, val = z3.BoolVal(False), None
        for s in seq:
            if isinstance(s, Unit):
                c, v = zb(pred(s.v)), s.v
            elif isinstance(s, Guard):
                c, v = self.last_match(s.body, pred)
                c = z_and(s.c, c)
            elif isinstance(s, Comp):
                b, n, body = open_comp(s)
                c1, v1 = self.last_match(body, pred)
                if v1 is None:
                    continue
                c = self.th.EX(n, b, c1)
                v = self.without_index(v1, b, c1)
                if v is None:
                    v = subst(v1, [(b, self.th.LAST(n, b, c1))])
            else:
                if s.ety is None:
                    raise Unsupported('search in a loop-carried sequence')
                b = fresh_binder()
                el = self.th.at(s.t, s.ety, b)
                c1 = zb(pred(el))
                c = self.th.EX(_len(s.t), b, c1)
                v = subst(el, [(b, self.th.LAST(_len(s.t), b, c1))])
            c = z3.simplify(c)
            if is_false(c) or v is None:
                continue
            if val is None or is_true(c):
                cond, val = c, v
            else:
                val = self.th.merge_vals([(c, v), (z_not(c), val)])
                cond = z_or(c, cond)
        return cond, val

    def without_index(self, v, b, c):
        """v under c, without the index b, when c says that what depends on b in v is something else"""
        bn = b.decl().name()
        if bn not in value_consts(v):
            return v
        for e in (c.children() if z3.is_and(c) else [c]):
            if z3.is_eq(e):
                for u, x in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if bn in free_consts(u) and bn not in free_consts(x) and not u.eq(b):
                        w = subst(v, [(u, x)])
                        if bn not in value_consts(w):
                            return w
        return None

    def read_field(self, ref, field):
        sch = self.schema(ref)
        ty = sch.fields[field]
        if ty.kind == 'list':
            return FieldList(ref, field)
        base = self.field_base(ref, field)
        log = self.field_log(ref, field)
        if not log:
            return base
        present, ev = self.last_match(log, lambda e: self._ref_eq(e[0], ref))
        if ev is None:
            return base
        if self.sv.implied(self.st.pc, present):
            return ev[2]
        return self.th.merge_vals([(present, ev[2]), (z_not(present), base)])

    def write_field(self, ref, field, value):
        sch = self.schema(ref)
        if field not in sch.fields:
            raise Unsupported('field %s of %s has no declared type' % (field, sch.name))
        v = self.freeze(value)
        if sch.fields[field].kind == 'list' and not isinstance(v, SeqVal):
            if isinstance(v, tuple):
                v = SeqVal(tuple(Unit(x) for x in v), 'tuple')
            else:
                raise Unsupported('list field assigned a non-list')
        self.log_event(ref, field, 'set', v)

    # SEQUENCES OF VALUES
    # ------------------------------------------------------------------------

    def force(self, v):
        """Chooses one alternative of a Choice (forks)"""
        while isinstance(v, Choice):
            alts = v.alts
            for c, x in alts[:-1]:
                if self.decide(c):
                    v = x
                    break
            else:
                v = alts[-1][1]
                self.decide(alts[-1][0])
        if v is UNBOUND:
            raise Unsupported('possibly unbound variable')
        if isinstance(v, Undefined):
            self.untracked(v)
        return v

    def untracked(self, v):
        if isinstance(v, LoopTemp):
            raise LoopCarried(v.loc)
        raise Unsupported('untracked value: ' + v.why)

    def seq_of(self, v, ordered=True):
        """Sequence expression of an iterable"""
        v = self.force(v)
        if isinstance(v, Addr):
            r = self.rec(v)
            if isinstance(r, ListObj):
                return r.seq
            if isinstance(r, SetObj):
                return self.bi.set_order(self, r.seq, ordered)
            if isinstance(r, DictObj):
                return self.bi.dict_keys(self, r)
            if isinstance(r, InstObj):
                m = r.cls.lookup('__iter__')
                if m is not None:
                    it = self.force(self.call(self.bind(m, v, r.cls), [], {}))
                    if it == v:
                        return self.bi.iterator_protocol(self, v)
                    return self.seq_of(it)
                raise Unsupported('iterating %s' % r.cls.name)
        if isinstance(v, SeqVal):
            return v.seq
        if isinstance(v, FieldList):
            return self.field_seq(v)
        if isinstance(v, self.bi.DictSlot):
            return self.bi.slot_seq(self, v)
        if isinstance(v, MapVal):
            return self.bi.dict_keys(self, DictObj((Unit(('base', v, None)),)))
        if isinstance(v, tuple):
            return tuple(Unit(x) for x in v)
        if isinstance(v, str):
            return tuple(Unit(x) for x in v)
        if isinstance(v, range):
            if len(v) <= 2000:
                return tuple(Unit(x) for x in v)
        if isinstance(v, RangeVal):
            b = fresh_binder()
            return (Comp(b, v.count(self), (Unit(Sym(TInt, z3.simplify(v.lo + b * v.step))),)),)
        if isinstance(v, FrozenSet):
            return self.bi.set_order(self, v.seq, ordered)
        if isinstance(v, FrozenMap):
            return self.bi.dict_keys(self, DictObj(v.seq, v.kind))
        if isinstance(v, (set, frozenset)):
            return self.bi.set_order(self, tuple(Unit(x) for x in v), ordered)
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return tuple(Unit(m) for m in v)
        if isinstance(v, Sym) and v.ty.kind == 'ref':
            sch = self.schema(v)
            if sch.cls is not None and sch.cls.lookup('__iter__') is not None:
                return self.seq_of(self.call(self.bind(sch.cls.lookup('__iter__'), v, sch.cls), [], {}))
        if isinstance(v, Sym) and v.ty == TStr:
            b = fresh_binder()
            return (Comp(b, z3.Length(v.t), (Unit(Sym(TStr, z3.SubString(v.t, b, 1))),)),)
        if isinstance(v, ObjVal):
            m = v.cls.lookup('__iter__')
            if m is not None:
                return self.seq_of(self.call(self.bind(m, v, v.cls), [], {}))
        raise Unsupported('iterating %r' % (v,))

    def nonempty(self, seq):
        out = []
        for s in seq:
            if isinstance(s, Unit):
                return z3.BoolVal(True)
            if isinstance(s, Var):
                out.append(_len(s.t) > 0)
            elif isinstance(s, Guard):
                out.append(z_and(s.c, self.nonempty(s.body)))
            else:
                b, n, body = open_comp(s)
                out.append(self.th.EX(n, b, self.nonempty(body)))
        return z_or(*out)

    def truth(self, v):
        """bool or z3 Bool"""
        if isinstance(v, Choice):
            return z_or(*[z_and(c, zb(self.truth(x))) for c, x in v.alts])
        if v is None:
            return False
        if isinstance(v, Undefined):
            self.untracked(v)
        if isinstance(v, Sym):
            k = v.ty.kind
            if k == 'bool':
                return v.t
            if k in ('int', 'enum'):
                return v.t != 0
            if k == 'real':
                return v.t != 0
            if k == 'str':
                return v.t != z3.StringVal('')
            if k == 'ref':
                cls = self.schema(v).cls
                if cls is not None and (cls.lookup('__len__') or cls.lookup('__bool__')):
                    raise Unsupported('truth of a sized object')
                for m in ('__bool__', '__len__'):
                    if m in self.schema(v).methods:
                        return self.truth(self.call(SchemaMethod(self.schema(v), m, v), [], {}))
                return True
            raise Unsupported('truth of %s' % v.ty)
        if isinstance(v, Addr):
            r = self.rec(v)
            if isinstance(r, (ListObj, SetObj)):
                if self.bi.is_array(self, v):
                    raise Unsupported('truth of an array')
                return self.nonempty(r.seq)
            if isinstance(r, DictObj):
                return self.bi.dict_nonempty(self, r)
            if isinstance(r, InstObj):
                if r.cls.lookup('__bool__') is not None:
                    return self.truth(self.call(self.bind(r.cls.lookup('__bool__'), v, r.cls), [], {}))
                if r.cls.lookup('__len__') is not None:
                    return self.truth(self.call(self.bind(r.cls.lookup('__len__'), v, r.cls), [], {}))
                return True
        if isinstance(v, SeqVal):
            return self.nonempty(v.seq)
        if isinstance(v, FieldList):
            return self.nonempty(self.field_seq(v))
        if isinstance(v, self.bi.DictSlot):
            return self.nonempty(self.bi.slot_seq(self, v))
        if isinstance(v, FrozenSet):
            return self.nonempty(v.seq)
        if isinstance(v, FrozenMap):
            return self.bi.dict_nonempty(self, DictObj(v.seq, v.kind))
        if isinstance(v, (MapVal, SetVal)):
            raise Unsupported('truth of a symbolic map')
        if isinstance(v, RangeVal):
            return v.count(self) > 0
        if isinstance(v, (PyFunc, BoundMethod, ClassVal, OpaqueFn, ObjVal, Ext, MatchVal)):
            return True
        return bool(v)

    def truth_val(self, v):
        t = self.truth(v)
        return t if isinstance(t, bool) else lift(TBool, t)

    def equals(self, a, b):
        """bool or z3 Bool: a == b"""
        if isinstance(a, Choice):
            return z_or(*[z_and(c, zb(self.equals(x, b))) for c, x in a.alts])
        if isinstance(b, Choice):
            return self.equals(b, a)
        for v in (a, b):
            if isinstance(v, Undefined):
                self.untracked(v)
            if isinstance(v, Sym) and v.ty.kind == 'ref' and '__eq__' in self.schema(v).methods:
                return self.truth(self.call(SchemaMethod(self.schema(v), '__eq__', v), [b if v is a else a], {}))
        e = self.th.eq_term(a, b)
        if e is not None:
            return True if is_true(e) else False if is_false(e) else e
        if isinstance(a, Addr) and isinstance(b, Addr):
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, InstObj) or isinstance(rb, InstObj):
                if isinstance(ra, InstObj) and isinstance(rb, InstObj) and not ra.cls.lookup('__eq__'):
                    return False
                raise Unsupported('equality of objects')
        sa, sb = self._maybe_seq(a), self._maybe_seq(b)
        if self.bi.is_array(self, a) or self.bi.is_array(self, b):
            raise Unsupported('comparison of arrays')
        if sa is not None and sb is not None:
            ua, ub = self.th.units(sa), self.th.units(sb)
            if ua is not None and ub is not None:
                if len(ua) != len(ub):
                    return False
                return z3.simplify(z_and(*[zb(self.equals(x, y)) for x, y in zip(ua, ub)]))
            if ua is not None and not ua:
                return z_not(zb(self.nonempty(sb)))
            if ub is not None and not ub:
                return z_not(zb(self.nonempty(sa)))
            ra = self.th.reify(self.freeze_seq(sa))
            rb = self.th.reify(self.freeze_seq(sb))
            return ra == rb
        if type(a) is not type(b) or isinstance(a, (PyFunc, ClassVal, Ext, type, bytes)):
            if isinstance(a, (Undefined, OpaqueFn)) or isinstance(b, (Undefined, OpaqueFn)):
                raise Unsupported('comparison of %r and %r' % (a, b))
            return a is b
        raise Unsupported('comparison of %r and %r' % (a, b))

    def _maybe_seq(self, v):
        if isinstance(v, Addr) and isinstance(self.st.heap.get(v), ListObj):
            return self.rec(v).seq
        if isinstance(v, SeqVal):
            return v.seq
        if isinstance(v, FieldList):
            return self.field_seq(v)
        if isinstance(v, self.bi.DictSlot):
            return self.bi.slot_seq(self, v)
        if isinstance(v, tuple):
            return tuple(Unit(x) for x in v)
        return None

    def contains(self, x, ctr):
        """bool or z3 Bool: x in ctr"""
        if isinstance(ctr, Choice):
            return z_or(*[z_and(c, zb(self.contains(x, v))) for c, v in ctr.alts])
        if isinstance(x, Choice) and not isinstance(ctr, Choice):
            return z_or(*[z_and(c, zb(self.contains(v, ctr))) for c, v in x.alts])
        if isinstance(ctr, SetVal):
            return self.th.uf('inset<%s>' % ctr.kty.key, [ctr.t] + self.flat_terms(x), z3.BoolSort())
        if isinstance(ctr, MapVal):
            return self.bi.map_has(self, ctr, x)
        if isinstance(ctr, Addr):
            r = self.rec(ctr)
            if isinstance(r, DictObj):
                return self.bi.dict_has(self, r, x)
            if isinstance(r, InstObj):
                m = r.cls.lookup('__contains__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, ctr, r.cls), [x], {}))
                return self.contains(x, SeqVal(self.seq_of(ctr)))
            seq = r.seq
        elif isinstance(ctr, FrozenMap):
            return self.bi.dict_has(self, DictObj(ctr.seq, ctr.kind), x)
        elif isinstance(ctr, self.bi.DictSlot) and self.bi.slot_kind(self, ctr) != 'list':
            return self.bi.slot_has(self, ctr, x)
        elif isinstance(ctr, str):
            if isinstance(x, str):
                return x in ctr
            return z3.Contains(z3.StringVal(ctr), term(x))
        elif isinstance(ctr, Sym) and ctr.ty == TStr:
            return z3.Contains(ctr.t, term(x))
        elif isinstance(ctr, Sym) and ctr.ty.kind == 'ref':
            return self.truth(self.call(self.getattr(ctr, '__contains__'), [x], {}))
        elif isinstance(ctr, RangeVal):
            if to_int_if_concrete(ctr.step) == 1:
                return z3.And(term(x) >= ctr.lo, term(x) < ctr.hi)
            raise Unsupported('in range')
        elif isinstance(ctr, (set, frozenset)):
            seq = tuple(Unit(y) for y in ctr)
        elif isinstance(ctr, FrozenSet):
            seq = ctr.seq
        else:
            seq = self.seq_of(ctr)
        us = self.th.units(seq)
        if us is not None:
            parts = [zb(self.equals(x, y)) for y in us]
            return z3.simplify(z_or(*parts)) if parts else False
        r = self.th.exists(seq, lambda y: self.equals(x, y))
        if r is None:
            # Loop-carried sequence: opaque membership
            return self.th.opaque('MEM', (self.freeze(x), SeqVal(self.freeze_seq(seq))), z3.BoolSort())
        return r

    def flat_terms(self, v):
        """z3 arguments for a value (tuples are flattened)"""
        v = self.force(v)
        if isinstance(v, tuple):
            return [t for x in v for t in self.flat_terms(x)]
        if isinstance(v, (MapVal, SetVal)):
            return [v.t]
        if v is None:
            return []
        if isinstance(v, (Addr, SeqVal, FieldList)):
            return [self.th.reify(self.freeze_seq(self.seq_of(v)))]
        return [term(v)]

    # EXCEPTIONS
    # ------------------------------------------------------------------------

    def throw(self, name, *args):
        cls = self.builtins[name]
        raise PyRaise(self.alloc(InstObj(cls, {'args': tuple(args)})))

    def exc_class(self, exc):
        if isinstance(exc, ClassVal):
            return exc
        if isinstance(exc, Addr):
            return self.rec(exc).cls
        if isinstance(exc, ObjVal):
            return exc.cls
        raise Unsupported('raising %r' % (exc,))

    # STATEMENTS
    # ------------------------------------------------------------------------

    def exec_block(self, st, stmts, fr):
        outs = []
        cur = st
        for stmt in stmts:
            res = self.exec_stmt(cur, stmt, fr)
            normal = [o for o in res if o.kind == NORMAL]
            other = [o for o in res if o.kind != NORMAL]
            outs.extend(other)
            if not normal:
                return outs
            cur = self.merge_states(cur, [o.st for o in normal], exhaustive=not other)
        outs.append(Outcome(NORMAL, None, cur))
        return outs

    def exec_stmt(self, st, stmt, fr):
        m = getattr(self, 'st_' + type(stmt).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (type(stmt).__name__, getattr(stmt, 'lineno', '?')))
        return self.explore(st, lambda: m(stmt, fr))

    def ok(self):
        return [Outcome(NORMAL, None, self.st)]

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return self.ok()
        self.eval(s.value, fr)
        return self.ok()

    def st_Pass(self, s, fr):
        return self.ok()

    def st_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return self.ok()

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)
        return self.ok()

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(t.id, ast.Load(), lineno=s.lineno), fr)
            self.set_var(t.id, self.aug(s.op, cur, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.force(self.eval(t.value, fr))
            name = mangle(t.attr, fr.cls)
            cur = self.getattr(obj, name)
            self.setattr(obj, name, self.aug(s.op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            obj = self.force(self.eval(t.value, fr))
            key = self.eval(t.slice, fr)
            val = self.eval(s.value, fr)
            if isinstance(obj, Addr) and isinstance(self.rec(obj), DictObj) and isinstance(s.op, ast.Add) \
                    and is_scalar(self.force(val)) and scalar_type(self.force(val)) in (TInt, TReal, TBool):
                self.bi.dict_add(self, obj, key, self.force(val))
            else:
                cur = self.bi.getitem(self, obj, key)
                self.bi.setitem(self, obj, key, self.aug(s.op, cur, val))
        else:
            raise Unsupported('augmented assignment')
        return self.ok()

    def aug(self, op, cur, val):
        cur = self.force(cur)
        if isinstance(cur, (Addr, FieldList)) and isinstance(op, ast.Add) and self._maybe_seq(cur) is not None:
            self.bi.list_extend(self, cur, self.seq_of(val))
            return cur
        if isinstance(cur, Addr) and isinstance(op, ast.BitOr) and isinstance(self.rec(cur), SetObj):
            self.put(cur, SetObj(self.rec(cur).seq + self.seq_of(val, ordered=False)))
            return cur
        if isinstance(cur, Sym) and cur.ty.kind == 'ref' and isinstance(op, ast.Add) and '__iadd__' in self.schema(cur).methods:
            return self.call(SchemaMethod(self.schema(cur), '__iadd__', cur), [val], {})
        return self.binop(op, cur, val)

    def st_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else None
        return [Outcome(RETURN, v, self.st)]

    def st_Raise(self, s, fr):
        if s.exc is None:
            cur = self.lookup_var('@exc', fr)
            raise PyRaise(cur)
        v = self.force(self.eval(s.exc, fr))
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def st_Assert(self, s, fr):
        if not self.decide(self.truth(self.eval(s.test, fr))):
            self.throw('AssertionError')
        return self.ok()

    def st_If(self, s, fr):
        c = self.cond(s.test, fr)
        if self.decide(c):
            return self.exec_block(self.st, s.body, fr)
        return self.exec_block(self.st, s.orelse, fr)

    def st_Break(self, s, fr):
        return [Outcome(BREAK, None, self.st)]

    def st_Continue(self, s, fr):
        return [Outcome(CONTINUE, None, self.st)]

    def st_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.decorate(self.eval(d, fr), f)
        self.set_var(s.name, f, fr)
        return self.ok()

    def st_Import(self, s, fr):
        for a in s.names:
            m = self.loader.load(a.name)
            if a.asname:
                self.set_var(a.asname, m, fr)
            else:
                self.set_var(a.name.split('.')[0], self.loader.load(a.name.split('.')[0]), fr)
        return self.ok()

    def st_ImportFrom(self, s, fr):
        m = self.loader.load(s.module)
        for a in s.names:
            self.set_var(a.asname or a.name, self.loader.member(m, a.name), fr)
        return self.ok()

    def st_ClassDef(self, s, fr):
        self.set_var(s.name, self.loader.make_class(s, fr), fr)
        return self.ok()

    def st_Nonlocal(self, s, fr):
        sc = self.rec(fr.scope)
        v = dict(sc.vars)
        v['@nonlocal'] = tuple(sorted(set(v.get('@nonlocal', ())) | set(s.names)))
        self.put(fr.scope, ScopeObj(v))
        return self.ok()

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                v = dict(self.rec(fr.scope).vars)
                v.pop(t.id, None)
                self.put(fr.scope, ScopeObj(v))
            elif isinstance(t, ast.Subscript):
                obj = self.force(self.eval(t.value, fr))
                self.bi.delitem(self, obj, self.eval(t.slice, fr))
            else:
                raise Unsupported('del')
        return self.ok()

    def st_With(self, s, fr):
        for item in s.items:
            ctx = self.force(self.eval(item.context_expr, fr))
            v = self.bi.enter_context(self, ctx)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        return self.exec_block(self.st, s.body, fr)

    def st_Try(self, s, fr):
        base = self.st
        outs = []
        res = self.exec_block(self.st, s.body, fr)
        handled = []
        for o in res:
            if o.kind != RAISE:
                handled.append(o)
                continue
            cls = self.exc_class_in(o.val, o.st)
            for h in s.handlers:
                if h.type is None:
                    match = True
                else:
                    self.st, keep = o.st, self.st
                    ht = self.force(self.eval(h.type, fr))
                    self.st = keep
                    types = ht if isinstance(ht, tuple) else (ht,)
                    match = any(cls.issub(t) for t in types)
                if match:
                    st = o.st.fork()
                    if h.name:
                        sc = ScopeObj(dict(st.heap[fr.scope].vars))
                        sc.vars[h.name] = o.val
                        st.heap[fr.scope] = sc
                    sc = ScopeObj(dict(st.heap[fr.scope].vars))
                    sc.vars['@exc'] = o.val
                    st.heap[fr.scope] = sc
                    handled.extend(self.exec_block(st, h.body, fr))
                    break
            else:
                handled.append(o)
        if s.orelse:
            out2 = []
            for o in handled:
                # Only the normal completion of the body runs the else clause
                if o.kind == NORMAL and o in res:
                    out2.extend(self.exec_block(o.st, s.orelse, fr))
                else:
                    out2.append(o)
            handled = out2
        if s.finalbody:
            for o in handled:
                for f in self.exec_block(o.st, s.finalbody, fr):
                    outs.append(Outcome(o.kind, o.val, f.st) if f.kind == NORMAL else f)
        else:
            outs = handled
        return outs

    def exc_class_in(self, exc, st):
        if isinstance(exc, Addr):
            return st.heap[exc].cls
        return self.exc_class(exc)

    # LOOPS
    # ------------------------------------------------------------------------

    def st_For(self, s, fr):
        handles = self.bi.entries_iteration(self, s, fr)
        if handles is not None:
            keys, target = handles

            def entry(st, k):
                def run():
                    self.assign(s.target, target(k), fr)
                    return self.exec_block(self.st, s.body, fr)

                return self.explore(st, run)

            return self.after_loop(self.loop(self.st, keys, entry), s.orelse, fr)
        it = self.force(self.eval(s.iter, fr))
        live = self.bi.live_iteration(self, it, s, fr)
        if live is not None:
            return live
        if isinstance(it, Addr):
            self.bi.settle_objects(self, it)
        seq = self.seq_of(it)
        objs = None
        if isinstance(it, Addr) and isinstance(self.rec(it), ListObj):
            from .loops import object_list
            objs = object_list(self.th, seq)
            if objs is not None:
                b = fresh_binder()
                seq = (Comp(b, objs.n, (Unit(Sym(TInt, b)),)),)

        def body(st, v):
            def run():
                x = v if objs is None else self.bi.getitem(self, it, v)
                self.assign(s.target, x, fr)
                return self.exec_block(self.st, s.body, fr)

            return self.explore(st, run)

        outs = self.loop(self.st, seq, body)
        return self.after_loop(outs, s.orelse, fr)

    def after_loop(self, outs, orelse, fr):
        res = []
        for o in outs:
            if o.kind == BREAK:
                res.append(Outcome(NORMAL, None, o.st))
            elif o.kind == NORMAL and orelse:
                res.extend(self.exec_block(o.st, orelse, fr))
            else:
                res.append(o)
        return res

    def loop(self, st, seq, body):
        """Runs body(st, element) -> outcomes over a sequence expression.
        Outcomes: NORMAL (one state: completed), BREAK, RETURN, RAISE
        """
        outs = []
        cur = st
        for seg in seq:
            if isinstance(seg, Unit):
                res = body(cur, seg.v)
            elif isinstance(seg, Guard):
                def run(seg=seg):
                    if self.decide(seg.c):
                        return self.loop(self.st, seg.body, body)
                    return self.ok()

                res = self.explore(cur, run)
            elif isinstance(seg, Var):
                def run_at(st2, i, seg=seg):
                    return body(st2, self.th.at(seg.t, seg.ety, i))

                if seg.ety is None:
                    raise Unsupported('iterating a sequence of unknown elements')
                res = self.summarise(cur, _len(seg.t), run_at)
            else:
                k = to_int_if_concrete(seg.n)
                if k is not None and k <= 200:
                    res = self.loop(cur, tuple(x for i in range(k) for x in subst(seg.body, [(seg.b, z3.IntVal(i))])),
                                    body)
                else:
                    def run_comp(st2, i, seg=seg):
                        return self.loop(st2, subst(seg.body, [(seg.b, i)]), body)

                    res = self.summarise(cur, zint(seg.n), run_comp)
            normal = [o for o in res if o.kind in (NORMAL, CONTINUE)]
            other = [o for o in res if o.kind not in (NORMAL, CONTINUE)]
            outs.extend(other)
            if not normal:
                return outs
            cur = self.merge_states(cur, [o.st for o in normal], exhaustive=not other)
        outs.append(Outcome(NORMAL, None, cur))
        return outs

    def summarise(self, st, n, run):
        from .loops import Summary
        return Summary(self, st, n, run).outcomes()

    def st_While(self, s, fr):
        from .loops import while_loop
        return while_loop(self, s, fr)

    # VARIABLES
    # ------------------------------------------------------------------------

    def lookup_var(self, name, fr):
        addr = fr.scope
        while addr is not None:
            sc = self.rec(addr)
            if name in sc.vars and name not in sc.vars.get('@nonlocal', ()):
                return sc.vars[name]
            addr = sc.vars.get('@parent')
        if fr.module is not None and name in fr.module.vars:
            return fr.module.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw('NameError', name)

    def set_var(self, name, v, fr):
        if fr.scope is None:
            fr.module.vars[name] = v
            return
        addr = fr.scope
        sc = self.rec(addr)
        while name in sc.vars.get('@nonlocal', ()):
            addr = sc.vars.get('@parent')
            sc = self.rec(addr)
            if name in sc.vars and name not in sc.vars.get('@nonlocal', ()):
                break
        d = dict(sc.vars)
        d[name] = v
        self.put(addr, ScopeObj(d))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_var(mangle(t.id, fr.cls) if fr.scope is None and False else t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.force(self.eval(t.value, fr)), mangle(t.attr, fr.cls), v)
        elif isinstance(t, ast.Subscript):
            obj = self.force(self.eval(t.value, fr))
            self.bi.setitem(self, obj, self.eval(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, targets, v, fr):
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float)):
            self.throw('TypeError')
        stars = [i for i, t in enumerate(targets) if isinstance(t, ast.Starred)]
        seq = self.seq_of(v)
        us = self.th.units(seq)
        if us is None:
            ln = self.th.seq_len(seq)
            if not stars:
                if not self.decide(ln == len(targets)):
                    self.throw('ValueError')
                us = [self.th.get(seq, i) for i in range(len(targets))]
            else:
                k, after = stars[0], len(targets) - stars[0] - 1
                if not self.decide(ln >= len(targets) - 1):
                    self.throw('ValueError')
                for i in range(k):
                    self.assign(targets[i], self.th.get(seq, i), fr)
                self.assign(targets[k].value, self.new_list(self.th.slice(seq, k, z3.simplify(ln - after))), fr)
                for j in range(after):
                    self.assign(targets[k + 1 + j], self.th.get(seq, z3.simplify(ln - after + j)), fr)
                return
        if stars:
            k = stars[0]
            after = len(targets) - k - 1
            if len(us) < len(targets) - 1:
                self.throw('ValueError')
            mid = us[k:len(us) - after]
            vals = us[:k] + [self.new_list(tuple(Unit(x) for x in mid))] + us[len(us) - after:]
            targets = [t.value if isinstance(t, ast.Starred) else t for t in targets]
        else:
            vals = us
        if len(vals) != len(targets):
            self.throw('ValueError')
        for t, x in zip(targets, vals):
            self.assign(t, x, fr)

    # EXPRESSIONS
    # ------------------------------------------------------------------------

    def eval(self, e, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %s)' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, fr)

    def cond(self, e, fr):
        """bool or z3 Bool of a test expression"""
        return self.truth(self.eval(e, fr))

    def ex_Constant(self, e, fr):
        return e.value

    def ex_Name(self, e, fr):
        v = self.lookup_var(e.id, fr)
        return v

    def ex_Tuple(self, e, fr):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                seq = self.seq_of(self.eval(x.value, fr))
                us = self.th.units(seq)
                if us is None:
                    raise Unsupported('starred element in a tuple')
                vals.extend(us)
            else:
                vals.append(self.eval(x, fr))
        return tuple(vals)

    def _elts(self, elts, fr):
        seq = ()
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = seq + self.seq_of(self.eval(x.value, fr))
            else:
                seq = seq + (Unit(self.eval(x, fr)),)
        return seq

    def ex_List(self, e, fr):
        return self.new_list(self._elts(e.elts, fr))

    def ex_Set(self, e, fr):
        return self.new_set(self._elts(e.elts, fr))

    def ex_Dict(self, e, fr):
        seq = ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                seq = seq + self.bi.dict_log(self, self.force(self.eval(v, fr)))
            else:
                key = self.eval(k, fr)
                seq = seq + (Unit(('set', key, self.eval(v, fr))),)
        return self.new_dict(seq)

    def ex_JoinedStr(self, e, fr):
        out = ''
        for p in e.values:
            if isinstance(p, ast.Constant):
                out = self.bi.str_concat(self, out, p.value)
            else:
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    raise Unsupported('format specification')
                out = self.bi.str_concat(self, out, self.bi.to_str(self, self.eval(p.value, fr)))
        return out

    def ex_BoolOp(self, e, fr):
        v = self.eval(e.values[0], fr)
        for nxt in e.values[1:]:
            t = self.truth(v)
            if isinstance(t, bool) or is_true(t) or is_false(t):
                tv = t if isinstance(t, bool) else is_true(t)
                if tv == isinstance(e.op, ast.Or):
                    return v
                v = self.eval(nxt, fr)
                continue
            isand = isinstance(e.op, ast.And)
            if not isand and isinstance(nxt, ast.List) and not nxt.elts and isinstance(v, SeqVal) and v.kind == 'list':
                continue  # xs or []: an empty xs is as good as a new empty list, it is a value nobody else holds
            ok, w = self.speculate(lambda: self.eval(nxt, fr), t if isand else z_not(t))
            if ok:
                boolish = (isinstance(v, bool) or isinstance(v, Sym) and v.ty == TBool)
                if boolish and (isinstance(w, bool) or isinstance(w, Sym) and w.ty == TBool):
                    tw = zb(self.truth(w))
                    v = lift(TBool, z_and(t, tw) if isand else z_or(t, tw))
                else:
                    v = self.th.merge_vals([(t, w), (z_not(t), v)] if isand else [(t, v), (z_not(t), w)])
                continue
            if self.decide(t):
                if not isand:
                    return v
                v = self.eval(nxt, fr)
            else:
                if isand:
                    return v
                v = self.eval(nxt, fr)
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else lift(TBool, z_not(t))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sym):
                return Sym(v.ty, -v.t)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def ex_IfExp(self, e, fr):
        t = self.cond(e.test, fr)
        if isinstance(t, bool):
            return self.eval(e.body if t else e.orelse, fr)
        ok1, v1 = self.speculate(lambda: self.eval(e.body, fr), t)
        if ok1:
            ok2, v2 = self.speculate(lambda: self.eval(e.orelse, fr), z_not(t))
            if ok2:
                return self.th.merge_vals([(t, v1), (z_not(t), v2)])
        if self.decide(t):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def ex_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.bi.binop(self, type(op).__name__, self.force(a), self.force(b))

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        parts = []
        for op, right in zip(e.ops, e.comparators):
            r = self.eval(right, fr)
            parts.append(self.compare(op, left, r))
            left = r
        if len(parts) == 1:
            p = parts[0]
            return p if isinstance(p, bool) else lift(TBool, p)
        return lift(TBool, z3.simplify(z_and(*[zb(p) for p in parts])))

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ('Eq', 'NotEq'):
            r = self.equals(a, b)
        elif o in ('Is', 'IsNot'):
            r = self.identical(a, b)
        elif o in ('In', 'NotIn'):
            r = self.contains(a, b)
        else:
            return self.bi.order(self, o, self.force(a), self.force(b))
        if o in ('NotEq', 'IsNot', 'NotIn'):
            return (not r) if isinstance(r, bool) else z_not(r)
        return r

    def identical(self, a, b):
        if isinstance(a, Choice):
            return z_or(*[z_and(c, zb(self.identical(x, b))) for c, x in a.alts])
        if isinstance(b, Choice):
            return self.identical(b, a)
        for v in (a, b):
            if isinstance(v, Undefined):
                self.untracked(v)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, Addr) and isinstance(b, Addr):
            return a == b
        if isinstance(a, Sym) and isinstance(b, Sym) and a.ty.kind == 'ref':
            return a.t == b.t
        if isinstance(a, (bool, enum.Enum)) or isinstance(b, (bool, enum.Enum)) or is_scalar(a) or is_scalar(b):
            return self.equals(a, b)
        return a is b

    def ex_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def ex_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.set_var(e.target.id, v, fr)
        return v

    def ex_Attribute(self, e, fr):
        obj = self.eval(e.value, fr)
        return self.getattr_any(obj, mangle(e.attr, fr.cls))

    def getattr_any(self, obj, name):
        if isinstance(obj, Choice):
            # Same field of several objects: no fork when every alternative has it
            vals = []
            for c, x in obj.alts:
                if not isinstance(x, (Sym, Addr, ObjVal)) or isinstance(x, Addr) and not isinstance(
                        self.st.heap.get(x), InstObj):
                    break
                ok, v = self.speculate(lambda x=x: self.getattr(x, name), c)
                if not ok or isinstance(v, (BoundMethod, Addr, NativeMethod)):
                    break
                vals.append((c, v))
            else:
                return self.th.merge_vals(vals)
        return self.getattr(self.force(obj), name)

    def ex_Subscript(self, e, fr):
        obj = self.force(self.eval(e.value, fr))
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo = self.eval(s.lower, fr) if s.lower is not None else None
            hi = self.eval(s.upper, fr) if s.upper is not None else None
            step = self.eval(s.step, fr) if s.step is not None else None
            return self.bi.getslice(self, obj, lo, hi, step)
        return self.bi.getitem(self, obj, self.eval(e.slice, fr))

    def ex_Slice(self, e, fr):
        return SliceVal(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def ex_ListComp(self, e, fr):
        return self.comprehension(e, fr, 'list')

    def ex_GeneratorExp(self, e, fr):
        a = self.comprehension(e, fr, 'list')
        return SeqVal(self.rec(a).seq, 'iter') if isinstance(a, Addr) else a

    def ex_SetComp(self, e, fr):
        return self.comprehension(e, fr, 'set')

    def ex_DictComp(self, e, fr):
        return self.comprehension(e, fr, 'dict')

    def comprehension(self, e, fr, kind):
        if kind == 'list':
            acc = self.new_list()
        elif kind == 'set':
            acc = self.new_set()
        else:
            acc = self.new_dict()
        scope = self.alloc(ScopeObj({'@parent': fr.scope}))
        cfr = Frame(scope, fr.module, fr.cls, fr.func, fr.self_val)

        def emit():
            if kind == 'dict':
                k = self.eval(e.key, cfr)
                v = self.eval(e.value, cfr)
                self.bi.dict_set(self, acc, k, v)
            elif kind == 'set':
                v = self.eval(e.elt, cfr)
                self.put(acc, SetObj(self.rec(acc).seq + (Unit(v),)))
            else:
                v = self.eval(e.elt, cfr)
                r = self.rec(acc)
                self.put(acc, ListObj(r.seq + (Unit(v),), r.kind))
            return self.ok()

        def gen(st, k):
            """Outcomes of generators k.. from st"""
            if k == len(e.generators):
                return self.explore(st, emit)
            g = e.generators[k]

            def run():
                seq = self.seq_of(self.eval(g.iter, cfr if k else Frame(fr.scope, fr.module, fr.cls, fr.func,
                                                                       fr.self_val)))

                def body(st2, v):
                    def one():
                        self.assign(g.target, v, cfr)
                        for c in g.ifs:
                            if not self.decide(self.cond(c, cfr)):
                                return self.ok()
                        return gen(self.st, k + 1)

                    return self.explore(st2, one)

                return self.loop(self.st, seq, body)

            return self.explore(st, run)

        base = self.st
        outs = gen(self.st, 0)
        self.adopt(base, outs)
        return acc

    def adopt(self, base, outs):
        """Continues the current direct-style path with the outcomes of a sub-execution (raises are re-raised)"""
        normal = [o for o in outs if o.kind in (NORMAL, CONTINUE)]
        raises = [o for o in outs if o.kind == RAISE]
        if len(normal) + len(raises) != len(outs):
            raise Unsupported('unexpected control flow')
        for i, o in enumerate(raises):
            c = self.conds_since(base, o.st)
            last = not normal and i == len(raises) - 1
            if last or self.decide(c):
                pc = self.st.pc
                self.st = o.st
                self.st.pc = pc + [x for x in o.st.pc[len(base.pc):]]
                raise PyRaise(o.val)
        pc = list(self.st.pc)
        merged = self.merge_states(base, [o.st for o in normal], exhaustive=not raises)
        extra = merged.pc[len(base.pc):]
        self.st = State(merged.heap, pc + [x for x in extra])

    # ATTRIBUTES
    # ------------------------------------------------------------------------

    def bind(self, attr, obj, cls):
        """Descriptor protocol for an attribute found on a class"""
        if isinstance(attr, (PyFunc, Builtin)):
            return BoundMethod(attr, obj)
        if isinstance(attr, PropertyVal):
            return attr
        if isinstance(attr, StaticVal):
            return attr.func
        if isinstance(attr, ClassMethodVal):
            return BoundMethod(attr.func, cls)
        return attr

    def getattr(self, obj, name):
        if isinstance(obj, Addr):
            r = self.rec(obj)
            if isinstance(r, InstObj):
                if name in r.fields:
                    v = r.fields[name]
                    if v is not UNBOUND:
                        hook = self.ext.get('@field_read')
                        if hook is not None:
                            hook(self, obj, r, name)
                        return v
                    self.throw('AttributeError', name)
                attr = r.cls.lookup(name)
                if attr is not None:
                    if isinstance(attr, PropertyVal):
                        return self.call(BoundMethod(attr.fget, obj), [], {})
                    return self.bind(attr, obj, r.cls)
                if name == '__class__':
                    return r.cls
                na = self.bi.native_attr(self, obj, r, name)
                if na is not None:
                    return na
                self.throw('AttributeError', name)
            return NativeMethod(obj, name)
        if isinstance(obj, ObjVal):
            if name in obj.fields:
                return obj.fields[name]
            attr = obj.cls.lookup(name)
            if attr is not None:
                if isinstance(attr, PropertyVal):
                    return self.call(BoundMethod(attr.fget, obj), [], {})
                return self.bind(attr, obj, obj.cls)
            self.throw('AttributeError', name)
        if isinstance(obj, Sym) and obj.ty.kind == 'ref':
            sch = self.schema(obj)
            if sch.get is not None:
                return sch.get(self, obj, name)
            if name in sch.fields:
                return self.read_field(obj, name)
            if name in sch.methods:
                return SchemaMethod(sch, name, obj)
            if sch.cls is not None:
                attr = sch.cls.lookup(name)
                if attr is not None:
                    if isinstance(attr, PropertyVal):
                        return self.call(BoundMethod(attr.fget, obj), [], {})
                    return self.bind(attr, obj, sch.cls)
            raise Unsupported('attribute %s of a symbolic %s' % (name, sch.name))
        if isinstance(obj, ClassVal):
            attr = obj.lookup(name)
            if attr is not None:
                if isinstance(attr, StaticVal):
                    return attr.func
                if isinstance(attr, ClassMethodVal):
                    return BoundMethod(attr.func, obj)
                return attr
            if name == '__name__':
                return obj.name
            if name == '__init__':
                return NativeMethod(obj, '__init__')
            self.throw('AttributeError', name)
        if isinstance(obj, ModuleVal):
            return self.loader.member(obj, name)
        if isinstance(obj, SuperVal):
            attr = obj.lookup(name)
            if attr is None:
                if name == '__init__':
                    return NativeMethod(obj, '__init__')
                raise Unsupported('super().%s' % name)
            if isinstance(attr, PropertyVal):
                return self.call(BoundMethod(attr.fget, obj.obj), [], {})
            return self.bind(attr, obj.obj, obj.cls)
        if isinstance(obj, Ext):
            return self.bi.ext_attr(self, obj, name)
        from .ext import PathVal, _path_attr
        if isinstance(obj, PathVal):
            return _path_attr(self, obj, name)
        if isinstance(obj, enum.Enum) and name in ('value', 'name'):
            return getattr(obj, name)
        if isinstance(obj, Sym) and obj.ty.kind == 'enum':
            if name == 'value':
                return Sym(TInt, obj.t)
            if name == 'name':
                members = list(obj.ty.args[0])
                return self.th.merge_vals([(obj.t == int(m.value), m.name) for m in members])
        if isinstance(obj, type) and issubclass(obj, enum.Enum):
            return getattr(obj, name)
        if obj is None:
            self.throw('AttributeError', name)
        if isinstance(obj, PyFunc) and name in ('__name__', '__qualname__'):
            return obj.name
        return NativeMethod(obj, name)

    def setattr(self, obj, name, v):
        if isinstance(obj, Addr):
            r = self.rec(obj)
            if not isinstance(r, InstObj):
                raise Unsupported('attribute of a %s' % type(r).__name__)
            attr = r.cls.lookup(name)
            if isinstance(attr, PropertyVal):
                if attr.fset is None:
                    self.throw('AttributeError', name)
                self.call(BoundMethod(attr.fset, obj), [v], {})
                return
            d = dict(r.fields)
            d[name] = v
            self.put(obj, InstObj(r.cls, d))
        elif isinstance(obj, Sym) and obj.ty.kind == 'ref':
            sch = self.schema(obj)
            if sch.set is not None:
                return sch.set(self, obj, name, v)
            attr = sch.cls.lookup(name) if sch.cls is not None else None
            if isinstance(attr, PropertyVal) and name not in sch.fields:
                self.call(BoundMethod(attr.fset, obj), [v], {})
                return
            self.write_field(obj, name, v)
        elif obj is None:
            self.throw('AttributeError', name)
        elif isinstance(obj, ClassVal) and self.st.heap is self.base_heap:
            obj.attrs[name] = v
        else:
            raise Unsupported('assigning an attribute of %r' % (obj,))

    # CALLS
    # ------------------------------------------------------------------------

    def make_func(self, node, fr):
        args = node.args
        defaults = [self.eval(d, fr) for d in args.defaults]
        kw_defaults = [self.eval(d, fr) if d is not None else None for d in args.kw_defaults]
        name = getattr(node, 'name', '<lambda>')
        prefix = fr.func.qualname + '.' if fr.func is not None else (
            (fr.cls.qualname + '.') if fr.cls is not None else (fr.module.name + '.' if fr.module else ''))
        return PyFunc(node, fr.scope, fr.module, fr.cls, name, prefix + name, defaults, kw_defaults)

    def decorate(self, d, f):
        if isinstance(d, DecoratorVal):
            return d.fn(self, f)
        d = self.force(d)
        return self.call(d, [f], {})

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return SuperVal(fr.cls, fr.self_val)
        fn = self.eval(e.func, fr)
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                seq = self.seq_of(v)
                us = self.th.units(seq)
                if us is not None and star is None:
                    args.extend(us)
                else:
                    # Argument list of unknown length
                    pre = tuple(Unit(x) for x in args) if star is None else star
                    star = pre + seq
            else:
                v = self.eval(a, fr)
                if star is not None:
                    star = star + (Unit(v),)
                else:
                    args.append(v)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, fr))
                for key, val in self.bi.concrete_dict(self, d):
                    kwargs[key] = val
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if star is not None:
            args = StarArgs(star)
        return self.call(fn, args, kwargs)

    def call(self, fn, args, kwargs):
        fn = self.force(fn)
        if isinstance(fn, BoundMethod):
            if isinstance(args, StarArgs):
                args = StarArgs((Unit(fn.obj),) + args.seq)
            else:
                args = [fn.obj] + list(args)
            return self.call(fn.func, args, kwargs)
        if isinstance(fn, PyFunc):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, NativeMethod):
            return self.bi.call_method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, Builtin):
            return fn.fn(self, args, kwargs)
        if isinstance(fn, SchemaMethod):
            return fn.schema.methods[fn.name](self, fn.obj, args, kwargs)
        if isinstance(fn, OpaqueFn):
            return self.call_opaque(fn, args)
        if isinstance(fn, Ext):
            return self.bi.ext_call(self, fn, args, kwargs)
        if isinstance(fn, Addr):
            r = self.rec(fn)
            if isinstance(r, InstObj):
                m = r.cls.lookup('__call__')
                if m is not None:
                    return self.call(self.bind(m, fn, r.cls), args, kwargs)
        if isinstance(fn, ObjVal):
            m = fn.cls.lookup('__call__')
            if m is not None:
                return self.call(self.bind(m, fn, fn.cls), args, kwargs)
        if isinstance(fn, Sym) and fn.ty.kind == 'ref':
            return self.call(self.getattr(fn, '__call__'), args, kwargs)
        if isinstance(fn, type) and issubclass(fn, enum.Enum):
            return self.bi.enum_call(self, fn, args)
        if isinstance(fn, DecoratorVal):
            return fn.fn(self, args[0])
        if fn is None:
            self.throw('TypeError')
        raise Unsupported('calling %r' % (fn,))

    def call_opaque(self, fn, args):
        """Uninterpreted function given by a contract"""
        if fn.handler is not None:
            return fn.handler(self, args)
        zargs = list(fn.args)
        for a in args:
            zargs.extend(self.flat_terms(a))
        if fn.raises is not None:
            bad = self.th.uf('raises_' + fn.name, zargs, z3.BoolSort())
            if self.decide(bad):
                raise PyRaise(self.alloc(InstObj(fn.raises, {'args': ()})))
        return self.th.mk(fn.ret, 'fn_' + fn.name, zargs)

    def instantiate(self, cls, args, kwargs):
        h = self.contracts.get(cls.qualname)
        if h is not None:
            self.contract_uses[cls.qualname] = self.contract_uses.get(cls.qualname, 0) + 1
            return h(self, args, kwargs)
        if cls.native is not None:
            return cls.native(self, cls, args, kwargs)
        obj = self.alloc(InstObj(cls, {}))
        init = cls.lookup('__init__')
        if init is not None:
            if isinstance(args, StarArgs):
                self.call(init, StarArgs((Unit(obj),) + args.seq), kwargs)
            else:
                self.call(init, [obj] + list(args), kwargs)
        elif cls.is_exception():
            self.setattr(obj, 'args', tuple(args))
        elif args:
            self.throw('TypeError')
        return obj

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        bound = {}
        if isinstance(args, StarArgs):
            seq = args.seq
            lead = []
            while seq and isinstance(seq[0], Unit) and len(lead) < len(names):
                lead.append(seq[0].v)
                seq = seq[1:]
            if a.vararg is None or len(lead) < len(names):
                us = self.th.units(seq)
                if us is None:
                    raise Unsupported('unknown number of positional arguments')
                args = lead + us
            else:
                for n, v in zip(names, lead):
                    bound[n] = v
                bound[a.vararg.arg] = SeqVal(seq, 'tuple')
                args = None
        if args is not None:
            if len(args) > len(names) and a.vararg is None:
                self.throw('TypeError', 'too many arguments')
            for n, v in zip(names, args):
                bound[n] = v
            if a.vararg is not None:
                bound[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in bound and k in names:
                self.throw('TypeError', 'duplicate argument')
            if k in names or k in kwonly:
                bound[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw('TypeError', 'unexpected argument %s' % k)
        for n, d in zip(names[len(names) - len(fn.defaults):], fn.defaults):
            if n not in bound:
                bound[n] = d
        for n, d in zip(kwonly, fn.kw_defaults):
            if n not in bound:
                bound[n] = d
        if a.kwarg is not None:
            bound[a.kwarg.arg] = self.new_dict(tuple(Unit(('set', k, v)) for k, v in extra.items()))
        for n in names + kwonly:
            if n not in bound:
                self.throw('TypeError', 'missing argument %s' % n)
        return bound

    def call_func(self, fn, args, kwargs):
        h = self.contracts.get(fn.qualname)
        if h is not None and not (self.call_stack and self.call_stack[0] == ('verify', fn.qualname)
                                  and len(self.call_stack) == 1):
            self.contract_uses[fn.qualname] = self.contract_uses.get(fn.qualname, 0) + 1
            return h(self, args, kwargs)
        return self.call_body(fn, args, kwargs)

    def call_body(self, fn, args, kwargs):
        self.visited[fn.qualname] = self.visited.get(fn.qualname, 0) + 1
        if len(self.call_stack) > self.MAX_CALLS:
            raise Unsupported('recursion too deep in %s' % fn.qualname)
        depth = sum(1 for x in self.call_stack if x[1] is fn.node)
        if depth >= 1 and not self.inductive:
            for prefix, handler in self.recursive:
                if fn.qualname.startswith(prefix):
                    return handler(self, fn, args, kwargs)
        if depth >= 12:
            raise Unsupported('unbounded recursion in %s' % fn.qualname)
        bound = self.bind_args(fn, args, kwargs)
        bound['@parent'] = fn.scope
        base = self.st
        entry_pc = len(self.st.pc)
        scope = self.alloc(ScopeObj(bound))
        first = fn.node.args.posonlyargs + fn.node.args.args
        self_val = bound.get(first[0].arg) if first else None
        if fn.cls is None:
            self_val = None
        fr = Frame(scope, fn.module, fn.cls, fn, self_val)
        self.call_stack.append(('call', fn.node))
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            if self.bi.is_generator(fn.node):
                fr.yields = self.new_list()
                d = dict(self.rec(scope).vars)
                d['@yields'] = fr.yields
                self.put(scope, ScopeObj(d))
            outs = self.exec_block(self.st, fn.node.body, fr)
        finally:
            self.call_stack.pop()
        rets = []
        raises = []
        for o in outs:
            if o.kind == RETURN:
                rets.append(o)
            elif o.kind == NORMAL:
                rets.append(Outcome(RETURN, None, o.st))
            elif o.kind == RAISE:
                raises.append(o)
            else:
                raise Unsupported('control flow leaves a function')
        pc0 = list(base.pc)
        for i, o in enumerate(raises):
            c = z_and(*o.st.pc[len(pc0):])
            last = not rets and i == len(raises) - 1
            if last:
                more = o.st.pc[len(pc0):]
                taken = True
                self.st = State(o.st.heap, list(self.st.pc) + list(more))
            else:
                taken = self.decide(c)
                if taken:
                    self.st = State(o.st.heap, list(self.st.pc))
            if taken:
                raise PyRaise(o.val)
        if not rets:
            raise Infeasible()
        ref = State({}, pc0)
        val, st = self.merge_outcomes(ref, rets, exhaustive=not raises)
        extra = st.pc[len(pc0):]
        self.st = State(st.heap, list(self.st.pc) + [x for x in extra])
        if fr.yields is not None:
            return SeqVal(self.rec(fr.yields).seq, 'iter')
        return val

    def ex_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        y = self.lookup_var('@yields', fr)
        r = self.rec(y)
        self.put(y, ListObj(r.seq + (Unit(v),), r.kind))
        return None

    def ex_YieldFrom(self, e, fr):
        seq = self.seq_of(self.eval(e.value, fr))
        y = self.lookup_var('@yields', fr)
        r = self.rec(y)
        self.put(y, ListObj(r.seq + tuple(seq), r.kind))
        return None
