"""Loops of unknown length: the effect of all iterations in closed form.

The body is run once, at a symbolic index, from a state in which every modified location holds a placeholder; the
locations are then solved one after the other:
  lists that only grow        init + Comp(index, delta)
  counters                    init + SUM(delta)
  overwritten locations       the last write (LAST)
  anything else               LoopVal: opaque iteration, equal to another one by lock-step coupling
Early exits (break, return, raise) happen at the FIRST index whose exit condition holds.
"""
import z3

from .core import *
from .core import _len
from .theory import is_scalar, scalar_type, term, lift, same, same_seg
from .values import UNBOUND, PyFunc, BoundMethod

NORMAL, RETURN, RAISE, BREAK, CONTINUE = 'normal', 'return', 'raise', 'break', 'continue'

TUnknown = Ty('unknown')


# TYPES OF CARRIED VALUES
# ----------------------------------------------------------------------------


def vtype(th, v):
    """Type of a frozen value; TUnknown where nothing is known (e.g. elements of an empty list)"""
    if isinstance(v, tuple):
        return TTuple(*[vtype(th, x) for x in v])
    if isinstance(v, SeqVal):
        return TList(seq_type(th, v.seq))
    if v is None:
        return TNone
    if isinstance(v, Choice):
        t = TUnknown
        for _, x in v.alts:
            if isinstance(x, Undefined):
                continue
            t = join(t, vtype(th, x))
            if t is None:
                return None
        return t
    if isinstance(v, MapVal):
        return TMap(v.kty, v.vty)
    if isinstance(v, SetVal):
        return TSet(v.kty)
    return scalar_type(v)


def seq_type(th, seq):
    t = TUnknown
    for s in seq:
        if isinstance(s, Var):
            u = s.ety or TUnknown
        elif isinstance(s, Unit):
            u = vtype(th, s.v)
        else:
            u = seq_type(th, s.body)
        if u is None:
            return TUnknown
        j = join(t, u)
        if j is None:
            return TUnknown
        t = j
    return t


def join(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if a == TUnknown:
        return b
    if b == TUnknown:
        return a
    if a == TNone:
        return b if b.kind == 'opt' else TOpt(b)
    if b == TNone:
        return join(b, a)
    if a.kind == 'opt':
        j = join(a.args[0], b.args[0] if b.kind == 'opt' else b)
        return TOpt(j) if j is not None else None
    if b.kind == 'opt':
        return join(b, a)
    if {a.kind, b.kind} == {'int', 'real'}:
        return TReal
    if a.kind == b.kind == 'tuple' and len(a.args) == len(b.args):
        js = [join(x, y) for x, y in zip(a.args, b.args)]
        return None if any(j is None for j in js) else TTuple(*js)
    if a.kind == b.kind == 'list':
        j = join(a.args[0], b.args[0])
        return TList(j) if j is not None else None
    return None


def has_unknown(t):
    return t is None or t == TUnknown or any(isinstance(a, Ty) and has_unknown(a) for a in t.args)


# PLUGGING CLOSED FORMS
# ----------------------------------------------------------------------------


def plug_seq(v, p, seq):
    """Replaces the segments Var(p) by seq"""

    def segs(ss):
        out = []
        for s in ss:
            if isinstance(s, Var) and s.t.eq(p):
                out.extend(seq)
            elif isinstance(s, Unit):
                out.append(Unit(walk(s.v)))
            elif isinstance(s, Guard):
                out.append(Guard(s.c, segs(s.body)))
            elif isinstance(s, Comp):
                out.append(Comp(s.b, s.n, segs(s.body)))
            else:
                out.append(s)
        return tuple(out)

    def walk(x):
        if isinstance(x, tuple):
            if x and all(isinstance(y, (Unit, Var, Comp, Guard)) for y in x):
                return segs(x)
            return tuple(walk(y) for y in x)
        if isinstance(x, SeqVal):
            return SeqVal(segs(x.seq), x.kind)
        if isinstance(x, FrozenSet):
            return FrozenSet(segs(x.seq))
        if isinstance(x, FrozenMap):
            return FrozenMap(segs(x.seq), x.kind)
        if isinstance(x, ObjVal):
            return ObjVal(x.cls, {k: walk(y) for k, y in x.fields.items()}, x.origin)
        if isinstance(x, Choice):
            return Choice([(c, walk(y)) for c, y in x.alts])
        if isinstance(x, LoopVal):
            return LoopVal(x.b, x.n, x.places, walk(x.inits), x.cont, walk(x.steps), x.out)
        return x

    return walk(v)


class Plugger:
    """Substitution of placeholders by values"""

    def __init__(self, th):
        self.th = th
        self.pairs = []
        self.seqs = []

    def add(self, place, value):
        th = self.th
        if isinstance(place, Sym):
            if isinstance(value, Choice):
                value = th.merge_vals(value.alts)
            if not is_scalar(value):
                raise Unsupported('carried value of another type')
            t = term(value)
            if t.sort() == z3.IntSort() and place.t.sort() == z3.RealSort():
                t = z3.ToReal(t)
            if t.sort() != place.t.sort():
                raise Unsupported('carried value of another sort')
            self.pairs.append((place.t, t))
        elif isinstance(place, tuple):
            if isinstance(value, Choice):
                value = th.merge_vals(value.alts)
            if not isinstance(value, tuple) or len(value) != len(place):
                raise Unsupported('carried tuple of another shape')
            for p, v in zip(place, value):
                self.add(p, v)
        elif isinstance(place, SeqVal):
            if isinstance(value, Choice):
                value = th.merge_vals(value.alts)
            if isinstance(value, tuple):
                value = SeqVal(tuple(Unit(x) for x in value), place.kind)
            if not isinstance(value, SeqVal):
                raise Unsupported('carried list of another shape')
            self.seqs.append((place.seq[0].t, value.seq))
        elif isinstance(place, Choice):
            isnone = place.alts[0][0]
            inner = place.alts[1][1]
            if value is None:
                self.pairs.append((isnone, z3.BoolVal(True)))
            elif isinstance(value, Choice):
                c = z_or(*[c for c, v in value.alts if v is None])
                self.pairs.append((isnone, z3.simplify(c)))
                rest = [(c, v) for c, v in value.alts if v is not None]
                if rest:
                    self.add(inner, th.merge_vals(rest) if len(rest) > 1 else rest[0][1])
            else:
                self.pairs.append((isnone, z3.BoolVal(False)))
                self.add(inner, value)
        else:
            raise Unsupported('placeholder %r' % (place,))

    def __call__(self, v):
        for p, seq in self.seqs:
            v = plug_seq(v, p, seq)
        pairs = list(self.pairs)
        if self.seqs:
            names = set(value_consts(v))
            more = [(p, seq) for p, seq in self.seqs if p.decl().name() in names]
            if more:
                v = subst(v, [(_len(p), self.th.seq_len(seq)) for p, seq in more])
                pairs = pairs + [(p, self.th.reify(seq)) for p, seq in more]
        return subst(v, pairs)


# ANALYSIS OF AN ITERATION
# ----------------------------------------------------------------------------


class Loc:
    """A location modified by a loop: ('var', scope, name), ('fld', object, name) or ('seq', object)"""

    def __init__(self, ip, key):
        self.key = key
        self.typed = key[0] == 'seq'
        self.ty = TUnknown
        self.place = None  # frozen placeholder
        self.guess = False  # one new element per iteration (to be checked)
        self.inplace = None  # list of objects modified one after the other
        self.temp = None
        self.init = None
        self.prefix = None

    def place_at(self, i):
        """Value of the placeholder at the start of iteration i"""
        return self.prefix(i) if self.prefix is not None else self.at(i)


def object_list(th, seq):
    """The comprehension that gives one object per index when the sequence is one, None otherwise"""
    seq = th.norm(seq)
    if len(seq) == 1 and isinstance(seq[0], Comp) and len(seq[0].body) == 1:
        s = seq[0].body[0]
        if isinstance(s, Unit) and isinstance(s.v, ObjVal):
            return seq[0]
    return None


class Iteration:
    """Common part of for and while loops: finds the modified locations and runs the body on placeholders"""

    def __init__(self, ip, st, run, hyp, b):
        self.ip = ip
        self.th = ip.th
        self.st = st
        self.run = run
        self.hyp = hyp
        self.b = b
        self.locs = {}
        self.guessed = False
        self.analyse()

    # STATE ACCESS
    # ------------------------------------------------------------------------

    def read(self, st, key):
        rec = st.heap.get(key[1])
        if rec is None:
            return ()
        if key[0] == 'seq':
            return rec.seq
        d = rec.vars if key[0] == 'var' else rec.fields
        return d.get(key[2], UNBOUND)

    def write(self, st, key, v):
        rec = st.heap.get(key[1])
        if key[0] == 'seq':
            if rec is None:
                rec = ListObj((), 'log')
            if isinstance(rec, SetObj):
                st.heap[key[1]] = SetObj(v)
            else:
                st.heap[key[1]] = type(rec)(v, rec.kind)
        elif key[0] == 'var':
            d = dict(rec.vars)
            d[key[2]] = v
            st.heap[key[1]] = ScopeObj(d)
        else:
            d = dict(rec.fields)
            d[key[2]] = v
            st.heap[key[1]] = InstObj(rec.cls, d)

    def changes(self, before, after):
        out = []
        for a, r0 in before.heap.items():
            r1 = after.heap.get(a)
            if r1 is r0 or r1 is None:
                continue
            if isinstance(r0, (ScopeObj, InstObj)):
                tag = 'var' if isinstance(r0, ScopeObj) else 'fld'
                d0, d1 = (r0.vars, r1.vars) if tag == 'var' else (r0.fields, r1.fields)
                for k in d1:
                    if k == '@nonlocal':
                        continue
                    if k not in d0 or not same(d0[k], d1[k]):
                        out.append((tag, a, k))
            else:
                s0, s1 = r0.seq, r1.seq
                if len(s0) != len(s1) or not all(same_seg(x, y) for x, y in zip(s0, s1)):
                    out.append(('seq', a))
        for a in after.heap:
            if isinstance(a, tuple) and a not in before.heap:
                out.append(('seq', a))
        return [k for k in out if k[1] in self.st.heap or isinstance(k[1], tuple)]

    def freeze(self, v, st):
        ip = self.ip
        keep = ip.keep
        ip.keep = self.base_addrs
        try:
            return ip.freeze(v, st)
        finally:
            ip.keep = keep

    def box(self, v, st):
        """Value usable by the interpreter: lists become heap objects"""
        if isinstance(v, SeqVal) and v.kind in ('list', 'deque', 'ndarray'):
            a = Addr(fresh_id())
            st.heap[a] = ListObj(v.seq, v.kind)
            return a
        if isinstance(v, Choice):
            return Choice([(c, self.box(x, st)) for c, x in v.alts])
        if isinstance(v, tuple):
            return tuple(self.box(x, st) for x in v)
        if isinstance(v, FrozenSet):
            a = Addr(fresh_id())
            st.heap[a] = SetObj(v.seq)
            return a
        if isinstance(v, FrozenMap):
            a = Addr(fresh_id())
            st.heap[a] = DictObj(v.seq, v.kind)
            return a
        if isinstance(v, ObjVal):
            a = Addr(fresh_id())
            st.heap[a] = InstObj(v.cls, {k: self.box(x, st) for k, x in v.fields.items()})
            return a
        return v

    # PLACEHOLDERS
    # ------------------------------------------------------------------------

    def install(self, loc, st):
        key = loc.key
        if key[0] == 'seq':
            ety = loc.ty.args[0] if loc.ty.kind == 'list' else None
            if has_unknown(ety):
                ety = None
            if loc.place is None or loc.place.seq[0].ety != ety:
                p = z3.Const('%s%d' % (PLACE_PREFIX, fresh_id()), SeqX)
                loc.place = SeqVal((Var(p, ety),), 'seq')
            seq = loc.place.seq
            if loc.inplace:
                # The elements before index b have been treated; the element b is modified now
                pre, c, post = loc.inplace
                k = fresh_binder()
                st.pc.append(_len(seq[0].t) == self.b)
                x = subst(c.body[0].v, [(c.b, self.b)])
                seq = pre + seq + (Unit(self.box(x, st) if isinstance(x, ObjVal) else x),
                                   Comp(k, z3.simplify(zint(c.n) - self.b - 1), subst(c.body, [(c.b, k + self.b + 1)]))) + post
            elif loc.guess:
                st.pc.append(_len(seq[0].t) == z3.simplify(self.th.seq_len(loc.init) + self.b))
            self.write(st, key, seq)
            return
        if not loc.typed:
            if loc.temp is None:
                loc.temp = LoopTemp(key)
            self.write(st, key, loc.temp)
            return
        ty = loc.ty
        if has_unknown(ty) and not (ty is not None and ty.kind == 'list'):
            raise Unsupported('loop-carried %s of unknown type' % (key[2],))
        if loc.place is None or loc.place_ty != ty:
            if ty.kind == 'list' and has_unknown(ty):
                p = z3.Const('%s%d' % (PLACE_PREFIX, fresh_id()), SeqX)
                loc.place = SeqVal((Var(p, None),), 'list')
            else:
                loc.place = self.mk_place(ty, '%s%d' % (PLACE_PREFIX, fresh_id()))
            if isinstance(loc.place, SeqVal) and loc.list_kind:
                loc.place = SeqVal(loc.place.seq, loc.list_kind)
            loc.place_ty = ty
        self.write(st, key, self.box(loc.place, st))

    def mk_place(self, ty, name):
        return self.th.mk(ty, name)

    def analyse(self):
        ip = self.ip
        st = self.st
        self.base_addrs = frozenset(a for a in st.heap if isinstance(a, Addr))
        for attempt in range(40):
            ip.sv.tick()
            st0 = st.fork()
            st0.pc.extend(self.hyp)
            for loc in self.locs.values():
                self.install(loc, st0)
            self.st0 = st0
            try:
                outs = self.run(st0, self.b)
            except LoopCarried as e:
                loc = self.locs.get(e.loc)
                if loc is None:
                    raise
                if loc.typed:
                    raise
                loc.typed = True
                self.set_type(loc, None)
                continue
            except Unsupported:
                # Perhaps a list gets one element per iteration
                more = [l for l in self.locs.values() if l.key[0] == 'seq' and not l.guess and not l.inplace and
                        isinstance(st.heap.get(l.key[1]), ListObj)]
                if not more or self.guessed:
                    raise
                self.guessed = True
                for l in more:
                    l.guess = True
                continue
            normal = [o for o in outs if o.kind in (NORMAL, CONTINUE)]
            self.exits = [o for o in outs if o.kind not in (NORMAL, CONTINUE)]
            # Errors that cannot happen (the quick test on the way there was not enough)
            self.exits = [o for o in self.exits
                          if o.kind != RAISE or self.ip.sv.check(o.st.pc, 1000, deep=True, full=False)[0] != 'unsat']
            if normal:
                self.end = ip.merge_states(st0, [o.st for o in normal], exhaustive=not self.exits)
                self.cont = z_or(*[ip.conds_since(st0, o.st) for o in normal]) if self.exits else z3.BoolVal(True)
                found = self.changes(st0, self.end)
            else:
                self.end = None
                self.cont = z3.BoolVal(False)
                found = []
            again = False
            for key in found:
                if key not in self.locs:
                    loc = Loc(ip, key)
                    loc.list_kind = None
                    loc.place_ty = None
                    loc.init = self.read(st, key)
                    self.locs[key] = loc
                    again = True
                    self.set_type(loc, self.end)
                    loc.inplace = self.split_list(loc)
                else:
                    loc = self.locs[key]
                    old = loc.ty
                    if loc.typed:
                        self.set_type(loc, self.end)
                        if loc.ty != old:
                            again = True
                    elif loc.seen != (loc.seen | self.typeset(loc)):
                        pass
            if not again:
                self.check_guesses()
                return
        raise Unsupported('loop analysis does not settle')

    def check_guesses(self):
        """The lists supposed to get one element per iteration do"""
        for loc in self.locs.values():
            if not loc.guess or self.end is None:
                continue
            seq = self.read(self.end, loc.key)
            p = loc.place.seq[0]
            if not (seq and isinstance(seq[0], Var) and seq[0].t.eq(p.t)) or not self.ip.sv.implied(
                    self.st0.pc + [self.cont], self.th.seq_len(seq[1:]) == 1):
                raise Unsupported('list with an unknown number of new elements per iteration')

    def split_list(self, loc):
        """The comprehension of a list of objects whose element b is modified by the iteration b, None otherwise"""
        if loc.key[0] != 'seq' or not isinstance(self.st.heap.get(loc.key[1]), ListObj):
            return None
        if self.st.heap[loc.key[1]].kind == 'ndarray':
            return self.split_array(loc)
        init = []
        for s in loc.init:
            if isinstance(s, Guard):
                if self.ip.sv.implied(self.st.pc, zb(s.c)):
                    init.extend(s.body)
                elif not self.ip.sv.implied(self.st.pc, z_not(s.c)):
                    return None
            else:
                init.append(s)
        c = object_list(self.th, tuple(init))
        seq = self.read(self.end, loc.key)
        if c is None or sum(isinstance(s, Unit) and isinstance(s.v, Addr) for s in seq) != 1:
            return None
        at = [isinstance(s, Unit) for s in seq].index(True)
        off = self.th.seq_len(seq[:at])
        if not self.ip.sv.implied(self.st0.pc, z3.And(off == self.b, self.b < zint(c.n))):
            return None
        return (), c, ()

    def split_array(self, loc):
        """The cells before, the comprehension whose cell b is set by the iteration b and the cells after"""
        init = self.th.norm(loc.init)
        seq = self.read(self.end, loc.key)
        for j, c in enumerate(init):
            if not (isinstance(c, Comp) and len(c.body) == 1 and isinstance(c.body[0], Unit)):
                continue
            pre, post = init[:j], init[j + 1:]
            if len(seq) <= j or not all(same_seg(x, y) for x, y in zip(seq, pre)):
                continue
            at = [k for k in range(j, len(seq)) if isinstance(seq[k], Unit)]
            if not at:
                continue
            off = self.th.seq_len(seq[:at[0]])
            if self.ip.sv.implied(self.st0.pc, z3.And(off == self.th.seq_len(pre) + self.b, self.b < zint(c.n))):
                return pre, c, post
        return None

    def typeset(self, loc):
        return frozenset()

    def frozen_init(self, loc):
        v = loc.init
        if v is UNBOUND or isinstance(v, Undefined):
            return v
        if loc.key[0] == 'seq':
            return SeqVal(v, 'seq')
        # A variable that holds an object: its content at the start of the loop
        if isinstance(v, Addr):
            rec = self.st.heap.get(v)
            if isinstance(rec, (ListObj, SetObj, DictObj)):
                keep, self.ip.keep = self.ip.keep, self.base_addrs - {v}
                try:
                    return self.ip.freeze(v, self.st)
                finally:
                    self.ip.keep = keep
        if isinstance(v, Choice):
            return Choice([(c, self._fi(x)) for c, x in v.alts])
        return v

    def _fi(self, x):
        if isinstance(x, Addr) and isinstance(self.st.heap.get(x), ListObj):
            keep, self.ip.keep = self.ip.keep, self.base_addrs - {x}
            try:
                return self.ip.freeze(x, self.st)
            finally:
                self.ip.keep = keep
        return x

    def set_type(self, loc, end):
        th = self.th
        loc.seen = frozenset()
        t = loc.ty
        init = self.frozen_init(loc)
        if isinstance(init, SeqVal) and loc.key[0] != 'seq':
            loc.list_kind = init.kind
        if init is not UNBOUND and not isinstance(init, Undefined):
            t = join(t, vtype(th, init))
        if end is not None:
            v = self.end_value(loc, end)
            if v is not None and not isinstance(v, Undefined):
                u = vtype(th, v)
                if u is not None:
                    j = join(t, u)
                    t = j if j is not None else t
        loc.ty = t if t is not None else TUnknown

    def end_value(self, loc, end=None):
        """Frozen value at the end of an iteration"""
        end = end or self.end
        v = self.read(end, loc.key)
        if loc.key[0] == 'seq':
            keep, self.ip.keep = self.ip.keep, self.base_addrs
            try:
                return SeqVal(self.th.norm(self.ip.freeze_seq(v, end)), 'seq')
            finally:
                self.ip.keep = keep
        return self.freeze(v, end)

    def check_aliases(self):
        """No object is both stored for good in a growing list and still reachable through a carried variable"""
        end = self.end
        captured = set()
        carried = set()
        for loc in self.locs.values():
            v = self.read(end, loc.key)
            if loc.key[0] == 'seq':
                reach(v, end.heap, captured)
            elif loc.typed:
                reach(v, end.heap, carried)
        bad = {a for a in captured & carried if a not in self.base_addrs}
        if bad:
            raise Unsupported('an object stays shared between a list and a variable of the loop')
        mod = {k[1] for k in self.locs if k[0] in ('seq', 'fld')}
        deltas = set()
        for loc in self.locs.values():
            if loc.key[0] == 'seq':
                v = self.read(end, loc.key)
                reach(tuple(s for s in v if not isinstance(s, Var)), end.heap, deltas)
        # Modified base objects that are stored inside lists keep their identity (Addr is kept): nothing to do


def reach(v, heap, acc):
    if isinstance(v, Addr):
        if v in acc:
            return
        r = heap.get(v)
        if r is None or isinstance(r, ScopeObj):
            return
        acc.add(v)
        if isinstance(r, InstObj):
            for x in r.fields.values():
                reach(x, heap, acc)
        else:
            reach(r.seq, heap, acc)
    elif isinstance(v, tuple):
        for x in v:
            reach(x, heap, acc)
    elif isinstance(v, Unit):
        reach(v.v, heap, acc)
    elif isinstance(v, (Comp, Guard)):
        reach(v.body, heap, acc)
    elif isinstance(v, (SeqVal, FrozenSet, FrozenMap)):
        reach(v.seq, heap, acc)
    elif isinstance(v, Choice):
        for _, x in v.alts:
            reach(x, heap, acc)
    elif isinstance(v, ObjVal):
        for x in v.fields.values():
            reach(x, heap, acc)
    elif isinstance(v, BoundMethod):
        reach(v.obj, heap, acc)


def has_temp(v):
    """A LoopTemp occurs somewhere in the value"""
    if isinstance(v, LoopTemp):
        return True
    if isinstance(v, tuple):
        return any(has_temp(x) for x in v)
    if isinstance(v, Choice):
        return any(has_temp(x) for _, x in v.alts)
    if isinstance(v, Unit):
        return has_temp(v.v)
    if isinstance(v, (Comp, Guard)):
        return has_temp(v.body)
    if isinstance(v, (SeqVal, FrozenSet, FrozenMap)):
        return has_temp(v.seq)
    if isinstance(v, ObjVal):
        return any(has_temp(x) for x in v.fields.values())
    return False


def temps_in(v, acc):
    if isinstance(v, LoopTemp):
        acc.add(v.loc)
    elif isinstance(v, tuple):
        for x in v:
            temps_in(x, acc)
    elif isinstance(v, Choice):
        for _, x in v.alts:
            temps_in(x, acc)
    elif isinstance(v, Unit):
        temps_in(v.v, acc)
    elif isinstance(v, (Comp, Guard)):
        temps_in(v.body, acc)
    elif isinstance(v, (SeqVal, FrozenSet, FrozenMap)):
        temps_in(v.seq, acc)
    elif isinstance(v, ObjVal):
        for x in v.fields.values():
            temps_in(x, acc)
    return acc


class Summary(Iteration):
    """for loop over the indexes 0 .. n-1"""

    def __init__(self, ip, st, n, run):
        self.n = z3.simplify(zint(n))
        b = fresh_binder()
        self.skip = not ip.sv.feasible(st.pc + [self.n > 0])
        if self.skip:
            self.st = st
            self.ip = ip
            return
        Iteration.__init__(self, ip, st, run, [b >= 0, b < self.n], b)
        self.retry_temps()

    def retry_temps(self):
        """Untracked values that end up inside other locations have to be tracked"""
        for _ in range(20):
            if self.end is None and not self.exits:
                return
            need = set()
            for loc in self.locs.values():
                if self.end is not None:
                    v = self.end_value(loc)
                    found = temps_in(v, set())
                    if loc.key[0] != 'seq' and not loc.typed:
                        found.discard(loc.key)
                        if found and has_temp(v) and not isinstance(v, (LoopTemp, Choice)):
                            need.add(loc.key)
                    need |= found
            for o in self.exits:
                if o.val is not None and not isinstance(o.val, Undefined):
                    try:
                        need |= temps_in(self.freeze(o.val, o.st), set())
                    except Unsupported:
                        pass
            need = {k for k in need if k in self.locs and not self.locs[k].typed}
            if not need:
                return
            for k in need:
                self.locs[k].typed = True
                self.set_type(self.locs[k], self.end)
            self.analyse()

    def outcomes(self):
        ip = self.ip
        from .interp import Outcome
        if self.skip:
            return [Outcome(NORMAL, None, self.st)]
        if self.end is not None:
            self.check_aliases()
            self.solve()
        else:
            for loc in self.locs.values():
                loc.at = lambda i, loc=loc: self.frozen_init(loc)
        outs = []
        n, b = self.n, self.b
        st = self.st
        anyexit = z3.BoolVal(False)
        if self.exits:
            conds = [self.at_index(z3.simplify(ip.conds_since(self.st0, o.st)), b) for o in self.exits]
            if self.end is None:
                # The first iteration always leaves the loop
                k = z3.IntVal(0)
                anyexit = z3.simplify(n > 0)
            else:
                c = z3.simplify(z_or(*conds))
                anyexit = self.th.EX(n, b, c)
                k = self.th.FIRST(n, b, c)
            for o, c in zip(self.exits, conds):
                s2 = st.fork()
                here = z3.substitute(zb(c), (b, k))
                extra = [anyexit, k >= 0, k < n, z3.simplify(here)]
                if self.end is not None:
                    # Consequences of anyexit (definition of the first index)
                    for f in extra[1:] if len(self.exits) == 1 else extra[1:3]:
                        for g in (f, z3.simplify(f)):
                            if not is_true(g):
                                ip.facts[g.get_id()] = g
                                if z3.is_and(g):
                                    ip.facts.update((x.get_id(), x) for x in g.children())
                s2.pc.extend([x for x in extra if not is_true(z3.simplify(x))])
                if not ip.sv.feasible(s2.pc):
                    continue
                plug = self.plugger(b)
                for a, r in o.st.heap.items():
                    if st.heap.get(a) is r:
                        continue
                    s2.heap[a] = self.map_rec(r, lambda v: subst(plug(v), [(b, k)]))
                val = o.val
                if not isinstance(val, (Addr, PyFunc)) and val is not None:
                    val = subst(plug(val), [(b, k)])
                # Locations not touched by the last iteration
                outs.append(Outcome(o.kind, val, s2))
        if self.end is not None or True:
            s2 = st.fork()
            if self.exits:
                s2.pc.append(z_not(anyexit))
            if ip.sv.feasible(s2.pc):
                if self.end is not None:
                    for loc in self.locs.values():
                        v = loc.at(n)
                        self.write(s2, loc.key, v.seq if loc.key[0] == 'seq' else self.box(v, s2))
                outs.append(Outcome(NORMAL, None, s2))
        return outs

    def map_rec(self, r, f):
        def g(v):
            if isinstance(v, LoopTemp):
                return f_temp(v)
            if isinstance(v, Choice) and has_temp(v):
                return Choice([(c2, g(x)) for c2, x in [(f(c), x) for c, x in v.alts]])
            return f(v)

        def f_temp(v):
            return Undefined('loop temporary %s' % (v.loc[2],))

        if isinstance(r, ScopeObj):
            return ScopeObj({k: (v if k == '@parent' else g(v)) for k, v in r.vars.items()})
        if isinstance(r, InstObj):
            return InstObj(r.cls, {k: g(v) for k, v in r.fields.items()})
        if isinstance(r, SetObj):
            return SetObj(f(r.seq))
        return type(r)(f(r.seq), r.kind)

    # SOLVING
    # ------------------------------------------------------------------------

    def plugger(self, idx):
        p = Plugger(self.th)
        for loc in self.locs.values():
            if loc.place is not None and getattr(loc, 'at', None) is not None:
                p.add(loc.place, loc.place_at(idx))
        return p

    def at_index(self, v, idx):
        names = set(value_consts(v))
        p = Plugger(self.th)
        for loc in self.locs.values():
            if loc.place is not None and names & set(value_consts(loc.place)):
                p.add(loc.place, loc.place_at(idx))
        return p(v)

    def solve(self):
        todo = []
        for loc in self.locs.values():
            loc.at = None
            loc.finit = self.frozen_init(loc)
            loc.e = self.end_value(loc)
            todo.append(loc)
        while todo:
            self.ip.sv.tick()
            progress = False
            for loc in list(todo):
                e = self.current(loc)
                names = set(value_consts(e))
                blocked = False
                for other in todo:
                    if other is not loc and other.place is not None and names & set(value_consts(other.place)):
                        blocked = True
                        break
                if blocked:
                    continue
                at = self.pattern(loc, e)
                if at is not None:
                    loc.at = at
                    todo.remove(loc)
                    progress = True
            if not progress:
                group = self.smallest_group(todo)
                self.fold(group)
                for loc in group:
                    todo.remove(loc)

    def current(self, loc):
        names = set(value_consts(loc.e))
        p = Plugger(self.th)
        used = False
        for other in self.locs.values():
            if other.at is not None and other.place is not None and names & set(value_consts(other.place)):
                p.add(other.place, other.place_at(self.b))
                used = True
        return p(loc.e) if used else loc.e

    def smallest_group(self, todo):
        deps = {}
        for loc in todo:
            names = set(value_consts(self.current(loc)))
            deps[loc] = [o for o in todo if o.place is not None and names & set(value_consts(o.place))]
        best = None
        for loc in todo:
            seen = {loc}
            stack = [loc]
            while stack:
                x = stack.pop()
                for y in deps[x]:
                    if y not in seen:
                        seen.add(y)
                        stack.append(y)
            if best is None or len(seen) < len(best):
                best = seen
        return [x for x in todo if x in best]

    def pattern(self, loc, e):
        b = self.b
        th = self.th
        init = loc.finit
        if loc.inplace:
            return self.inplace_pattern(loc, e)
        if loc.key[0] == 'seq':
            return self.seq_pattern(loc.place, init, e)
        if not loc.typed:
            return self.overwrite(loc, e)
        return self.value_pattern(loc.place, init, e, loc)

    def inplace_pattern(self, loc, e):
        b, p = self.b, loc.place.seq[0].t
        pre, c, post = loc.inplace
        seq = e.seq
        if len(seq) < len(pre) or not all(same_seg(x, y) for x, y in zip(seq, pre)):
            raise Unsupported('list of objects modified in an unknown order')
        seq = seq[len(pre):]
        k = fresh_binder()
        rest = self.th.norm((Comp(k, z3.simplify(zint(c.n) - b - 1), subst(c.body, [(c.b, k + b + 1)])),) + post)
        if not (len(seq) >= 2 and isinstance(seq[0], Var) and seq[0].t.eq(p) and isinstance(seq[1], Unit)):
            raise Unsupported('list of objects modified in an unknown order')
        v = seq[1].v
        if p.decl().name() in value_consts(v) or not self.th.seq_eq(list(self.st0.pc), seq[2:], rest):
            raise Unsupported('list of objects modified in an unknown order')

        def before(i):
            b2 = fresh_binder()
            return (Comp(b2, zint(i), (Unit(subst(v, [(b, b2)])),)),)

        def at(i):
            b2 = fresh_binder()
            left = z3.simplify(zint(c.n) - zint(i))
            return SeqVal(self.th.norm(pre + before(i) + (Comp(b2, left, subst(c.body, [(c.b, b2 + zint(i))])),) + post),
                          loc.finit.kind)

        loc.prefix = lambda i: SeqVal(self.th.norm(before(i)), 'seq')
        return at

    def seq_pattern(self, place, init, e):
        b = self.b
        p = place.seq[0].t
        seq = e.seq
        if not (seq and isinstance(seq[0], Var) and seq[0].t.eq(p)):
            if p.decl().name() not in value_consts(e):
                return self.replaced(init, e)
            return None
        delta = seq[1:]
        if p.decl().name() in value_consts(delta):
            return None

        def at(i):
            b2 = fresh_binder()
            return SeqVal(self.th.norm(init.seq + (Comp(b2, zint(i), subst(delta, [(b, b2)])),)), init.kind)

        return at

    def replaced(self, init, e):
        b = self.b

        def at(i):
            i = zint(i)
            last = subst(e, [(b, z3.simplify(i - 1))])
            if init is UNBOUND and self.ip.sv.implied(self.st.pc, i > 0):
                return last
            k = to_int_if_concrete(i)
            if k is not None:
                return last if k > 0 else init
            return self.th.merge_vals([(i > 0, last), (z_not(i > 0), init)])

        return at

    def overwrite(self, loc, e):
        """Location whose previous value is never read"""
        b = self.b
        th = self.th
        init = loc.finit
        alts = e.alts if isinstance(e, Choice) else [(z3.BoolVal(True), e)]
        keep = [c for c, v in alts if v is loc.temp]
        writes = [(c, v) for c, v in alts if v is not loc.temp]
        if any(has_temp(v) for _, v in writes):
            return lambda i: Undefined('loop temporary %s' % (loc.key[2],))
        if any(not simple(v) for _, v in writes):
            return lambda i: Undefined('loop temporary %s' % (loc.key[2],))
        if not writes:
            return lambda i: init
        val = th.merge_vals(writes) if len(writes) > 1 else writes[0][1]
        if not keep:
            return self.replaced(init, val)
        c = z3.simplify(z_or(*[c for c, _ in writes]))
        return self.cond_overwrite(init, c, val)

    def cond_overwrite(self, init, c, val):
        b = self.b
        th = self.th

        def at(i):
            i = zint(i)
            b2 = fresh_binder()
            c2 = z3.substitute(c, (b, b2))
            ex = th.EX(i, b2, c2)
            if b.decl().name() not in value_consts(val):
                last = val
            else:
                last = subst(val, [(b, th.LAST(i, b2, c2))])
            return th.merge_vals([(ex, last), (z_not(ex), init)])

        return at

    def value_pattern(self, place, init, e, loc=None):
        th = self.th
        b = self.b
        names = set(value_consts(place))
        if not names & set(value_consts(e)):
            if isinstance(init, Undefined):
                return None
            return self.replaced(init, e)
        if isinstance(place, tuple):
            if not (isinstance(e, tuple) and isinstance(init, tuple) and len(e) == len(place) == len(init)):
                return None
            ats = []
            for p, i, x in zip(place, init, e):
                own = set(value_consts(p))
                if (set(value_consts(x)) & names) - own:
                    return None
                at = self.value_pattern(p, i, x)
                if at is None:
                    return None
                ats.append(at)
            return lambda i: tuple(at(i) for at in ats)
        if isinstance(place, SeqVal):
            if isinstance(e, SeqVal) and isinstance(init, SeqVal):
                return self.seq_pattern(place, init, e)
            return None
        if isinstance(place, Sym) and is_scalar(e) and is_scalar(init):
            p = place.t
            t = term(e)
            if place.ty.kind in ('int', 'real'):
                if t.sort() == z3.IntSort() and p.sort() == z3.RealSort():
                    t = z3.ToReal(t)
                d = self.delta(t, p)
                if d is not None:
                    t0 = term(init)
                    if t0.sort() == z3.IntSort() and p.sort() == z3.RealSort():
                        t0 = z3.ToReal(t0)

                    def at(i):
                        b2 = fresh_binder()
                        return lift(place.ty, z3.simplify(t0 + th.SUM(zint(i), b2, z3.substitute(d, (b, b2)))))

                    return at
            w = self.written(t, p)
            if w is not None:
                return self.cond_overwrite(init, w[0], lift(place.ty, w[1]))
        return None

    def delta(self, t, p):
        """t - p when it does not depend on p"""
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            x, y = self.delta(t.arg(1), p), self.delta(t.arg(2), p)
            if x is None or y is None or p.decl().name() in free_consts(t.arg(0)):
                return None
            return z3.If(t.arg(0), x, y)
        d = z3.simplify(t - p)
        return None if p.decl().name() in free_consts(d) else d

    def written(self, t, p):
        """(condition, value): t is `value` when the condition holds, p otherwise"""
        name = p.decl().name()
        if p.sort() == z3.BoolSort():
            t1 = z3.simplify(z3.substitute(t, (p, z3.BoolVal(True))))
            t0 = z3.simplify(z3.substitute(t, (p, z3.BoolVal(False))))
            if not self.ip.sv.feasible(self.st0.pc + [z_not(t1), t0]):
                c = z3.simplify(t1 == t0)
                if not self.ip.sv.feasible(self.st0.pc + [c, z_not(t1)]):
                    return c, z3.BoolVal(True)
                if not self.ip.sv.feasible(self.st0.pc + [c, t1]):
                    return c, z3.BoolVal(False)
                return c, t1
            return None
        cases = []

        def split(x, cs):
            if name not in free_consts(x):
                cases.append((z_and(*cs), x))
                return True
            if x.eq(p):
                return True
            if z3.is_app_of(x, z3.Z3_OP_ITE) and name not in free_consts(x.arg(0)):
                return split(x.arg(1), cs + [x.arg(0)]) and split(x.arg(2), cs + [z_not(x.arg(0))])
            return False

        if not split(t, []):
            return None
        if not cases:
            return None
        v = cases[-1][1]
        for c, x in reversed(cases[:-1]):
            v = z3.If(c, x, v)
        return z3.simplify(z_or(*[c for c, _ in cases])), z3.simplify(v)

    def fold(self, group):
        th = self.th
        b = self.b
        places, inits, steps, tys = [], [], [], []
        for loc in group:
            if loc.place is None:
                raise Unsupported('untracked loop variable %s' % (loc.key,))
            if isinstance(loc.finit, Undefined):
                raise Unsupported('loop variable without initial value %s' % (loc.key,))
            e = self.current(loc)
            if has_temp(e):
                raise Unsupported('untracked value in a loop')
            ty = loc.ty
            if loc.key[0] == 'seq':
                ety = loc.place.seq[0].ety
                ty = TList(ety) if ety is not None else None
                rec = self.st.heap.get(loc.key[1])
                if isinstance(rec, (DictObj, SetObj)) or isinstance(loc.key[1], tuple):
                    ty = Ty('list', TUnknown)
            places.append(loc.place)
            inits.append(loc.finit)
            steps.append(e)
            tys.append(ty)
        self.ip.loop_stats['fold'] += 1
        for j, loc in enumerate(group):
            def at(i, j=j, loc=loc):
                clo = LoopVal(b, zint(i), tuple(places), tuple(inits), None, tuple(steps), j)
                tok = th.opaque('FOLD', clo, AnySort)
                return project(th, tys[j], tok, loc.place)

            loc.at = at


def project(th, ty, tok, place):
    if isinstance(place, SeqVal):
        ety = place.seq[0].ety
        t = th.uf('proj_seq', [tok], SeqX)
        return SeqVal((Var(t, ety),), place.kind)
    if ty is None or has_unknown(ty):
        raise Unsupported('loop-carried value of unknown type')
    return th.mk(ty, 'proj<%s>' % ty.key, [tok])


def simple(v):
    """Value that can be kept after the loop without aliasing questions"""
    if isinstance(v, tuple):
        return all(simple(x) for x in v)
    if isinstance(v, Choice):
        return all(simple(x) for _, x in v.alts)
    return v is None or is_scalar(v) or isinstance(v, (MapVal, SetVal, OpaqueFn)) or isinstance(v, SeqVal) and v.kind in (
        'tuple', 'iter')


# WHILE LOOPS
# ----------------------------------------------------------------------------


def while_loop(ip, s, fr):
    from .interp import Outcome

    const_test = None

    def iterate(st, b):
        """One iteration: NORMAL when the loop goes on; ('exit') outcomes otherwise"""

        def run():
            if not ip.decide(ip.cond(s.test, fr)):
                return [Outcome('stop', None, ip.st)]
            return ip.exec_block(ip.st, s.body, fr)

        return ip.explore(st, run)

    if ip.while_hook is not None:
        outs = ip.while_hook(ip, s, fr, iterate)
        if outs is not None:
            return _after(ip, outs, s, fr)
    st = ip.st
    # Concrete execution while the test is decided and the state small
    outs = []
    cur = st
    for _ in range(60):
        res = None

        def probe():
            c = ip.cond(s.test, fr)
            return [Outcome('probe', c if isinstance(c, bool) else z3.simplify(zb(c)), ip.st)]

        pr = ip.explore(cur, probe)
        if len(pr) != 1 or pr[0].kind != 'probe':
            break
        c = pr[0].val
        if not isinstance(c, bool):
            c = True if is_true(c) else False if is_false(c) else c
        if c is False:
            outs.append(Outcome(NORMAL, None, cur))
            return _after(ip, outs, s, fr)
        if c is True and not isinstance(s.test, __import__('ast').Constant):
            res = iterate(cur, None)
            normal = [o for o in res if o.kind in (NORMAL, CONTINUE)]
            other = [o for o in res if o.kind not in (NORMAL, CONTINUE)]
            if not normal:
                return _after(ip, outs + other, s, fr)
            outs.extend(other)
            cur = ip.merge_states(cur, [o.st for o in normal], exhaustive=not other)
            continue
        break
    st = cur
    b = fresh_binder()
    it = While(ip, st, iterate, [], b)
    return _after(ip, outs + it.outcomes(), s, fr)


def _after(ip, outs, s, fr):
    from .interp import Outcome
    res = []
    for o in outs:
        if o.kind == BREAK:
            res.append(Outcome(NORMAL, None, o.st))
        elif o.kind in (NORMAL, 'stop'):
            if s.orelse:
                res.extend(ip.exec_block(o.st, s.orelse, fr))
            else:
                res.append(Outcome(NORMAL, None, o.st))
        else:
            res.append(o)
    return res


class While(Summary):
    def __init__(self, ip, st, run, hyp, b):
        self.n = None
        self.skip = False
        Iteration.__init__(self, ip, st, run, hyp, b)
        self.retry_temps()

    def outcomes(self):
        ip = self.ip
        th = self.th
        from .interp import Outcome
        if self.end is None:
            return [Outcome(o.kind, o.val, o.st) for o in self.run(self.st, self.b)]
        counted = self.counted()
        if counted is not None:
            return counted
        self.check_aliases()
        # State at the start of the iteration that leaves the loop
        group = [loc for loc in self.locs.values() if loc.place is not None]
        for loc in self.locs.values():
            loc.finit = self.frozen_init(loc)
        places, inits, steps = [], [], []
        self.single_steps()
        for loc in group:
            if isinstance(loc.finit, Undefined):
                raise Unsupported('loop variable without initial value %s' % (loc.key,))
            e = self.end_value(loc)
            if has_temp(e):
                raise Unsupported('untracked value in a loop')
            places.append(loc.place)
            inits.append(loc.finit)
            steps.append(e)
        ip.loop_stats['while'] += 1
        s2 = self.st.fork()
        # Only what the exit depends on has to be coupled: prune components that nothing else reads
        for j, loc in enumerate(group):
            sub = self.needed(group, steps, loc)
            sel = [group.index(x) for x in sub]
            clo = LoopVal(self.b, None, tuple(places[k] for k in sel), tuple(inits[k] for k in sel), self.cont,
                          tuple(steps[k] for k in sel), sel.index(j))
            tok = th.opaque('WHILE', clo, AnySort)
            v = project(th, loc.ty if loc.key[0] != 'seq' else None, tok, loc.place)
            self.write(s2, loc.key, v.seq if loc.key[0] == 'seq' else self.box(v, s2))
        for loc in self.locs.values():
            if loc.place is None:
                self.write(s2, loc.key, Undefined('loop temporary %s' % (loc.key[2],)))
        ip.assumptions.add('general loops are coupled in lock step with the loop of the contract (termination of the '
                           'contract is taken for granted)')
        outs = []
        for o in self.run(s2, self.b):
            if o.kind in (NORMAL, CONTINUE):
                continue
            outs.append(o)
        if len(outs) == 1:
            # The only way out of the loop
            for f in outs[0].st.pc[len(self.st.pc):]:
                for g in (f, z3.simplify(zb(f))):
                    ip.facts[g.get_id()] = g
        return outs

    def single_steps(self):
        pass

    def needed(self, group, steps, loc):
        seen = [loc]
        names = set(value_consts(self.cont))
        for x in group:
            if x not in seen and names & set(value_consts(x.place)):
                seen.append(x)
        k = 0
        while k < len(seen):
            names = set(value_consts(steps[group.index(seen[k])]))
            for x in group:
                if x not in seen and names & set(value_consts(x.place)):
                    seen.append(x)
            k += 1
        return [x for x in group if x in seen]

    def counted(self):
        """`while i < bound: ... i += step` as a loop over the number of iterations"""
        ip = self.ip
        th = self.th
        stops = [o for o in self.exits if o.kind == 'stop']
        if len(stops) != 1 or len(self.exits) != len(stops):
            return None
        stop = z3.simplify(ip.conds_since(self.st0, stops[0].st))
        go = z_not(stop)
        consts = {}
        for loc in self.locs.values():
            if loc.place is not None:
                for name in value_consts(loc.place):
                    consts[name] = loc
        used = [x for x in free_consts(stop) if x in consts]
        if len(used) != 1:
            return None
        loc = consts[used[0]]
        if not isinstance(loc.place, Sym) or loc.place.ty != TInt:
            return None
        init = self.frozen_init(loc)
        e = self.end_value(loc)
        if not is_scalar(e) or not is_scalar(init):
            return None
        p = loc.place.t
        d = self.delta(term(e), p)
        d = to_int_if_concrete(d) if d is not None else None
        if d is None or d == 0:
            return None
        # Find the bound: go <=> p < bound (d > 0) or p > bound (d < 0)
        for cand in self.bounds(stop, p):
            same_go = go == (p < cand) if d > 0 else go == (p > cand)
            if ip.sv.implied(self.st.pc, same_go, 2000):
                t0 = term(init)
                dist = cand - t0 if d > 0 else t0 - cand
                n = z3.simplify((dist + (abs(d) - 1)) / abs(d)) if abs(d) != 1 else z3.simplify(dist)
                if not ip.sv.implied(self.st.pc, n >= 0):
                    n = z3.If(n >= 0, n, z3.IntVal(0))
                from .interp import Outcome

                def run(st, b):
                    st = st.fork()
                    outs = []
                    for o in self.run(st, b):
                        if o.kind == 'stop':
                            # Excluded by the number of iterations (proved: the counter is below the bound)
                            cur = self.read(st, loc.key)
                            if isinstance(cur, Undefined):
                                raise LoopCarried(loc.key)
                            continue
                        outs.append(o)
                    return outs

                s = Counted(ip, self.st, n, run, loc.key, t0, d)
                return s.outcomes()
        return None

    def bounds(self, stop, p):
        out = []
        seen = {}
        stack = [stop]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen[x.get_id()] = x
            if z3.is_app(x) and x.num_args() == 2 and x.arg(0).sort() == z3.IntSort() and x.sort() == z3.BoolSort():
                for u, v in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    # u contains p linearly
                    if p.decl().name() in free_consts(u):
                        r = z3.simplify(v - (u - p))
                        if p.decl().name() not in free_consts(r):
                            out += [r, z3.simplify(r + 1), z3.simplify(r - 1)]
                        r = z3.simplify((u + p) - v)
                        if p.decl().name() not in free_consts(r):
                            out += [r, z3.simplify(r + 1), z3.simplify(r - 1)]
            if z3.is_app(x):
                stack.extend(x.children())
        return out


class Counted(Summary):
    """Counted while loop: the counter is t0 + index * d at the start of each iteration"""

    def __init__(self, ip, st, n, run, key, t0, d):
        self.counter = (key, t0, d)

        def run2(st2, b):
            st3 = st2.fork()
            self.write(st3, key, lift(TInt, z3.simplify(t0 + b * d)))
            return run(st3, b)

        Summary.__init__(self, ip, st, n, run2)

    def outcomes(self):
        outs = Summary.outcomes(self)
        key, t0, d = self.counter
        for o in outs:
            if o.kind == NORMAL:
                self.write(o.st, key, lift(TInt, z3.simplify(t0 + self.n * d)))
        return outs
