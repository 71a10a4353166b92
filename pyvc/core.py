"""Terms of the verifier: types, symbolic values, sequence expressions.

A sequence expression is a tuple of segments (never mutated):
  Unit(v)            one element
  Var(t, ety)        every element of an opaque sequence term t (z3 sort SeqX), in order
  Comp(b, n, body)   concatenation, for b = 0 .. n-1, of the sequence expression `body` (which may mention b)
  Guard(c, body)     `body` if the formula c holds, otherwise nothing
"""
import enum
import itertools

import z3

RefSort = z3.DeclareSort('Ref')
SeqX = z3.DeclareSort('SeqX')
MapX = z3.DeclareSort('MapX')
AnySort = z3.DeclareSort('Any')

_counter = itertools.count()


def fresh_id():
    return next(_counter)


class Unsupported(Exception):
    """The code left the subset the verifier understands"""


# ###############################################################################
# TYPES
# ###############################################################################


class Ty:
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        return self.key

    @property
    def key(self):
        parts = []
        for a in self.args:
            parts.append(a.key if isinstance(a, Ty) else (a.__name__ if isinstance(a, type) else str(a)))
        return self.kind + ('<' + ','.join(parts) + '>' if parts else '')

    def __eq__(self, other):
        return isinstance(other, Ty) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


TInt = Ty('int')
TReal = Ty('real')
TBool = Ty('bool')
TStr = Ty('str')
TAny = Ty('any')
TNone = Ty('none')


def TEnum(cls):
    return Ty('enum', cls)


def TRef(cls):
    return Ty('ref', cls)


def TList(elem):
    return Ty('list', elem)


def TTuple(*elems):
    return Ty('tuple', *elems)


def TOpt(t):
    return Ty('opt', t)


def TMap(k, v):
    return Ty('map', k, v)


def TSet(k):
    return Ty('set', k)


def z3sort(ty):
    k = ty.kind
    if k in ('int', 'enum'):
        return z3.IntSort()
    if k == 'real':
        return z3.RealSort()
    if k == 'bool':
        return z3.BoolSort()
    if k == 'str':
        return z3.StringSort()
    if k == 'ref':
        return RefSort
    if k == 'any':
        return AnySort
    if k == 'list':
        return SeqX
    if k in ('map', 'set'):
        return MapX
    raise Unsupported('no z3 sort for type %s' % ty)


# ###############################################################################
# VALUES
# ###############################################################################


class Sym:
    """Symbolic scalar"""
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return 'Sym(%s:%s)' % (self.t, self.ty)


class Addr:
    """Reference to an object of the interpreter's heap"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Addr) and other.n == self.n

    def __hash__(self):
        return hash(('addr', self.n))

    def __repr__(self):
        return '@%d' % self.n


class SeqVal:
    """Immutable sequence (tuple of unknown length, snapshot of a list, iterator...)"""
    __slots__ = ('seq', 'kind')

    def __init__(self, seq, kind='list'):
        self.seq = seq
        self.kind = kind

    def __repr__(self):
        return '%s%s' % (self.kind, list(self.seq))


class FieldList:
    """Handle on the list held in a field of a symbolic object (mutations are logged)"""
    __slots__ = ('ref', 'field')

    def __init__(self, ref, field):
        self.ref = ref
        self.field = field


class MapVal:
    """Symbolic read-only dictionary"""
    __slots__ = ('t', 'kty', 'vty')

    def __init__(self, t, kty, vty):
        self.t = t
        self.kty = kty
        self.vty = vty


class SetVal:
    """Symbolic read-only set"""
    __slots__ = ('t', 'kty')

    def __init__(self, t, kty):
        self.t = t
        self.kty = kty


class FrozenSet:
    """Snapshot of a set built by the code: elements listed by a sequence expression"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq


class FrozenMap:
    """Snapshot of a dictionary built by the code: log of (key, value) writes"""
    __slots__ = ('seq', 'kind')

    def __init__(self, seq, kind):
        self.seq = seq
        self.kind = kind


class ObjVal:
    """Snapshot of an instance"""
    __slots__ = ('cls', 'fields', 'origin')

    def __init__(self, cls, fields, origin=None):
        self.cls = cls
        self.fields = fields
        self.origin = origin

    def __repr__(self):
        return '%s{%s}' % (getattr(self.cls, 'name', self.cls), self.fields)


class Choice:
    """Value that depends on mutually exclusive, exhaustive conditions"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Choice(%s)' % self.alts


class Undefined:
    """Variable whose value is not tracked (e.g. loop temporaries after the loop)"""

    def __init__(self, why):
        self.why = why


class LoopTemp(Undefined):
    """Value of a variable left by the previous iteration of a loop, not tracked unless it is read"""

    def __init__(self, loc):
        self.loc = loc
        self.why = 'loop-carried %s' % (loc,)


class LoopCarried(Unsupported):
    """A value left by the previous iteration is read"""

    def __init__(self, loc):
        Unsupported.__init__(self, 'loop-carried %s' % (loc,))
        self.loc = loc


class LoopVal:
    """Component `out` of the state after n steps (n is None: when cont is false) from inits.
    places: values denoting the state at the start of an iteration of index b
    """
    __slots__ = ('b', 'n', 'places', 'inits', 'cont', 'steps', 'out')

    def __init__(self, b, n, places, inits, cont, steps, out):
        self.b = b
        self.n = n
        self.places = places
        self.inits = inits
        self.cont = cont
        self.steps = steps
        self.out = out

    def bound(self):
        acc = {self.b.decl().name(): self.b}
        value_consts(self.places, acc)
        return acc


class OpaqueFn:
    """Uninterpreted callable given by a contract"""

    def __init__(self, name, ret, raises=None, handler=None, args=()):
        self.name = name
        self.ret = ret
        self.raises = raises  # exception class (interpreter's) the call may raise, or None
        self.handler = handler
        self.args = args  # leading z3 arguments (captured)


# Heap objects (treated as immutable records: mutation replaces the record)


class ListObj:
    __slots__ = ('seq', 'kind')

    def __init__(self, seq=(), kind='list'):  # kinds: list, deque, ndarray
        self.seq = seq
        self.kind = kind


class SetObj:
    __slots__ = ('seq',)

    def __init__(self, seq=()):
        self.seq = seq


class DictObj:
    """seq: log of writes.
    kind 'dict': tuples (key, value), last write wins
    kind 'counter': keys, one per unit increment
    kind 'lists': tuples (key, item): dictionary of lists seen as the log of its appends
    """
    __slots__ = ('seq', 'kind')

    def __init__(self, seq=(), kind='dict'):
        self.seq = seq
        self.kind = kind


class InstObj:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields or {}


class ScopeObj:
    __slots__ = ('vars',)

    def __init__(self, vars=None):
        self.vars = vars or {}


# ###############################################################################
# SEGMENTS
# ###############################################################################


class Unit:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'U(%s)' % (self.v,)


class Var:
    __slots__ = ('t', 'ety')

    def __init__(self, t, ety):
        self.t = t
        self.ety = ety

    def __repr__(self):
        return 'V(%s)' % self.t


class Comp:
    __slots__ = ('b', 'n', 'body')

    def __init__(self, b, n, body):
        self.b = b
        self.n = n
        self.body = body

    def __repr__(self):
        return 'C(%s<%s: %s)' % (self.b, self.n, list(self.body))


class Guard:
    __slots__ = ('c', 'body')

    def __init__(self, c, body):
        self.c = c
        self.body = body

    def __repr__(self):
        return 'G(%s: %s)' % (self.c, list(self.body))


# ###############################################################################
# Z3 HELPERS
# ###############################################################################

_len = z3.Function('len', SeqX, z3.IntSort())

BINDER_PREFIX = 'b!'
PLACE_PREFIX = 'p!'


def fresh_binder():
    return z3.Int('%s%d' % (BINDER_PREFIX, fresh_id()))


def is_binder(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(BINDER_PREFIX)


_free_cache = {}


def free_consts(t):
    """Uninterpreted constants of a z3 term (set of (name, term))"""
    key = t.get_id()
    hit = _free_cache.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[x.decl().name()] = x
            else:
                stack.extend(x.children())
    _free_cache[key] = (t, out)
    return out


_apps_cache = {}


def apps_of(t):
    """Uninterpreted applications of a z3 term (quantified bodies excepted)"""
    key = t.get_id()
    hit = _apps_cache.get(key)
    if hit is not None:
        return hit[1]
    seen = {}
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            sub = _apps_cache.get(i)
            if sub is not None:
                for y in sub[1]:
                    if y.get_id() == i or y.get_id() not in seen:
                        seen[y.get_id()] = y
                        out.append(y)
                continue
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    _apps_cache[key] = (t, out)  # Holding t keeps its identifier from being reused
    return out


def apps(t, acc, seen):
    """Collects uninterpreted applications (with arguments) of a z3 term"""
    for x in apps_of(t):
        i = x.get_id()
        if i not in seen:
            seen[i] = x
            acc.append(x)


def to_int_if_concrete(t):
    """Python int when a z3 Int term is a numeral, None otherwise"""
    if isinstance(t, int):
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return None


def zint(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def is_true(t):
    return t is True or (not isinstance(t, bool) and z3.is_true(t))


def is_false(t):
    return t is False or (not isinstance(t, bool) and z3.is_false(t))


def zb(x):
    """z3 Bool from python bool or z3 Bool"""
    return z3.BoolVal(x) if isinstance(x, bool) else x


def z_and(*xs):
    xs = [x for x in xs if not is_true(x)]
    if any(is_false(x) for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def z_or(*xs):
    xs = [x for x in xs if not is_false(x)]
    if any(is_true(x) for x in xs):
        return z3.BoolVal(True)
    if not xs:
        return z3.BoolVal(False)
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def z_not(x):
    if is_true(x):
        return z3.BoolVal(False)
    if is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


# ###############################################################################
# STRUCTURAL TRAVERSALS
# ###############################################################################


def subst(v, pairs):
    """Substitutes z3 constants in any value or segment tuple"""
    if not pairs:
        return v
    return _subst(v, pairs)


def _sub_t(t, pairs):
    if isinstance(t, (bool, int)):
        return t
    return z3.substitute(t, *pairs)


def _subst(v, pairs):
    if isinstance(v, Sym):
        return Sym(v.ty, _sub_t(v.t, pairs))
    if isinstance(v, tuple):
        return tuple(_subst(x, pairs) for x in v)
    if isinstance(v, Unit):
        return Unit(_subst(v.v, pairs))
    if isinstance(v, Var):
        return Var(_sub_t(v.t, pairs), v.ety)
    if isinstance(v, Comp):
        inner = [p for p in pairs if not p[0].eq(v.b)]
        return Comp(v.b, _sub_t(v.n, pairs), _subst(v.body, inner) if inner else v.body)
    if isinstance(v, Guard):
        return Guard(_sub_t(v.c, pairs), _subst(v.body, pairs))
    if isinstance(v, SeqVal):
        return SeqVal(_subst(v.seq, pairs), v.kind)
    if isinstance(v, FrozenSet):
        return FrozenSet(_subst(v.seq, pairs))
    if isinstance(v, FrozenMap):
        return FrozenMap(_subst(v.seq, pairs), v.kind)
    if isinstance(v, ObjVal):
        return ObjVal(v.cls, {k: _subst(x, pairs) for k, x in v.fields.items()}, v.origin)
    if isinstance(v, Choice):
        return Choice([(_sub_t(c, pairs), _subst(x, pairs)) for c, x in v.alts])
    if isinstance(v, FieldList):
        return FieldList(_subst(v.ref, pairs), v.field)
    if isinstance(v, MapVal):
        return MapVal(_sub_t(v.t, pairs), v.kty, v.vty)
    if isinstance(v, SetVal):
        return SetVal(_sub_t(v.t, pairs), v.kty)
    if isinstance(v, OpaqueFn) and v.args:
        return OpaqueFn(v.name, v.ret, v.raises, v.handler, tuple(_sub_t(a, pairs) for a in v.args))
    if isinstance(v, z3.ExprRef):
        return _sub_t(v, pairs)
    if isinstance(v, LoopVal):
        return LoopVal(v.b, v.n if v.n is None else _sub_t(v.n, pairs), v.places, _subst(v.inits, pairs),
                       v.cont if v.cont is None else _sub_t(v.cont, pairs), _subst(v.steps, pairs), v.out)
    if type(v).__name__ in ('RangeVal', 'SliceVal', 'PathVal', 'MatchVal', 'DictSlot') and _holds_terms(v):
        raise Unsupported('substitution in a %s' % type(v).__name__)
    return v


def _holds_terms(v):
    if isinstance(v, (Sym, z3.ExprRef, Choice, SeqVal)):
        return not (isinstance(v, z3.ExprRef) and not z3.is_var(v) and v.num_args() == 0 and z3.is_const(v) and
                    v.decl().kind() != z3.Z3_OP_UNINTERPRETED)
    if isinstance(v, (tuple, list)):
        return any(_holds_terms(x) for x in v)
    if hasattr(v, '__dict__') and type(v).__name__ in ('RangeVal', 'SliceVal', 'PathVal', 'MatchVal', 'DictSlot'):
        return any(_holds_terms(x) for x in vars(v).values())
    return False


def map_terms(v, f):
    """Applies f to every z3 term of a value (binders excepted)"""

    def ft(t):
        return t if isinstance(t, (bool, int)) else f(t)

    def go(v):
        if isinstance(v, Sym):
            return Sym(v.ty, ft(v.t))
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Unit):
            return Unit(go(v.v))
        if isinstance(v, Var):
            return Var(ft(v.t), v.ety)
        if isinstance(v, Comp):
            return Comp(v.b, ft(v.n), go(v.body))
        if isinstance(v, Guard):
            return Guard(ft(v.c), go(v.body))
        if isinstance(v, SeqVal):
            return SeqVal(go(v.seq), v.kind)
        if isinstance(v, FrozenSet):
            return FrozenSet(go(v.seq))
        if isinstance(v, FrozenMap):
            return FrozenMap(go(v.seq), v.kind)
        if isinstance(v, ObjVal):
            return ObjVal(v.cls, {k: go(x) for k, x in v.fields.items()}, v.origin)
        if isinstance(v, Choice):
            return Choice([(ft(c), go(x)) for c, x in v.alts])
        if isinstance(v, FieldList):
            return FieldList(go(v.ref), v.field)
        if isinstance(v, MapVal):
            return MapVal(ft(v.t), v.kty, v.vty)
        if isinstance(v, SetVal):
            return SetVal(ft(v.t), v.kty)
        if isinstance(v, OpaqueFn) and v.args:
            return OpaqueFn(v.name, v.ret, v.raises, v.handler, tuple(ft(a) for a in v.args))
        return v

    return go(v)


def open_comp(s):
    """Bound variable renamed to a fresh one: (binder, n, body)"""
    b = fresh_binder()
    return b, zint(s.n), _subst(s.body, [(s.b, b)])


def value_consts(v, acc=None):
    """All uninterpreted constants mentioned by a value (name => term)"""
    if acc is None:
        acc = {}
    if isinstance(v, Sym):
        acc.update(free_consts(v.t))
    elif isinstance(v, (tuple, list)):
        for x in v:
            value_consts(x, acc)
    elif isinstance(v, Unit):
        value_consts(v.v, acc)
    elif isinstance(v, Var):
        acc.update(free_consts(v.t))
    elif isinstance(v, Comp):
        acc.update(free_consts(zint(v.n)))
        value_consts(v.body, acc)
    elif isinstance(v, Guard):
        acc.update(free_consts(zb(v.c)))
        value_consts(v.body, acc)
    elif isinstance(v, (SeqVal, FrozenSet, FrozenMap)):
        value_consts(v.seq, acc)
    elif isinstance(v, ObjVal):
        for x in v.fields.values():
            value_consts(x, acc)
    elif isinstance(v, Choice):
        for c, x in v.alts:
            acc.update(free_consts(zb(c)))
            value_consts(x, acc)
    elif isinstance(v, FieldList):
        value_consts(v.ref, acc)
    elif isinstance(v, (MapVal, SetVal)):
        acc.update(free_consts(v.t))
    elif isinstance(v, OpaqueFn):
        for a in v.args:
            acc.update(free_consts(a))
    elif isinstance(v, z3.ExprRef):
        acc.update(free_consts(v))
    elif isinstance(v, LoopVal):
        for x in (v.n, v.inits, v.cont, v.steps):
            value_consts(x, acc)
    return acc


def free_binders(v):
    """Free binders of a value, in creation order (bound ones are excluded)"""
    out = {}

    def walk(x, bound):
        if isinstance(x, Comp):
            terms(zint(x.n), bound)
            walk(x.body, bound | {x.b.decl().name()})
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y, bound)
        elif isinstance(x, Unit):
            walk(x.v, bound)
        elif isinstance(x, Var):
            terms(x.t, bound)
        elif isinstance(x, Guard):
            terms(zb(x.c), bound)
            walk(x.body, bound)
        elif isinstance(x, (SeqVal, FrozenSet, FrozenMap)):
            walk(x.seq, bound)
        elif isinstance(x, ObjVal):
            for y in x.fields.values():
                walk(y, bound)
        elif isinstance(x, Choice):
            for c, y in x.alts:
                terms(zb(c), bound)
                walk(y, bound)
        elif isinstance(x, FieldList):
            walk(x.ref, bound)
        elif isinstance(x, Sym):
            terms(x.t, bound)
        elif isinstance(x, (MapVal, SetVal)):
            terms(x.t, bound)
        elif isinstance(x, OpaqueFn):
            for a in x.args:
                terms(a, bound)
        elif isinstance(x, z3.ExprRef):
            terms(x, bound)
        elif isinstance(x, LoopVal):
            walk(x.n, bound)
            walk(x.inits, bound)
            inner = bound | set(x.bound())
            walk(x.cont, inner)
            walk(x.steps, inner)

    def terms(t, bound):
        for name, term in free_consts(t).items():
            if (name.startswith(BINDER_PREFIX) or name.startswith(PLACE_PREFIX)) and name not in bound:
                out[name] = term

    walk(v, frozenset())
    return [out[k] for k in sorted(out, key=lambda s: (int(s.split('!')[1].split('_')[0]), s))]


def is_concrete(v):
    """Plain python data (no symbolic part, no heap reference)"""
    if v is None or isinstance(v, (bool, int, float, str, bytes, enum.Enum)):
        return True
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    return False
