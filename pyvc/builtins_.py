"""Built-in functions and types of Python for the symbolic interpreter."""
import ast
import enum
from fractions import Fraction

import z3

from .core import *
from .core import _len
from .theory import is_scalar, scalar_type, term, lift, same, same_seg
from .values import *


class DictSlot:
    """Handle on the list or dictionary held by a dictionary under a key (mutations are logged by the owner)"""
    __slots__ = ('owner', 'path')

    def __init__(self, owner, path):
        self.owner = owner
        self.path = path


class KeyFn:
    pass


def num(v):
    """z3 term of a numeric value"""
    t = term(v)
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def real(v):
    t = num(v)
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def numty(v):
    ty = scalar_type(v)
    if ty in (TBool, TInt) or ty is not None and ty.kind == 'enum':
        return TInt
    if ty == TReal:
        return TReal
    return None


def is_str(v):
    return isinstance(v, str) or isinstance(v, Sym) and v.ty == TStr


def zint_of(ip, v):
    v = ip.force(v)
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Sym) and v.ty.kind in ('int', 'enum'):
        return v.t
    if isinstance(v, Sym) and v.ty == TBool:
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    ip.throw('TypeError')


# ###############################################################################
# EXCEPTIONS AND BUILTIN TABLE
# ###############################################################################

EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception', 'AttributeError': 'Exception',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception',
    'TypeError': 'Exception', 'ValueError': 'Exception', 'RuntimeError': 'Exception', 'StopIteration': 'Exception',
    'NotImplementedError': 'RuntimeError', 'OSError': 'Exception', 'FileNotFoundError': 'OSError',
    'RecursionError': 'RuntimeError',
}


def make_builtins(ip):
    out = {}
    obj = ClassVal('object', [], {}, None, 'object')
    out['object'] = obj
    for name, base in EXC.items():
        out[name] = ClassVal(name, [out[base]] if base else [obj], {}, None, name)
    out['IOError'] = out['OSError']

    def b(name):
        def deco(fn):
            out[name] = Builtin(name, fn)
            return fn

        return deco

    @b('len')
    def _len_(ip, args, kw):
        v = ip.force(args[0])
        return length(ip, v)

    @b('range')
    def _range(ip, args, kw):
        vs = [zint_of(ip, a) for a in args]
        lo, hi, step = (z3.IntVal(0), vs[0], z3.IntVal(1)) if len(vs) == 1 else (
            (vs[0], vs[1], z3.IntVal(1)) if len(vs) == 2 else vs)
        cs = [to_int_if_concrete(x) for x in (lo, hi, step)]
        if all(c is not None for c in cs):
            if cs[2] == 0:
                ip.throw('ValueError')
            return range(*cs)
        if cs[2] is None:
            if ip.decide(step == 0):
                ip.throw('ValueError')
        return RangeVal(lo, hi, step)

    @b('zip')
    def _zip(ip, args, kw):
        if isinstance(args, StarArgs):
            return zip_star(ip, args.seq)
        seqs = [ip.seq_of(a) for a in args]
        if not seqs:
            return SeqVal((), 'iter')
        return SeqVal(zip_seqs(ip, seqs), 'iter')

    @b('enumerate')
    def _enumerate(ip, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        seq = ip.seq_of(args[0])
        us = ip.th.units(seq)
        s0 = zint_of(ip, start)
        if us is not None:
            return SeqVal(tuple(Unit((lift(TInt, z3.simplify(s0 + i)), v)) for i, v in enumerate(us)), 'iter')
        if len(seq) > 1 and all(isinstance(x, (Unit, Var)) or isinstance(x, Comp) and len(x.body) == 1 and
                                isinstance(x.body[0], Unit) for x in seq):
            out = []
            for x in seq:
                k = fresh_binder()
                if isinstance(x, Unit):
                    out.append(Unit((lift(TInt, z3.simplify(s0)), x.v)))
                else:
                    v = ip.th.at(x.t, x.ety, k) if isinstance(x, Var) else subst(x.body[0].v, [(x.b, k)])
                    size = _len(x.t) if isinstance(x, Var) else zint(x.n)
                    out.append(Comp(k, size, (Unit((Sym(TInt, z3.simplify(s0 + k)), v)),)))
                s0 = z3.simplify(s0 + ip.th.seq_len((x,)))
            return SeqVal(tuple(out), 'iter')
        n, get = index_seq(ip, seq)
        bb = fresh_binder()
        return SeqVal((Comp(bb, n, (Unit((Sym(TInt, z3.simplify(s0 + bb)), get(bb))),)),), 'iter')

    @b('sorted')
    def _sorted(ip, args, kw):
        return ip.new_list(sort_seq(ip, ip.seq_of(args[0], ordered=False), kw))

    @b('reversed')
    def _reversed(ip, args, kw):
        return SeqVal(reverse_seq(ip, ip.seq_of(args[0])), 'iter')

    @b('any')
    def _any(ip, args, kw):
        seq = ip.seq_of(args[0], ordered=False)
        r = ip.th.exists(seq, lambda v: zb(ip.truth(v)))
        if r is None:
            raise Unsupported('any over a loop-carried sequence')
        return lift(TBool, z3.simplify(r))

    @b('all')
    def _all(ip, args, kw):
        seq = ip.seq_of(args[0], ordered=False)
        r = ip.th.exists(seq, lambda v: z_not(zb(ip.truth(v))))
        if r is None:
            raise Unsupported('all over a loop-carried sequence')
        return lift(TBool, z3.simplify(z_not(r)))

    @b('sum')
    def _sum(ip, args, kw):
        seq = ip.seq_of(args[0])
        start = args[1] if len(args) > 1 else 0
        st = ip.force(start)
        if not is_scalar(st):
            # Concatenation of lists
            out = ip.seq_of(st)
            return ip.new_list(out + ip.th.map_seq(seq, lambda v: tuple(ip.seq_of(v))))
        ety = numeric_type(ip, seq)
        isreal = ety == TReal or numty(st) == TReal
        t = ip.th.total(seq, lambda v: (real if isreal else num)(ip.force(v)), isreal)
        t0 = real(st) if isreal else num(st)
        return lift(TReal if isreal else TInt, z3.simplify(t0 + t))

    def extreme(name):
        def fn(ip, args, kw):
            if not isinstance(args, StarArgs) and len(args) > 1:
                seq = tuple(Unit(a) for a in args)
            elif isinstance(args, StarArgs):
                seq = args.seq
            else:
                seq = ip.seq_of(args[0], ordered=False)
            return best_of(ip, name, seq, kw)

        return fn

    out['max'] = Builtin('max', extreme('max'))
    out['min'] = Builtin('min', extreme('min'))

    def native_list(ip, cls, args, kw):
        return ip.new_list(ip.seq_of(args[0])) if args else ip.new_list()

    out['list'] = ClassVal('list', [obj], {}, None, 'list', native_list)

    def native_set(ip, cls, args, kw):
        return ip.new_set(ip.seq_of(args[0], ordered=False)) if args else ip.new_set()

    out['set'] = ClassVal('set', [obj], {}, None, 'set', native_set)
    out['frozenset'] = ClassVal('frozenset', [obj], {}, None, 'frozenset', native_set)

    def native_dict(ip, cls, args, kw):
        seq = ()
        if args:
            v = ip.force(args[0])
            if isinstance(v, MapVal) or isinstance(v, FrozenMap) or isinstance(v, Addr) and isinstance(
                    ip.rec(v), DictObj):
                seq = dict_log(ip, v)
            else:
                seq = ip.th.map_seq(ip.seq_of(v), lambda kv: (Unit(('set',) + pair(ip, kv)),))
        for k, v in kw.items():
            seq = seq + (Unit(('set', k, v)),)
        return ip.new_dict(seq)

    out['dict'] = ClassVal('dict', [obj], {'fromkeys': StaticVal(Builtin('fromkeys', dict_fromkeys))}, None, 'dict',
                           native_dict)

    def native_tuple(ip, cls, args, kw):
        if not args:
            return ()
        seq = ip.seq_of(args[0])
        us = ip.th.units(seq)
        return tuple(us) if us is not None else SeqVal(seq, 'tuple')

    out['tuple'] = ClassVal('tuple', [obj], {}, None, 'tuple', native_tuple)

    def native_str(ip, cls, args, kw):
        return to_str(ip, args[0]) if args else ''

    out['str'] = ClassVal('str', [obj], {}, None, 'str', native_str)

    def native_int(ip, cls, args, kw):
        v = ip.force(args[0]) if args else 0
        if isinstance(v, (int, float, Fraction)) and not isinstance(v, enum.Enum):
            return int(v)
        if isinstance(v, enum.Enum) and isinstance(v, int):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                ip.throw('ValueError')
        if isinstance(v, Sym):
            if v.ty.kind in ('int', 'enum'):
                return Sym(TInt, v.t)
            if v.ty == TBool:
                return Sym(TInt, num(v))
            if v.ty == TReal:
                if ip.sv.implied(ip.st.pc, v.t >= 0):
                    return lift(TInt, z3.simplify(z3.ToInt(v.t)))
                return lift(TInt, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
            if v.ty == TStr:
                bad = ip.th.uf('int_bad', [v.t], z3.BoolSort())
                if ip.decide(bad):
                    ip.throw('ValueError')
                return ip.th.mk(TInt, 'int_of_str', [v.t])
        raise Unsupported('int(%r)' % (v,))

    out['int'] = ClassVal('int', [obj], {}, None, 'int', native_int)

    def native_float(ip, cls, args, kw):
        v = ip.force(args[0]) if args else 0.0
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, str):
            return float(v)
        if isinstance(v, Sym):
            if v.ty == TStr:
                bad = ip.th.uf('float_bad', [v.t], z3.BoolSort())
                if ip.decide(bad):
                    ip.throw('ValueError')
                return ip.th.mk(TReal, 'float_of_str', [v.t])
            return Sym(TReal, real(v))
        raise Unsupported('float(%r)' % (v,))

    out['float'] = ClassVal('float', [obj], {}, None, 'float', native_float)

    def native_bool(ip, cls, args, kw):
        return ip.truth_val(args[0]) if args else False

    out['bool'] = ClassVal('bool', [obj], {}, None, 'bool', native_bool)

    @b('isinstance')
    def _isinstance(ip, args, kw):
        v, cls = ip.force(args[0]), ip.force(args[1])
        clss = cls if isinstance(cls, tuple) else (cls,)
        return any(isinstance_of(ip, v, c) for c in clss)

    @b('issubclass')
    def _issubclass(ip, args, kw):
        return args[0].issub(args[1])

    @b('iter')
    def _iter(ip, args, kw):
        v = ip.force(args[0])
        if isinstance(v, SeqVal) and v.kind == 'iter':
            return v
        return SeqVal(ip.seq_of(v), 'iter')

    @b('next')
    def _next(ip, args, kw):
        v = ip.force(args[0])
        if isinstance(v, SeqVal):
            # Only safe for an iterator used once: first element
            seq = ip.th.norm(v.seq)
            if not ip.decide(ip.nonempty(seq)):
                if len(args) > 1:
                    return args[1]
                ip.throw('StopIteration')
            if isinstance(seq[0], Unit):
                return seq[0].v
            return first_elem(ip, seq)
        if isinstance(v, Addr) and isinstance(ip.rec(v), InstObj) and ip.rec(v).cls.lookup('__next__') is not None \
                and len(args) == 1:
            return ip.call(ip.getattr(v, '__next__'), [], {})
        raise Unsupported('next')

    @b('print')
    def _print(ip, args, kw):
        return None

    @b('map')
    def _map(ip, args, kw):
        if len(args) != 2:
            raise Unsupported('map over several iterables')
        return SeqVal(map_call(ip, args[0], ip.seq_of(args[1])), 'iter')

    @b('filter')
    def _filter(ip, args, kw):
        fn = args[0]
        seq = ip.seq_of(args[1])
        src = ip.new_list()

        def body(st, v):
            def run():
                ok = ip.truth(v) if fn is None else ip.truth(ip.call(fn, [v], {}))
                if ip.decide(ok):
                    ip.put(src, ListObj(ip.rec(src).seq + (Unit(v),), 'list'))
                return ip.ok()

            return ip.explore(st, run)

        base = ip.st
        ip.adopt(base, ip.loop(ip.st, seq, body))
        return SeqVal(ip.rec(src).seq, 'iter')

    @b('abs')
    def _abs(ip, args, kw):
        v = ip.force(args[0])
        if not isinstance(v, Sym):
            return abs(v)
        t = num(v)
        return Sym(numty(v), z3.If(t >= 0, t, -t))

    @b('round')
    def _round(ip, args, kw):
        v = ip.force(args[0])
        if not isinstance(v, Sym):
            return round(*[ip.force(a) for a in args])
        raise Unsupported('round')

    @b('repr')
    def _repr(ip, args, kw):
        v = ip.force(args[0])
        cls = ip.rec(v).cls if isinstance(v, Addr) and isinstance(ip.rec(v), InstObj) else v.cls if isinstance(
            v, ObjVal) else ip.schema(v).cls if isinstance(v, Sym) and v.ty.kind == 'ref' else None
        m = cls.lookup('__repr__') if cls is not None else None
        if m is None:
            raise Unsupported('repr(%r)' % (v,))
        return ip.call(ip.bind(m, v, cls), [], {})

    @b('hash')
    def _hash(ip, args, kw):
        raise Unsupported('hash')

    @b('id')
    def _id(ip, args, kw):
        raise Unsupported('id')

    @b('getattr')
    def _getattr(ip, args, kw):
        name = ip.force(args[1])
        if not isinstance(name, str):
            raise Unsupported('computed attribute name')
        return ip.getattr_any(args[0], name)

    @b('setattr')
    def _setattr(ip, args, kw):
        name = ip.force(args[1])
        if not isinstance(name, str):
            raise Unsupported('computed attribute name')
        ip.setattr(ip.force(args[0]), name, args[2])
        return None

    @b('ord')
    def _ord(ip, args, kw):
        v = ip.force(args[0])
        return ord(v) if isinstance(v, str) else Sym(TInt, z3.StrToCode(v.t))

    @b('chr')
    def _chr(ip, args, kw):
        v = ip.force(args[0])
        return chr(v) if isinstance(v, int) else Sym(TStr, z3.StrFromCode(v.t))

    @b('callable')
    def _callable(ip, args, kw):
        v = ip.force(args[0])
        return isinstance(v, (PyFunc, BoundMethod, ClassVal, OpaqueFn, Builtin))

    @b('divmod')
    def _divmod(ip, args, kw):
        a, bb = ip.force(args[0]), ip.force(args[1])
        return (binop(ip, 'FloorDiv', a, bb), binop(ip, 'Mod', a, bb))

    @b('type')
    def _type(ip, args, kw):
        v = ip.force(args[0])
        if isinstance(v, Addr) and isinstance(ip.rec(v), InstObj):
            return ip.rec(v).cls
        raise Unsupported('type()')

    @b('open')
    def _open(ip, args, kw):
        h = ip.ext.get('open')
        if h is None:
            raise Unsupported('open()')
        return h(ip, args, kw)

    out['property'] = DecoratorVal(lambda ip, f: PropertyVal(f))
    out['staticmethod'] = DecoratorVal(lambda ip, f: StaticVal(f))
    out['classmethod'] = DecoratorVal(lambda ip, f: ClassMethodVal(f))
    out['True'], out['False'], out['None'] = True, False, None
    out['NotImplemented'] = Ext('NotImplemented')
    out['__name__'] = 'module'
    return out


def numeric_type(ip, seq):
    t = TInt
    for s in seq:
        if isinstance(s, Unit):
            u = numty(ip.force(s.v)) if is_scalar(ip.force(s.v)) else None
        elif isinstance(s, Var):
            u = TReal if s.ety == TReal else TInt
        else:
            u = numeric_type(ip, s.body)
        if u == TReal:
            t = TReal
        if u is None:
            raise Unsupported('sum of non numbers')
    return t


def pair(ip, v):
    v = ip.force(v)
    if isinstance(v, tuple) and len(v) == 2:
        return v
    seq = ip.seq_of(v)
    us = ip.th.units(seq)
    if us is not None and len(us) == 2:
        return tuple(us)
    raise Unsupported('pair expected')


def isinstance_of(ip, v, c):
    name = c.name if isinstance(c, ClassVal) else c.__name__ if isinstance(c, type) else str(c)
    if isinstance(c, ClassVal):
        if isinstance(v, Addr) and isinstance(ip.rec(v), InstObj):
            return ip.rec(v).cls.issub(c)
        if isinstance(v, ObjVal):
            return v.cls.issub(c)
        if isinstance(v, Sym) and v.ty.kind == 'ref':
            cls = ip.schema(v).cls
            return cls is not None and cls.issub(c)
    if name == 'str':
        return is_str(v)
    if name == 'int':
        return numty(v) == TInt if is_scalar(v) else False
    if name == 'float':
        return scalar_type(v) == TReal if is_scalar(v) else False
    if name == 'bool':
        return scalar_type(v) == TBool if is_scalar(v) else False
    if name == 'list':
        return isinstance(v, FieldList) or isinstance(v, SeqVal) and v.kind == 'list' or isinstance(v, Addr) and isinstance(
            ip.rec(v), ListObj) and ip.rec(v).kind == 'list'
    if name == 'tuple':
        return isinstance(v, tuple) or isinstance(v, SeqVal) and v.kind == 'tuple'
    if name == 'dict':
        return isinstance(v, (MapVal, FrozenMap)) or isinstance(v, Addr) and isinstance(ip.rec(v), DictObj)
    if name == 'set':
        return isinstance(v, (SetVal, FrozenSet)) or isinstance(v, Addr) and isinstance(ip.rec(v), SetObj)
    if isinstance(c, type):
        return isinstance(v, c)
    raise Unsupported('isinstance(_, %s)' % name)


# ###############################################################################
# SEQUENCES
# ###############################################################################


def length(ip, v):
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Sym) and v.ty == TStr:
        return Sym(TInt, z3.Length(v.t))
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, RangeVal):
        return lift(TInt, v.count(ip))
    if isinstance(v, (range, type)):
        return len(v)
    if isinstance(v, Addr):
        r = ip.rec(v)
        if isinstance(r, InstObj):
            m = r.cls.lookup('__len__')
            if m is not None:
                return ip.call(ip.bind(m, v, r.cls), [], {})
        if isinstance(r, SetObj):
            return set_size(ip, r.seq)
        if isinstance(r, DictObj):
            return lift(TInt, ip.th.seq_len(dict_keys(ip, r)))
        if isinstance(r, ListObj):
            return lift(TInt, ip.th.seq_len(r.seq))
    if isinstance(v, FrozenSet):
        return set_size(ip, v.seq)
    if isinstance(v, FrozenMap):
        return lift(TInt, ip.th.seq_len(dict_keys(ip, DictObj(v.seq, v.kind))))
    if isinstance(v, (SeqVal, FieldList, DictSlot)):
        return lift(TInt, ip.th.seq_len(ip.seq_of(v)))
    if isinstance(v, ObjVal):
        m = v.cls.lookup('__len__')
        if m is not None:
            return ip.call(ip.bind(m, v, v.cls), [], {})
    if isinstance(v, Sym) and v.ty.kind == 'ref':
        return ip.call(ip.getattr(v, '__len__'), [], {})
    if isinstance(v, (MapVal, SetVal)):
        return lift(TInt, ip.th.uf('mapsize', [v.t], z3.IntSort()))
    if v is None or is_scalar(v):
        ip.throw('TypeError')
    raise Unsupported('len(%r)' % (v,))


def set_size(ip, seq):
    us = ip.th.units(seq)
    if us is not None and all(is_concrete(x) for x in us):
        return len(set(us))
    if us is not None and len(us) == 1:
        return 1
    return lift(TInt, ip.th.seq_len(keys_seq(ip, seq)))


def index_seq(ip, seq):
    """(length, element function) of any sequence"""
    ix = ip.th.indexable(seq)
    if ix is not None:
        return ix
    seq = ip.freeze_seq(seq)
    n = ip.th.seq_len(seq)
    return n, lambda i: ip.th.get(seq, i)


def zip_seqs(ip, seqs):
    uss = [ip.th.units(s) for s in seqs]
    if all(u is not None for u in uss):
        return tuple(Unit(t) for t in zip(*uss))
    if any(ip.th.indexable(s) is None for s in seqs):
        r = zip_aligned(ip, [ip.th.norm(ip.freeze_seq(s)) for s in seqs])
        if r is not None:
            return r
    ixs = [index_seq(ip, s) for s in seqs]
    n = min_len(ip, [ix[0] for ix in ixs])
    if any(ix[1] is None for ix in ixs):
        return ()
    k = to_int_if_concrete(n)
    if k is not None and k <= 40:
        return tuple(Unit(tuple(ix[1](z3.IntVal(i)) for ix in ixs)) for i in range(k))
    b = fresh_binder()
    return (Comp(b, n, (Unit(tuple(ix[1](b) for ix in ixs)),)),)


def zip_aligned(ip, seqs):
    """zip of sequences built by the same nested iterations (constant ones fit any iteration), None otherwise"""
    def constant(s):
        return len(s) == 1 and isinstance(s[0], Comp) and len(s[0].body) == 1 and isinstance(s[0].body[0], Unit) and \
            s[0].b.decl().name() not in names_in(ip, s[0].body[0].v)

    flat = {k: s[0].body[0].v for k, s in enumerate(seqs) if constant(s)}
    shaped = [k for k in range(len(seqs)) if k not in flat]
    if not shaped:
        return None
    n = ip.th.seq_len(seqs[shaped[0]])
    if not all(ip.sv.prove(ip.st.pc, ip.th.seq_len(seqs[k]) == n) for k in range(len(seqs))):
        return None

    def walk(parts):
        if len({len(x) for x in parts}) != 1:
            return None
        out = []
        for segs in zip(*parts):
            if all(isinstance(x, Unit) for x in segs):
                vals = dict(flat)
                vals.update({k: x.v for k, x in zip(shaped, segs)})
                out.append(Unit(tuple(vals[k] for k in range(len(seqs)))))
                continue
            if all(isinstance(x, Guard) for x in segs):
                if not all(zb(x.c).eq(zb(segs[0].c)) for x in segs):
                    return None
                body = walk([x.body for x in segs])
                if body is None:
                    return None
                out.append(Guard(segs[0].c, body))
                continue
            comps = [ip.th._as_comp(x) if isinstance(x, (Comp, Var)) else None for x in segs]
            if any(c is None for c in comps):
                return None
            b = fresh_binder()
            if not all(zint(c.n).eq(zint(comps[0].n)) for c in comps):
                return None
            body = walk([subst(c.body, [(c.b, b)]) for c in comps])
            if body is None:
                return None
            out.append(Comp(b, comps[0].n, body))
        return tuple(out)

    return walk([seqs[k] for k in shaped])


def names_in(ip, v):
    out = set()
    for t in ip.th._terms(v):
        out |= set(free_consts(t))
    return out


def tuple_size(seq):
    """Number of components when all elements are tuples of the same size"""
    sizes = set()
    for s in seq:
        if isinstance(s, Unit):
            sizes.add(len(s.v) if isinstance(s.v, tuple) else None)
        elif isinstance(s, Var):
            sizes.add(len(s.ety.args) if s.ety is not None and s.ety.kind == 'tuple' else None)
        else:
            sizes.add(tuple_size(s.body))
    return sizes.pop() if len(sizes) == 1 else None


def min_len(ip, ns):
    n = ns[0]
    for m in ns[1:]:
        if ip.sv.implied(ip.st.pc, n <= m):
            continue
        if ip.sv.implied(ip.st.pc, m <= n):
            n = m
        else:
            n = z3.simplify(z3.If(n <= m, n, m))
    return n


def zip_star(ip, seq):
    """zip(*sequences) for an unknown number of sequences: tuples are sequences themselves"""
    seq = ip.th.norm(seq)
    us = ip.th.units(seq)
    if us is not None and len(us) <= 6:
        return SeqVal(zip_seqs(ip, [ip.seq_of(u) for u in us]), 'iter')
    size = tuple_size(seq) if seq else None
    if size is not None:
        if not ip.decide(ip.th.seq_len(seq) > 0):
            return SeqVal((), 'iter')
        return SeqVal(tuple(Unit(SeqVal(ip.th.map_seq(seq, lambda v, k=k: (Unit(v[k]),)), 'tuple')) for k in range(size)), 'iter')
    n, get = index_seq(ip, seq)
    if get is None:
        return SeqVal((), 'iter')
    i = fresh_binder()
    rng = [i >= 0, i < n]

    def at_i(i):
        v = get(i)
        sub = ip.seq_of(v)
        ix = ip.th.indexable(sub)
        if ix is None:
            raise Unsupported('zip(*) of irregular sequences')
        return ix

    li = at_i(i)[0]
    # The shortest: last or first when lengths are monotone
    ip.st.pc.extend([])
    pc = ip.st.pc + rng
    last = z3.simplify(z3.substitute(zint(li), (i, n - 1)))
    first = z3.simplify(z3.substitute(zint(li), (i, z3.IntVal(0))))
    if ip.sv.prove(pc, last <= li):
        m = last
    elif ip.sv.prove(pc, first <= li):
        m = first
    else:
        raise Unsupported('zip(*) of sequences of unrelated lengths: %r' % (seq,))
    m = z3.simplify(z3.If(n > 0, m, z3.IntVal(0)))
    if ip.sv.implied(ip.st.pc, n > 0):
        m = z3.simplify(last if ip.sv.prove(pc, last <= li) else first)
    j = fresh_binder()
    body = at_i(i)[1](j)
    return SeqVal((Comp(j, m, (Unit(SeqVal((Comp(i, n, (Unit(body),)),), 'tuple')),)),), 'iter')


def reverse_seq(ip, seq):
    us = ip.th.units(seq)
    if us is not None:
        return tuple(Unit(x) for x in reversed(us))
    out = []
    for s in reversed(tuple(seq)):
        if isinstance(s, Unit):
            out.append(s)
        elif isinstance(s, Guard):
            out.append(Guard(s.c, reverse_seq(ip, s.body)))
        else:
            if isinstance(s, Var) and s.ety is None:
                raise Unsupported('reversal of a sequence of unknown elements')
            c = ip.th._as_comp(s)
            n = zint(c.n)
            if not ip.sv.implied(ip.st.pc, n >= 0):
                n = z3.If(n >= 0, n, z3.IntVal(0))
            b = fresh_binder()
            out.append(Comp(b, n, reverse_seq(ip, subst(c.body, [(c.b, z3.simplify(n - 1 - b))]))))
    return tuple(out)


def first_elem(ip, seq):
    n, get = index_seq(ip, seq)
    return get(z3.IntVal(0))


def keyed(ip, seq, keyfn):
    """Sequence of pairs (key, element)"""
    if keyfn is None:
        return ip.th.map_seq(seq, lambda v: (Unit((v, v)),))
    return map_call(ip, keyfn, seq, with_item=True)


def map_call(ip, fn, seq, with_item=False):
    acc = ip.new_list()

    def body(st, v):
        def run():
            r = ip.call(fn, [v], {})
            ip.put(acc, ListObj(ip.rec(acc).seq + (Unit((r, v) if with_item else r),), 'list'))
            return ip.ok()

        return ip.explore(st, run)

    base = ip.st
    ip.adopt(base, ip.loop(ip.st, seq, body))
    return ip.rec(acc).seq


def sort_seq(ip, seq, kw):
    keyfn = ip.force(kw.get('key'))
    rev = ip.force(kw.get('reverse', False))
    if not isinstance(rev, bool):
        raise Unsupported('reverse=')
    us = ip.th.units(seq)
    if us is not None and len(us) <= 1:
        return tuple(Unit(u) for u in us)
    ks = keyed(ip, seq, keyfn)
    us = ip.th.units(ks)
    if us is not None and all(is_concrete(k) for k, _ in us):
        return tuple(Unit(v) for _, v in sorted(us, key=lambda kv: kv[0], reverse=rev))
    if us is not None and len(us) == 2:
        (k1, v1), (k2, v2) = [(ip.force(k), ip.freeze(v)) for k, v in us]
        swap = zb(order(ip, 'Gt' if rev else 'Lt', k2, k1))

        def pick(x, y):
            if isinstance(x, SeqVal) and isinstance(y, SeqVal) and x.kind == y.kind:
                ux, uy = ip.th.units(x.seq), ip.th.units(y.seq)
                if ux is not None and uy is not None and len(ux) == len(uy):
                    return SeqVal(tuple(Unit(pick(p, q)) for p, q in zip(ux, uy)), x.kind)
            return ip.th.merge_vals([(swap, x), (z_not(swap), y)])

        return Unit(pick(v2, v1)), Unit(pick(v1, v2))
    fs = ip.freeze_seq(ks)
    t = ip.th.opaque('SORTED', (SeqVal(ip.th.norm(fs)), rev), SeqX)
    ety = ip.th.elem_type(ip.freeze_seq(seq))
    # A sort is a permutation: same length
    def same_length(app, ip=ip):
        e = ip.sv.entries.get(app.decl().name())
        return [ip.th.len_of(app) == ip.th.seq_len(e.inst(app.children())[0].seq)] if e is not None else []

    ip.sv.axioms.setdefault(t.decl().name(), same_length)
    return (Var(t, ety),)


def best_of(ip, name, seq, kw):
    keyfn = ip.force(kw.get('key'))
    seq = ip.th.norm(seq)
    if keyfn is None and len(seq) == 1 and isinstance(seq[0], Var):
        e = ip.sv.entries.get(seq[0].t.decl().name())
        if e is not None and e.op == 'KEYS':  # Repeated elements do not matter
            seq = e.inst(seq[0].t.children()).seq
    ks = keyed(ip, seq, keyfn)
    if not ip.decide(ip.nonempty(ks)):
        if 'default' in kw:
            return kw['default']
        ip.throw('ValueError')
    return best_keyed(ip, name, ks)


def best_keyed(ip, name, ks):
    us = ip.th.units(ks)
    if us is not None and len(us) <= 6:
        bk, bv = us[0]
        for k, v in us[1:]:
            c = order(ip, 'Gt' if name == 'max' else 'Lt', ip.force(k), ip.force(bk))
            if isinstance(c, bool):
                if c:
                    bk, bv = k, v
            else:
                bk, bv = ip.th.merge_vals([(c, (k, v)), (z_not(c), (bk, bv))])
        return bv
    fs = ip.th.norm(ip.freeze_seq(ks))
    ix = ip.th.indexable(fs)
    if ix is not None:  # The index of the best depends on the keys only
        n, get = ix
        keys = ip.th.norm(ip.th.map_seq(fs, lambda kv: (Unit(kv[0]),)))
        at = ip.th.opaque(name.upper() + 'AT', SeqVal(keys), z3.IntSort())

        def inside(app, ip=ip):
            e = ip.sv.entries.get(app.decl().name())
            if e is None:
                return []
            seq = e.inst(app.children()).seq
            m = ip.th.seq_len(seq)
            out = [z3.Implies(m > 0, z3.And(app >= 0, app < m))]
            for i in getattr(ip, 'best_points', ()):  # No key is better, in particular the one at these indexes
                ix = ip.th.indexable(seq)
                if ix is not None and numty(ix[1](i)) is not None:
                    x, y = num(ix[1](i)), num(ix[1](app))
                    out.append(z3.Implies(z3.And(i >= 0, i < m), x <= y if name == 'max' else x >= y))
            return out

        ip.sv.axioms.setdefault(at.decl().name(), inside)
        return get(at)[1]
    ety = ip.th.elem_type(ip.th.map_seq(fs, lambda kv: (Unit(kv[1]),)))
    if ety is None:
        raise Unsupported('%s of values of unknown type' % name)
    tok = ip.th.opaque(name.upper(), SeqVal(fs), AnySort)
    return ip.th.mk(ety, 'best<%s>' % ety.key, [tok])


def set_order(ip, seq, ordered):
    us = ip.th.units(seq)
    if not ordered or us is not None and len(us) <= 1:
        return seq
    if us is not None and all(is_concrete(x) for x in us):
        # Iteration order of a set is unspecified: an arbitrary but fixed permutation is not assumed
        try:
            return tuple(Unit(x) for x in sorted(set(us), key=lambda x: (str(type(x)), x)))
        except TypeError:
            pass
    raise Unsupported('iteration over a set (unspecified order)')


def norm_index(ip, i, n):
    """Non-negative index: i, or n + i for a negative one (forks when the sign is unknown)"""
    k = to_int_if_concrete(i)
    if k is not None:
        return z3.IntVal(k) if k >= 0 else z3.simplify(n + k)
    if ip.sv.implied(ip.st.pc, i >= 0):
        return i
    if ip.decide(i < 0):
        return z3.simplify(n + i)
    return i


def clamp(ip, x, lo, hi):
    if not ip.sv.implied(ip.st.pc, x >= lo):
        x = z3.If(x >= lo, x, lo)
    if not ip.sv.implied(ip.st.pc, x <= hi):
        x = z3.If(x <= hi, x, hi)
    return z3.simplify(x)


def slice_bounds(ip, lo, hi, n):
    def side(v, default):
        if v is None:
            return default
        v = ip.force(v)
        if v is None:
            return default
        t = zint_of(ip, v)
        k = to_int_if_concrete(t)
        if k is not None:
            if k < 0:
                t = z3.simplify(n + k)
                return z3.simplify(z3.If(t >= 0, t, z3.IntVal(0))) if not ip.sv.implied(ip.st.pc, t >= 0) else t
            if not ip.sv.implied(ip.st.pc, t <= n):
                return z3.simplify(z3.If(t <= n, t, n))
            return t
        if ip.sv.implied(ip.st.pc, t >= 0):
            pass
        elif ip.sv.implied(ip.st.pc, t < 0):
            t = z3.simplify(n + t)
        else:
            t = z3.simplify(z3.If(t < 0, n + t, t))
        return clamp(ip, t, z3.IntVal(0), n)

    l, h = side(lo, z3.IntVal(0)), side(hi, n)
    if not ip.sv.implied(ip.st.pc, h >= l):
        h = z3.simplify(z3.If(h >= l, h, l))
    return l, h


def getslice(ip, obj, lo, hi, step):
    obj = ip.force(obj)
    step = ip.force(step)
    if step is not None and step != 1:
        if step == -1 and lo is None and hi is None:
            if isinstance(obj, str):
                return obj[::-1]
            if is_str(obj):
                raise Unsupported('reversed string')
            r = reverse_seq(ip, ip.seq_of(obj))
            if isinstance(obj, tuple):
                return tuple(s.v for s in r)
            return ip.new_list(r)
        if isinstance(obj, (str, tuple)) and all(x is None or isinstance(ip.force(x), int) for x in (lo, hi)):
            return obj[slice(ip.force(lo), ip.force(hi), step)]
        us = ip.th.units(ip.seq_of(obj))
        if us is not None and all(x is None or isinstance(ip.force(x), int) for x in (lo, hi)):
            return ip.new_list(tuple(Unit(x) for x in us[slice(ip.force(lo), ip.force(hi), step)]))
        raise Unsupported('extended slice')
    if is_str(obj):
        return str_slice(ip, obj, lo, hi)
    if isinstance(obj, tuple):
        l, h = (None if x is None else ip.force(x) for x in (lo, hi))
        if all(x is None or isinstance(x, int) for x in (l, h)):
            return obj[l:h]
    h = ip.ext.get('@getslice')
    if h is not None:
        r = h(ip, obj, lo, hi)
        if r is not None:
            return r
    seq = ip.seq_of(obj)
    us = ip.th.units(seq)
    if us is not None:
        l, h = (None if x is None else ip.force(x) for x in (lo, hi))
        if all(x is None or isinstance(x, int) for x in (l, h)):
            out = tuple(Unit(x) for x in us[l:h])
            return _slice_result(ip, obj, out)
    if lo is not None and hi is not None:
        block = ip.th.block(seq, zint_of(ip, ip.force(lo)), zint_of(ip, ip.force(hi)))
        if block is not None:
            return _slice_result(ip, obj, block)
    n = ip.th.seq_len(seq)
    l, h = slice_bounds(ip, lo, hi, n)
    return _slice_result(ip, obj, ip.th.slice(ip.freeze_slice(seq), l, h))


def _slice_result(ip, obj, seq):
    if isinstance(obj, tuple) or isinstance(obj, SeqVal) and obj.kind == 'tuple':
        us = ip.th.units(seq)
        return tuple(us) if us is not None else SeqVal(seq, 'tuple')
    kind = ip.rec(obj).kind if isinstance(obj, Addr) else 'list'
    return ip.new_list(seq, kind)


def getitem(ip, obj, key):
    obj = ip.force(obj)
    h = ip.ext.get('@getitem')
    if h is not None:
        r = h(ip, obj, key)
        if r is not None:
            return r[0]
    if isinstance(obj, Addr):
        r = ip.rec(obj)
        if isinstance(r, DictObj):
            return dict_getitem(ip, obj, key)
        if isinstance(r, InstObj):
            m = r.cls.lookup('__getitem__')
            if m is not None:
                return ip.call(ip.bind(m, obj, r.cls), [key], {})
            raise Unsupported('indexing %s' % r.cls.name)
    if isinstance(obj, DictSlot):
        k = slot_kind(ip, obj)
        if k == 'dict':
            return slot_getitem(ip, obj, key)
        fk = ip.force(key)
        if k == 'opaque' and not isinstance(fk, (int, SliceVal)) and not (isinstance(fk, Sym) and fk.ty in (TInt, TBool)):
            # Only a dictionary takes such keys
            if not ip.decide(zb(slot_has(ip, obj, key))):
                ip.throw('KeyError')
            return DictSlot(obj.owner, obj.path + (key,))
    if isinstance(obj, MapVal):
        if not ip.decide(map_has(ip, obj, key)):
            ip.throw('KeyError')
        return map_get(ip, obj, key)
    if isinstance(obj, FrozenMap):
        present, v = dict_lookup(ip, obj.seq, key)
        if not ip.decide(present):
            ip.throw('KeyError')
        return v
    if isinstance(obj, ObjVal):
        m = obj.cls.lookup('__getitem__')
        if m is not None:
            return ip.call(ip.bind(m, obj, obj.cls), [key], {})
    if isinstance(obj, Sym) and obj.ty.kind == 'ref':
        return ip.call(ip.getattr(obj, '__getitem__'), [key], {})
    if isinstance(obj, type) and issubclass(obj, enum.Enum):
        k = ip.force(key)
        if isinstance(k, str):
            try:
                return obj[k]
            except KeyError:
                ip.throw('KeyError')
        return enum_named(ip, obj, k)
    key = ip.force(key)
    if isinstance(key, SliceVal):
        return getslice(ip, obj, key.lo, key.hi, key.step)
    if is_str(obj):
        return str_index(ip, obj, key)
    if obj is None:
        ip.throw('TypeError')
    if isinstance(obj, range) and isinstance(key, int):
        return obj[key]
    if isinstance(obj, Addr):
        settle_objects(ip, obj)
    seq = ip.seq_of(obj)
    us = ip.th.units(seq)
    if us is not None and isinstance(key, int):
        if not -len(us) <= key < len(us):
            ip.throw('IndexError')
        return us[key]
    i = zint_of(ip, key)
    k = to_int_if_concrete(i)
    # Known end of the sequence
    if k is not None and k >= 0 and len(seq) > k and all(isinstance(s, Unit) for s in seq[:k + 1]):
        return seq[k].v
    if k is not None and k < 0 and len(seq) >= -k and all(isinstance(s, Unit) for s in seq[k:]):
        return seq[k].v
    n = ip.th.seq_len(seq)
    i = norm_index(ip, i, n)
    if not ip.decide(z3.simplify(z3.And(i >= 0, i < n))):
        ip.throw('IndexError')
    if us is not None and len(us) <= 60 and any(isinstance(u, Addr) for u in us):
        # Keeps the identity of the objects
        for j, u in enumerate(us[:-1]):
            if ip.decide(i == j):
                return u
        return us[-1]
    if any(isinstance(s, Var) and s.ety is None for s in seq) or any(isinstance(s, Unit) and isinstance(s.v, Addr) for s in seq):
        off = z3.IntVal(0)
        for s in seq:
            if isinstance(s, Unit) and ip.sv.implied(ip.st.pc, i == off):
                return s.v
            off = z3.simplify(off + ip.th.seq_len((s,)))
    from .loops import object_list
    c = object_list(ip.th, seq)
    if c is not None and isinstance(obj, Addr):
        return borrow(ip, obj, c, z3.simplify(i))
    n, get = index_seq(ip, seq)
    return get(z3.simplify(i))


def settle_objects(ip, obj):
    """Chooses the alternatives of a list of objects so that its elements can be modified in place"""
    r = ip.rec(obj)
    if not (isinstance(r, ListObj) and any(isinstance(s, Guard) for s in r.seq) and has_origin(r.seq, None)):
        return
    out = []
    for s in r.seq:
        if isinstance(s, Guard):
            if ip.decide(s.c):
                out.extend(s.body)
        else:
            out.append(s)
    ip.put(obj, ListObj(tuple(out), r.kind))


def borrow(ip, obj, c, i):
    """Gives an address to the element i of a list of objects, so that it can be modified in place"""
    origin = c.body[0].v.origin
    for a, r in ip.st.heap.items():
        if a != obj and isinstance(r, (ScopeObj, InstObj, ListObj, SetObj, DictObj)):
            vs = r.vars.values() if isinstance(r, ScopeObj) else r.fields.values() if isinstance(r, InstObj) else [r.seq]
            if any(has_origin(v, origin) for v in vs):
                return subst(c.body[0].v, [(c.b, i)])  # Shared: read only
    v = box(ip, subst(c.body[0].v, [(c.b, i)]))
    k = fresh_binder()
    r = ip.rec(obj)
    ip.put(obj, ListObj((Comp(c.b, i, c.body), Unit(v),
                         Comp(k, z3.simplify(zint(c.n) - i - 1), subst(c.body, [(c.b, k + i + 1)]))), r.kind))
    return v


def box(ip, v):
    if isinstance(v, ObjVal):
        return ip.alloc(InstObj(v.cls, {k: box(ip, x) for k, x in v.fields.items()}))
    if isinstance(v, SeqVal) and v.kind in ('list', 'deque', 'ndarray'):
        return ip.alloc(ListObj(v.seq, v.kind))
    if isinstance(v, FrozenSet):
        return ip.alloc(SetObj(v.seq))
    if isinstance(v, FrozenMap):
        return ip.alloc(DictObj(v.seq, v.kind))
    if isinstance(v, Choice):
        return Choice([(c, box(ip, x)) for c, x in v.alts])
    if isinstance(v, tuple):
        return tuple(box(ip, x) for x in v)
    return v


def has_origin(v, origin):
    if isinstance(v, ObjVal):
        return origin is None or v.origin == origin or any(has_origin(x, origin) for x in v.fields.values())
    if isinstance(v, tuple):
        return any(has_origin(x, origin) for x in v)
    if isinstance(v, Unit):
        return has_origin(v.v, origin)
    if isinstance(v, (Comp, Guard)):
        return has_origin(v.body, origin)
    if isinstance(v, (SeqVal, FrozenSet, FrozenMap)):
        return has_origin(v.seq, origin)
    if isinstance(v, Choice):
        return any(has_origin(x, origin) for _, x in v.alts)
    return False


def setitem(ip, obj, key, v):
    obj = ip.force(obj)
    h = ip.ext.get('@setitem')
    if h is not None and h(ip, obj, key, v):
        return
    if isinstance(obj, Addr):
        r = ip.rec(obj)
        if isinstance(r, DictObj):
            dict_set(ip, obj, key, v)
            return
        if isinstance(r, InstObj):
            m = r.cls.lookup('__setitem__')
            if m is not None:
                ip.call(ip.bind(m, obj, r.cls), [key, v], {})
                return
        if isinstance(r, ListObj):
            seq = r.seq
            key = ip.force(key)
            if isinstance(key, SliceVal):
                set_slice(ip, obj, key, v)
                return
            i = zint_of(ip, key)
            k = to_int_if_concrete(i)
            us = ip.th.units(seq)
            if r.kind == 'ndarray':
                set_cell(ip, obj, i, v)
                return
            if us is not None and k is not None:
                if not -len(us) <= k < len(us):
                    ip.throw('IndexError')
                us = list(us)
                us[k] = v
                ip.put(obj, ListObj(tuple(Unit(x) for x in us), r.kind))
                return
            n = ip.th.seq_len(seq)
            i = norm_index(ip, i, n)
            if not ip.decide(z3.simplify(z3.And(i >= 0, i < n))):
                ip.throw('IndexError')
            m, get = index_seq(ip, ip.freeze_seq(seq))
            b = fresh_binder()
            val = ip.th.merge_vals([(b == i, ip.freeze(v)), (b != i, get(b))])
            ip.put(obj, ListObj((Comp(b, n, (Unit(val),)),), r.kind))
            return
    if isinstance(obj, DictSlot):
        slot_set(ip, obj, key, v)
        return
    if isinstance(obj, (tuple, str)):
        ip.throw('TypeError')
    if isinstance(obj, Ext) and obj.name == 'os.environ':
        return None  # Settings of the process: nothing under contract reads them
    raise Unsupported('item assignment on %r' % (obj,))


def set_cell(ip, obj, i, v):
    """array[i] = v: a number, or a row of the same length"""
    r = ip.rec(obj)
    n = ip.th.seq_len(r.seq)
    i = norm_index(ip, i, n)
    if not ip.decide(z3.simplify(z3.And(i >= 0, i < n))):
        ip.throw('IndexError')
    i = z3.simplify(i)
    v = ip.force(v)
    row = ip._maybe_seq(v)
    new = ip.freeze(v) if row is None else SeqVal(ip.freeze_seq(row), 'ndarray')
    off = z3.IntVal(0)
    for j, s in enumerate(r.seq):
        size = z3.simplify(ip.th.seq_len((s,)))
        if isinstance(s, Unit):
            old, parts = s.v, ((), ())
        elif isinstance(s, Comp) and len(s.body) == 1 and isinstance(s.body[0], Unit):
            b = fresh_binder()
            at = z3.simplify(i - off)
            old = subst(s.body[0].v, [(s.b, at)])
            parts = ((Comp(s.b, at, s.body),),
                     (Comp(b, z3.simplify(size - at - 1), subst(s.body, [(s.b, z3.simplify(b + at + 1))])),))
        else:
            old = None
        end = z3.simplify(off + size)
        if old is not None and ip.sv.implied(ip.st.pc, z3.And(i >= off, i < end)):
            cell = ip._maybe_seq(old)
            if (cell is None) != (row is None):
                raise Unsupported('array cells of another shape')
            if row is None:
                if scalar_type(old) is None or numty(new) is None or numty(old) == TInt and numty(new) != TInt:
                    raise Unsupported('array cells of another type')
            elif not ip.sv.implied(ip.st.pc, ip.th.seq_len(cell) == ip.th.seq_len(new.seq)):
                raise Unsupported('array rows of another length: %s / %s' % (ip.th.seq_len(cell), z3.simplify(ip.th.seq_len(new.seq))))
            ip.put(obj, ListObj(ip.th.norm(r.seq[:j] + parts[0] + (Unit(new),) + parts[1] + r.seq[j + 1:]), 'ndarray'))
            return
        off = end
    raise Unsupported('array assignment at an unknown position')


def set_slice(ip, obj, key, v):
    """array[lo:hi] = values: as many values as cells"""
    r = ip.rec(obj)
    if ip.force(key.step) not in (None, 1):
        raise Unsupported('assignment to an extended slice')
    n = ip.th.seq_len(r.seq)
    lo, hi = slice_bounds(ip, key.lo, key.hi, n)
    seq = ip.freeze_seq(ip.seq_of(v))
    old = ip.freeze_slice(r.seq)
    if r.kind == 'ndarray':
        if not ip.sv.implied(ip.st.pc, ip.th.seq_len(seq) == hi - lo):
            raise Unsupported('array slice of another length')
        if any(isinstance(x, (SeqVal, tuple)) for s in seq + old for x in [getattr(s, 'v', None)]):
            raise Unsupported('slice of a matrix')
    ip.put(obj, ListObj(ip.th.norm(ip.th.slice(old, z3.IntVal(0), lo) + seq + ip.th.slice(old, hi, n)), r.kind))


def delitem(ip, obj, key):
    if isinstance(obj, Addr) and isinstance(ip.rec(obj), DictObj):
        r = ip.rec(obj)
        if not ip.decide(dict_has(ip, r, key)):
            ip.throw('KeyError')
        ip.put(obj, DictObj(r.seq + (Unit(('del', ip.freeze(ip.force(key)), None)),), r.kind))
        return
    if isinstance(obj, Addr) and isinstance(ip.rec(obj), ListObj):
        pop_at(ip, obj, key)
        return
    raise Unsupported('del on %r' % (obj,))


# LISTS
# ----------------------------------------------------------------------------


def list_extend(ip, obj, seq):
    obj = ip.force(obj)
    if isinstance(obj, FieldList):
        for s in seq:
            field_extend(ip, obj, s)
        return
    if isinstance(obj, DictSlot):
        slot_extend(ip, obj, seq)
        return
    r = ip.rec(obj)
    ip.put(obj, ListObj(r.seq + tuple(seq), r.kind))


def field_extend(ip, fl, seg):
    """Logs the append of every element of a segment to a list field"""
    key = ip.log_key(ip.schema(fl.ref), fl.field)
    r = ip.st.heap.get(key)
    seq = r.seq if r is not None else ()
    frozen = ip.freeze_seq((seg,))
    ip.st.heap[key] = ListObj(seq + ip.th.map_seq(frozen, lambda v: (Unit((fl.ref, 'append', v)),)), 'log')


def pop_at(ip, obj, key):
    r = ip.rec(obj)
    seq = r.seq
    i = zint_of(ip, key)
    k = to_int_if_concrete(i)
    if k == -1 and seq and isinstance(seq[-1], Unit):
        ip.put(obj, ListObj(seq[:-1], r.kind))
        return seq[-1].v
    if k == 0 and seq and isinstance(seq[0], Unit):
        ip.put(obj, ListObj(seq[1:], r.kind))
        return seq[0].v
    us = ip.th.units(seq)
    if us is not None and k is not None:
        if not -len(us) <= k < len(us):
            ip.throw('IndexError')
        us = list(us)
        v = us.pop(k)
        ip.put(obj, ListObj(tuple(Unit(x) for x in us), r.kind))
        return v
    n = ip.th.seq_len(seq)
    i = norm_index(ip, i, n)
    if not ip.decide(ip.nonempty(seq) if k in (0, -1) else z3.simplify(z3.And(i >= 0, i < n))):
        ip.throw('IndexError')
    fs = ip.freeze_seq(seq)
    m, get = index_seq(ip, fs)
    v = get(z3.simplify(i))
    if k == -1:
        rest = ip.th.slice(fs, z3.IntVal(0), z3.simplify(n - 1))
    elif k == 0:
        rest = ip.th.slice(fs, z3.IntVal(1), n)
    else:
        rest = ip.th.slice(fs, z3.IntVal(0), i) + ip.th.slice(fs, z3.simplify(i + 1), n)
    ip.put(obj, ListObj(rest, r.kind))
    return v


def list_method(ip, obj, name, args, kw):
    isfield = isinstance(obj, FieldList)
    if is_array(ip, obj):
        if name in ('copy', 'tolist') and not args:
            return ip.new_list(ip.freeze_seq(ip.seq_of(obj)), 'ndarray' if name == 'copy' else 'list')
        raise Unsupported('array.%s' % name)
    if name == 'append':
        if isfield:
            ip.log_event(obj.ref, obj.field, 'append', ip.freeze(args[0]))
        elif isinstance(obj, DictSlot):
            slot_extend(ip, obj, (Unit(args[0]),))
        else:
            r = ip.rec(obj)
            ip.put(obj, ListObj(r.seq + (Unit(args[0]),), r.kind))
        return None
    if name == 'extend':
        list_extend(ip, obj, ip.seq_of(args[0]))
        return None
    if name == 'copy':
        return ip.new_list(ip.seq_of(obj))
    if name == 'index':
        seq = ip.seq_of(obj)
        n, get = index_seq(ip, seq)
        if get is None:
            ip.throw('ValueError')
        b = fresh_binder()
        c = zb(ip.equals(get(b), args[0]))
        if not ip.decide(ip.th.EX(n, b, c)):
            ip.throw('ValueError')
        return Sym(TInt, ip.th.FIRST(n, b, c))
    if name == 'count':
        seq = ip.seq_of(obj)
        return lift(TInt, ip.th.total(seq, lambda v: z3.If(zb(ip.equals(v, args[0])), z3.IntVal(1), z3.IntVal(0))))
    if name == 'sort' and isinstance(obj, DictSlot) and len(obj.path) == 1:
        rev = ip.force(kw.get('reverse', False))
        how = SortHow(ip.force(kw.get('key')), rev)
        r = ip.rec(obj.owner)
        ip.put(obj.owner, DictObj(r.seq + (Unit(('sort', ip.freeze(ip.force(obj.path[0])), how)),), r.kind))
        return None
    if isfield or isinstance(obj, DictSlot):
        raise Unsupported('%s on a list of a symbolic object' % name)
    r = ip.rec(obj)
    if name == 'appendleft':
        ip.put(obj, ListObj((Unit(args[0]),) + r.seq, r.kind))
        return None
    if name == 'insert':
        k = to_int_if_concrete(zint_of(ip, args[0]))
        if k == 0:
            ip.put(obj, ListObj((Unit(args[1]),) + r.seq, r.kind))
            return None
        us = ip.th.units(r.seq)
        if us is not None and k is not None:
            us = list(us)
            us.insert(k, args[1])
            ip.put(obj, ListObj(tuple(Unit(x) for x in us), r.kind))
            return None
        raise Unsupported('insert')
    if name == 'pop':
        return pop_at(ip, obj, args[0] if args else -1)
    if name == 'popleft':
        return pop_at(ip, obj, 0)
    if name == 'reverse':
        ip.put(obj, ListObj(reverse_seq(ip, r.seq), r.kind))
        return None
    if name == 'sort':
        ip.put(obj, ListObj(sort_seq(ip, r.seq, kw), r.kind))
        return None
    if name == 'clear':
        ip.put(obj, ListObj((), r.kind))
        return None
    if name == 'remove':
        us = ip.th.units(r.seq)
        if us is not None:
            for j, u in enumerate(us):
                if ip.decide(ip.equals(u, args[0])):
                    ip.put(obj, ListObj(tuple(Unit(x) for x in us[:j] + us[j + 1:]), r.kind))
                    return None
            ip.throw('ValueError')
    raise Unsupported('list.%s' % name)


# SETS
# ----------------------------------------------------------------------------


def set_seq(ip, v):
    v = ip.force(v)
    if isinstance(v, Addr) and isinstance(ip.rec(v), SetObj):
        return ip.rec(v).seq
    if isinstance(v, FrozenSet):
        return v.seq
    return ip.seq_of(v, ordered=False)


def set_method(ip, obj, name, args, kw):
    isaddr = isinstance(obj, Addr)
    if name == 'add' and isaddr:
        ip.put(obj, SetObj(ip.rec(obj).seq + (Unit(args[0]),)))
        return None
    if name == 'update' and isaddr:
        seq = ip.rec(obj).seq
        for a in args:
            seq = seq + set_seq(ip, a)
        ip.put(obj, SetObj(seq))
        return None
    if name in ('discard', 'remove') and isaddr:
        seq = ip.rec(obj).seq
        if name == 'remove' and not ip.decide(ip.contains(args[0], obj)):
            ip.throw('KeyError')
        ip.put(obj, SetObj(ip.th.map_seq(seq, lambda v: (Guard(z_not(zb(ip.equals(v, args[0]))), (Unit(v),)),))))
        return None
    if name == 'clear' and isaddr:
        ip.put(obj, SetObj(()))
        return None
    if name == 'copy':
        return ip.new_set(set_seq(ip, obj))
    if name == 'union':
        return set_binop(ip, 'BitOr', obj, args[0])
    if name == 'intersection':
        return set_binop(ip, 'BitAnd', obj, args[0])
    if name == 'difference':
        return set_binop(ip, 'Sub', obj, args[0])
    if name == 'isdisjoint':
        seq = set_seq(ip, obj)
        r = ip.th.exists(seq, lambda v: zb(ip.contains(v, args[0])))
        return lift(TBool, z_not(r))
    if name == 'issubset':
        seq = set_seq(ip, obj)
        r = ip.th.exists(seq, lambda v: z_not(zb(ip.contains(v, args[0]))))
        return lift(TBool, z_not(r))
    raise Unsupported('set.%s' % name)


def set_binop(ip, op, a, b):
    sa = set_seq(ip, a)
    if op == 'BitOr':
        return ip.new_set(sa + set_seq(ip, b))
    if op == 'BitAnd':
        return ip.new_set(ip.th.map_seq(sa, lambda v: (Guard(zb(ip.contains(v, b)), (Unit(v),)),)))
    if op == 'Sub':
        return ip.new_set(ip.th.map_seq(sa, lambda v: (Guard(z_not(zb(ip.contains(v, b))), (Unit(v),)),)))
    raise Unsupported('set operator')


# ###############################################################################
# DICTIONARIES: logs of events (op, key, value), op in base, set, add, app, sub, del
# ###############################################################################


def map_has(ip, m, key):
    return ip.th.uf('has<%s>' % m.kty.key, [m.t] + ip.flat_terms(key), z3.BoolSort())


def map_get(ip, m, key):
    return ip.th.mk(m.vty, 'get<%s,%s>' % (m.kty.key, m.vty.key), [m.t] + ip.flat_terms(key))


def key_eq(ip, a, b):
    e = ip.equals(a, b)
    return z3.simplify(zb(e))


def dict_lookup(ip, log, key):
    """(presence formula, value or None when surely absent)"""
    th = ip.th
    if not log:
        return z3.BoolVal(False), None
    rest, last = log[:-1], log[-1]
    if isinstance(last, Guard):
        if len(last.body) > 1:
            return dict_lookup(ip, rest + tuple(Guard(last.c, (x,)) for x in last.body), key)
        inner = last.body[0]
        if isinstance(inner, Unit):
            return _one(ip, rest, inner.v, last.c, key)
        if isinstance(inner, Guard):
            return dict_lookup(ip, rest + (Guard(z_and(last.c, inner.c), inner.body),), key)
        if isinstance(inner, Comp):
            return _many(ip, rest, Comp(inner.b, inner.n, (Guard(last.c, inner.body),)), key)
        raise Unsupported('dictionary log')
    if isinstance(last, Unit):
        return _one(ip, rest, last.v, z3.BoolVal(True), key)
    if isinstance(last, Comp):
        return _many(ip, rest, last, key)
    # Loop-carried log: opaque lookup
    if rest:
        raise Unsupported('dictionary log')
    return _opaque_lookup(ip, last, key)


def _opaque_lookup(ip, var, key):
    th = ip.th
    fk = ip.freeze(ip.force(key))
    has = th.opaque('DHAS', (SeqVal((var,)), fk), z3.BoolSort())
    vty = getattr(ip, 'dict_types', {}).get('value')
    tok = th.opaque('DGET', (SeqVal((var,)), fk), AnySort)
    return has, OpaqueEntry(tok)


def ax_dhas(ip, entry, app):
    """Presence of a key in a log carried by a loop, once the log is known"""
    var, key = entry.inst(app.children())
    seg = var.seq[0] if len(var.seq) == 1 else None
    if isinstance(seg, Var):
        e = ip.sv.entries.get(seg.t.decl().name())
        if e is None or e.op != 'SEQ':
            return []
        log = e.inst(seg.t.children()).seq
    else:
        log = var.seq
    if any(isinstance(x, Var) for x in log):
        return []
    st, ip.st = ip.st, ip.st.fork()
    ip.st.pc = []  # The definition holds whatever the path
    try:
        has = dict_lookup(ip, log, key)[0]
    except Unsupported:
        return []
    finally:
        ip.st = st
    return [app == zb(has)]


class OpaqueEntry(Undefined):
    """Value found in a dictionary whose content is carried by a loop"""

    def __init__(self, tok):
        self.tok = tok
        self.why = 'entry of a loop-carried dictionary'


def _one(ip, rest, ev, cond, key):
    th = ip.th
    op, k, v = ev
    if op == 'base':
        if not is_true(cond):
            raise Unsupported('conditional base of a dictionary')
        p, old = dict_lookup(ip, rest, key)
        h = map_has(ip, k, key)
        val = map_get(ip, k, key)
        if old is None:
            return h, val
        return z_or(h, p), th.merge_vals([(h, val), (z_not(h), old)])
    c = z_and(cond, key_eq(ip, k, key))
    c = z3.simplify(c)
    if is_false(c):
        return dict_lookup(ip, rest, key)
    if op == 'set':
        if is_true(c):
            return c, v
        if ip.sv.implied(ip.st.pc, c):
            return z3.BoolVal(True), v
        p, old = dict_lookup(ip, rest, key)
        if old is None:
            return c, v
        return z_or(c, p), th.merge_vals([(c, v), (z_not(c), old)])
    p, old = dict_lookup(ip, rest, key)
    if op == 'del':
        return z_and(z_not(c), p), old
    if op == 'add':
        base = old if old is not None else 0
        if isinstance(base, Choice) or not is_scalar(base):
            base = th.merge_vals([(p, base), (z_not(p), 0)]) if not is_scalar(base) else base
        if not is_scalar(base):
            raise Unsupported('counter over non numbers')
        if old is not None and not is_true(p):
            base = th.merge_vals([(p, base), (z_not(p), 0)])
        isreal = numty(base) == TReal or numty(v) == TReal
        f = real if isreal else num
        zero = z3.RealVal(0) if isreal else z3.IntVal(0)
        return z_or(c, p), lift(TReal if isreal else TInt, z3.simplify(f(base) + z3.If(c, f(v), zero)))
    if op == 'app':
        seq = _old_seq(ip, p, old)
        return z_or(c, p), SeqVal(th.norm(seq + (Guard(c, v.seq),)), 'list')
    if op == 'sort':
        return p, sorted_entry(ip, c, old, v)
    if op == 'sub':
        seq = _old_log(ip, p, old)
        return z_or(c, p), FrozenMap(th.norm(seq + (Guard(c, (Unit(v),)),)), 'dict')
    raise Unsupported('dictionary event %s' % op)


def _old_seq(ip, p, old):
    if old is None:
        return ()
    if isinstance(old, (Addr, FieldList)):
        old = SeqVal(ip.seq_of(old))
    if isinstance(old, SeqVal):
        return old.seq if is_true(p) else (Guard(p, old.seq),)
    if isinstance(old, Choice):
        return tuple(Guard(z_and(p, c), ip.seq_of(v)) for c, v in old.alts)
    raise Unsupported('append to a value that is not a list')


def _old_log(ip, p, old):
    if old is None:
        return ()
    log = dict_log(ip, old)
    return log if is_true(p) else (Guard(p, log),)


def events_ops(seq, acc):
    for s in seq:
        if isinstance(s, Unit):
            acc.add(s.v[0])
        elif isinstance(s, Var):
            acc.add('?')
        else:
            events_ops(s.body, acc)
    return acc


def _many(ip, rest, comp, key):
    th = ip.th
    ops = events_ops((comp,), set())
    if len(ops) != 1:
        raise Unsupported('mixed writes to a dictionary in a loop: %s' % sorted(ops))
    op = ops.pop()
    p, old = dict_lookup(ip, rest, key)
    ex = key_among(ip, (comp,), key)
    if op == 'set':
        c, ev = ip.last_match((comp,), lambda ev: key_eq(ip, ev[1], key))
        if ev is None:
            return p, old
        v = ev[2]
        if old is None:
            return c, v
        return z_or(c, p), th.merge_vals([(c, v), (z_not(c), old)])
    if op == 'add':
        isreal = numeric_of_events((comp,)) == TReal
        f = real if isreal else num
        zero = z3.RealVal(0) if isreal else z3.IntVal(0)
        t = th.total((comp,), lambda ev: z3.If(key_eq(ip, ev[1], key), f(ev[2]), zero), isreal)
        if old is not None:
            base = th.merge_vals([(p, old), (z_not(p), 0)]) if not is_true(p) else old
            if numty(base) == TReal and not isreal:
                t = z3.ToReal(t)
                isreal = True
            t = (real if isreal else num)(base) + t
        return z_or(ex, p), lift(TReal if isreal else TInt, z3.simplify(t))
    if op == 'app':
        seq = _old_seq(ip, p, old)
        more = th.map_seq((comp,), lambda ev: (Guard(key_eq(ip, ev[1], key), ev[2].seq),))
        return z_or(ex, p), SeqVal(th.norm(seq + more), 'list')
    if op == 'sort':  # Sorting again what is sorted changes nothing
        hows = sort_hows((comp,), [])
        if any(not same_how(ip, h, hows[0]) for h in hows):
            raise Unsupported('several sorts of the entries of a dictionary')
        return p, sorted_entry(ip, True if zb(ex).eq(zb(p)) else ex, old, hows[0])
    if op == 'sub':
        log = _old_log(ip, p, old)
        more = th.map_seq((comp,), lambda ev: (Guard(key_eq(ip, ev[1], key), (Unit(ev[2]),)),))
        return z_or(ex, p), FrozenMap(th.norm(log + more), 'dict')
    raise Unsupported('dictionary event %s in a loop' % op)


class SortHow:
    def __init__(self, key, rev):
        self.key = key
        self.rev = rev


def same_how(ip, a, b):
    return a is b or a.rev == b.rev and a.key is b.key


def sort_hows(seq, acc):
    for s in seq:
        if isinstance(s, Unit):
            acc.append(s.v[2])
        else:
            sort_hows(s.body, acc)
    return acc


def sorted_entry(ip, c, old, how):
    if old is None:
        return None
    if isinstance(old, Undefined):
        return Undefined('sorted entry of a loop-carried dictionary')
    if not isinstance(old, SeqVal):
        raise Unsupported('sort of an entry that is not a list')
    new = SeqVal(sort_seq(ip, old.seq, {'key': how.key, 'reverse': how.rev}), 'list')
    if is_true(zb(c)) or ip.sv.implied(ip.st.pc, zb(c)):
        return new
    return ip.th.merge_vals([(c, new), (z_not(c), old)])


def without_sorts(ip, log):
    if 'sort' not in events_ops(log, set()):
        return log
    out = []
    for s in log:
        ops = events_ops((s,), set())
        if ops == {'sort'}:
            continue
        if 'sort' in ops:
            raise Unsupported('mixed writes to a dictionary in a loop')
        out.append(s)
    return tuple(out)


def numeric_of_events(seq):
    t = TInt
    for s in seq:
        if isinstance(s, Unit):
            if numty(s.v[2]) == TReal:
                t = TReal
        elif not isinstance(s, Var) and numeric_of_events(s.body) == TReal:
            t = TReal
    return t


def dict_has(ip, r, key):
    log = r.seq
    p, _ = dict_presence(ip, log, key)
    p = z3.simplify(zb(p))
    return True if is_true(p) else False if is_false(p) else p


def dict_presence(ip, log, key):
    """Presence only (no value computed)"""
    th = ip.th
    p = z3.BoolVal(False)
    for s in without_sorts(ip, log):
        if isinstance(s, Unit) and s.v[0] == 'base':
            p = z_or(p, map_has(ip, s.v[1], key))
        elif isinstance(s, Unit) and s.v[0] == 'del':
            p = z_and(p, z_not(key_eq(ip, s.v[1], key)))
        elif isinstance(s, Var):
            p = z_or(p, _opaque_lookup(ip, s, key)[0])
        elif 'del' in events_ops((s,), set()):
            raise Unsupported('deletions in a loop')
        elif 'base' in events_ops((s,), set()):
            raise Unsupported('conditional base')
        else:
            if isinstance(s, Guard) and any(isinstance(x, Var) for x in s.body):
                raise Unsupported('conditional loop-carried dictionary')
            p = z_or(p, key_among(ip, (s,), key))
    return p, None


def key_among(ip, events, key):
    keys = ip.th.norm(ip.th.map_seq(events, lambda ev: (Unit(ev[1]),)))
    return ip.th.exists(keys, lambda k: key_eq(ip, k, key))


def dict_nonempty(ip, r):
    return z3.simplify(zb(ip.nonempty(dict_keys(ip, r))))


def keys_seq(ip, seq):
    """Distinct elements of a sequence, in order of first occurrence"""
    th = ip.th
    seq = th.norm(ip.freeze_seq(seq))
    us = th.units(seq)
    if us is not None:
        out = []
        ok = True
        for u in us:
            cs = [key_eq(ip, u, x) for x in out]
            if any(is_true(c) for c in cs):
                continue
            if any(not is_false(c) and not ip.sv.implied(ip.st.pc, z_not(c)) for c in cs):
                ok = False
                break
            out.append(u)
        if ok:
            return tuple(Unit(u) for u in out)
    # Keys of (xs + [u]) are those of xs, then u unless it is among them
    if len(seq) > 1:
        last = seq[-1]
        if isinstance(last, Unit) or isinstance(last, Guard) and len(last.body) == 1 and isinstance(last.body[0], Unit):
            u = last.v if isinstance(last, Unit) else last.body[0].v
            seen = th.exists(seq[:-1], lambda x: key_eq(ip, x, u))
            c = z_not(seen) if isinstance(last, Unit) else z_and(last.c, z_not(seen))
            return keys_seq(ip, seq[:-1]) + (Guard(c, (Unit(u),)),)
    ety = th.elem_type(seq)
    if len(seq) == 1 and isinstance(seq[0], Var) and seq[0].t.decl().name().startswith(('KEYS!', 'mapkeys<')):
        return seq
    if distinct(ip, seq):
        return seq
    t = th.opaque('KEYS', SeqVal(seq), SeqX)
    return (Var(t, ety),)


def distinct(ip, seq):
    """The elements of a sequence of one iteration are provably different from each other"""
    if len(seq) != 1 or isinstance(seq[0], (Unit, Guard)):
        return False
    c = ip.th._as_comp(seq[0])
    if c is None:
        return False
    body, cond = c.body, []
    while len(body) == 1 and isinstance(body[0], Guard):
        cond.append(body[0].c)
        body = body[0].body
    if len(body) != 1 or not isinstance(body[0], Unit):
        return False
    i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    x, y = (subst(body[0].v, [(c.b, k)]) for k in (i, j))
    e = ip.th.eq_term(x, y)
    if e is None:
        return False
    pc = ip.st.pc + [i >= 0, i < j, j < zint(c.n)] + [subst_term(d, c.b, k) for d in cond for k in (i, j)]
    return ip.sv.check(pc + [zb(e)], 1500, deep=True)[0] == 'unsat'


def subst_term(t, b, k):
    return z3.substitute(zb(t), (b, k))


def dict_keys(ip, r):
    log = without_sorts(ip, r.seq)
    if any(isinstance(s, Unit) and s.v[0] in ('base',) for s in log):
        m = log[0].v[1]
        base = Var(ip.th.uf('mapkeys<%s>' % m.kty.key, [m.t], SeqX), m.kty)
        if len(log) == 1:
            return (base,)
        log = (base,) + log[1:]
        rest = ip.th.map_seq(log[1:], lambda ev: (Unit(ev[1]),))
        return keys_seq(ip, (base,) + rest)
    ops = events_ops(log, set())
    if '?' in ops:
        raise Unsupported('keys of a loop-carried dictionary')
    if 'del' in ops:
        us = ip.th.units(log)
        if us is None:
            raise Unsupported('keys of a dictionary after deletions')
        live = []
        for op, k, v in us:
            hits = [x for x in live if is_true(key_eq(ip, x, k))]
            if op == 'del':
                live = [x for x in live if x not in hits]
            elif not hits:
                live.append(k)
        return tuple(Unit(x) for x in live)
    return keys_seq(ip, ip.th.map_seq(log, lambda ev: (Unit(ev[1]),)))


def dict_log(ip, v):
    v = ip.force(v)
    if isinstance(v, MapVal):
        return (Unit(('base', v, None)),)
    if isinstance(v, FrozenMap):
        return v.seq
    if isinstance(v, Addr) and isinstance(ip.rec(v), DictObj):
        return ip.rec(v).seq
    if isinstance(v, DictSlot):
        p, val = slot_value(ip, v)
        return dict_log(ip, val)
    raise Unsupported('dictionary expected, got %r' % (v,))


def dict_fromkeys(ip, args, kw):
    val = args[1] if len(args) > 1 else None
    seq = ip.th.map_seq(ip.seq_of(args[0]), lambda k: (Unit(('set', k, val)),))
    return ip.new_dict(seq)


def shared(ip, addr, besides=()):
    """Is the object reachable from a variable or another object of the heap?"""
    for a, r in ip.st.heap.items():
        if a == addr or a in besides:
            continue
        if isinstance(r, ScopeObj):
            for x in r.vars.values():
                if direct_ref(x, addr):
                    return True
        elif isinstance(r, InstObj):
            for x in r.fields.values():
                if direct_ref(x, addr):
                    return True
        else:
            if direct_ref(r.seq, addr):
                return True
    return False


def direct_ref(v, addr):
    if isinstance(v, Addr):
        return v == addr
    if isinstance(v, tuple):
        return any(direct_ref(x, addr) for x in v)
    if isinstance(v, Unit):
        return direct_ref(v.v, addr)
    if isinstance(v, (Comp, Guard)):
        return direct_ref(v.body, addr)
    if isinstance(v, (SeqVal, FrozenSet, FrozenMap)):
        return direct_ref(v.seq, addr)
    if isinstance(v, Choice):
        return any(direct_ref(x, addr) for _, x in v.alts)
    if isinstance(v, ObjVal):
        return any(direct_ref(x, addr) for x in v.fields.values())
    if isinstance(v, BoundMethod):
        return direct_ref(v.obj, addr)
    return False


def set_events(ip, log, key, v, owners=()):
    """Events for d[key] = v"""
    fk = ip.force(key)
    fk = ip.freeze(fk) if not isinstance(fk, Addr) or not isinstance(ip.st.heap.get(fk), InstObj) else fk
    v0 = v
    if isinstance(v, Addr) and not is_concrete(fk):
        r = ip.st.heap.get(v)
        if isinstance(r, (ListObj, DictObj)) and r.seq and not shared(ip, v, owners):
            absent = z_not(zb(dict_has(ip, DictObj(log), key)))
            if ip.sv.implied(ip.st.pc, absent):
                if isinstance(r, ListObj) and r.kind == 'list':
                    return (Unit(('app', fk, SeqVal(ip.freeze_seq(r.seq), 'list'))),)
                if isinstance(r, DictObj):
                    inner = ()
                    for s in r.seq:
                        if isinstance(s, Unit) and s.v[0] == 'set':
                            inner = inner + set_events(ip, inner, s.v[1], s.v[2], owners + (v,))
                        else:
                            inner = inner + (s,)
                    return ip.th.map_seq(inner, lambda ev: (Unit(('sub', fk, ev)),))
    # Update of a number from its own previous value: increment
    if is_scalar(v) and isinstance(v, Sym) and numty(v) is not None and v.ty != TBool and log:
        try:
            p, old = dict_lookup(ip, log, key)
        except Unsupported:
            p, old = None, None
        if isinstance(old, OpaqueEntry):
            old = None
        if old is not None and is_scalar(old) and isinstance(old, Sym) and numty(old) == numty(v):
            d = z3.simplify(v.t - old.t)
            if z3.is_int_value(d) or z3.is_rational_value(d):
                return (Unit(('add', fk, lift(v.ty if v.ty != TBool else TInt, d))),)
    return (Unit(('set', fk, v)),)


def dict_set(ip, addr, key, v):
    r = ip.rec(addr)
    ip.put(addr, DictObj(r.seq + set_events(ip, r.seq, key, v), r.kind))


def dict_add(ip, addr, key, v):
    r = ip.rec(addr)
    if r.kind not in ('counter', 'default_int', 'default_float'):
        if not ip.decide(dict_has(ip, r, key)):
            ip.throw('KeyError')
    else:
        pass
    fk = ip.freeze(ip.force(key))
    ip.put(addr, DictObj(r.seq + (Unit(('add', fk, v)),), r.kind))


def dict_getitem(ip, addr, key):
    r = ip.rec(addr)
    p, v = dict_lookup(ip, r.seq, key)
    if r.kind == 'counter' and (v is None or is_scalar(v)):
        p = z3.simplify(zb(p))
        if len(r.seq) == 1 and events_ops(r.seq, set()) == {'add'}:
            return v  # The sum of what was added for this key, 0 when nothing was
        return 0 if v is None or is_false(p) else ip.th.merge_vals([(p, v), (z_not(p), 0)])
    if not ip.decide(z3.simplify(zb(p))):
        if r.kind in ('counter', 'default_int'):
            if r.kind == 'default_int':
                ip.put(addr, DictObj(r.seq + (Unit(('add', ip.freeze(ip.force(key)), 0)),), r.kind))
            return 0
        if r.kind == 'default_list':
            fk = ip.freeze(ip.force(key))
            ip.put(addr, DictObj(r.seq + (Unit(('app', fk, SeqVal((), 'list'))),), r.kind))
            return DictSlot(addr, (key,))
        if r.kind == 'default_set':
            raise Unsupported('defaultdict(set)')
        ip.throw('KeyError', ip.force(key))
    return entry(ip, addr, (key,), v)


def entry(ip, owner, path, v):
    """Value read from a dictionary: mutable ones are handles on the owner"""
    if isinstance(v, OpaqueEntry):
        return DictSlot(owner, path)
    if isinstance(v, (SeqVal, FrozenMap)) and (not isinstance(v, SeqVal) or v.kind == 'list'):
        return DictSlot(owner, path)
    if isinstance(v, MapVal):
        return DictSlot(owner, path)
    if isinstance(v, Choice):
        return v
    return v


def slot_value(ip, slot):
    log = ip.rec(slot.owner).seq
    p, v = dict_lookup(ip, log, slot.path[0])
    for k in slot.path[1:]:
        if isinstance(v, OpaqueEntry):
            return z3.BoolVal(True), v
        p, v = dict_lookup(ip, dict_log(ip, v), k)
    return p, v


def slot_kind(ip, slot):
    p, v = slot_value(ip, slot)
    if isinstance(v, (FrozenMap, MapVal)):
        return 'dict'
    if isinstance(v, OpaqueEntry):
        return 'opaque'
    return 'list'


def slot_seq(ip, slot):
    p, v = slot_value(ip, slot)
    if isinstance(v, FrozenMap):
        return dict_keys(ip, DictObj(v.seq, 'dict'))
    if isinstance(v, OpaqueEntry):
        raise Unsupported('content of a loop-carried dictionary')
    return ip.seq_of(v)


def slot_getitem(ip, slot, key):
    p, v = slot_value(ip, slot)
    p2, v2 = dict_lookup(ip, dict_log(ip, v), key)
    if not ip.decide(z3.simplify(zb(p2))):
        ip.throw('KeyError', ip.force(key))
    return entry(ip, slot.owner, slot.path + (key,), v2)


def slot_event(ip, slot, ev):
    for k in reversed(slot.path[:-1]):
        pass
    for k in reversed(slot.path):
        ev = ('sub', ip.freeze(ip.force(k)), ev)
    return ev


def slot_extend(ip, slot, seq):
    ev = ('app', ip.freeze(ip.force(slot.path[-1])), SeqVal(ip.freeze_seq(tuple(seq)), 'list'))
    for k in reversed(slot.path[:-1]):
        ev = ('sub', ip.freeze(ip.force(k)), ev)
    r = ip.rec(slot.owner)
    ip.put(slot.owner, DictObj(r.seq + (Unit(ev),), r.kind))


def slot_log(ip, entry):
    return Var(ip.th.uf('slotlog', [entry.tok], SeqX), None)


def slot_set(ip, slot, key, v):
    p, cur = slot_value(ip, slot)
    if isinstance(cur, OpaqueEntry):
        log = (slot_log(ip, cur),)
    else:
        log = dict_log(ip, cur)
    evs = set_events(ip, log, key, v)
    for k in reversed(slot.path):
        fk = ip.freeze(ip.force(k))
        evs = ip.th.map_seq(evs, lambda ev: (Unit(('sub', fk, ev)),))
    r = ip.rec(slot.owner)
    ip.put(slot.owner, DictObj(r.seq + evs, r.kind))


def slot_has(ip, slot, key):
    p, v = slot_value(ip, slot)
    if isinstance(v, OpaqueEntry):
        return dict_has(ip, DictObj((slot_log(ip, v),)), key)
    return dict_has(ip, DictObj(dict_log(ip, v)), key)


def entry_shapes(ip, log):
    """Sizes of the tuples written as values of a dictionary (None for other values)"""
    out = set()
    for s in log:
        if isinstance(s, Unit):
            out.add(len(s.v[2]) if isinstance(s.v[2], tuple) else None)
        elif isinstance(s, Var):
            out.add(None)
        else:
            out |= entry_shapes(ip, s.body)
    return out


def concrete_dict(ip, d):
    if isinstance(d, Addr):
        r = ip.rec(d)
        us = ip.th.units(r.seq)
        if us is not None and all(isinstance(k, str) for _, k, _ in us):
            return [(k, v) for _, k, v in us]
    raise Unsupported('** of an unknown dictionary')


def dict_values(ip, log, keys, pairs):
    """Values (or items) in order of the keys"""

    def val(k):
        p, v = dict_lookup(ip, log, k)
        if v is None:
            raise Unsupported('value of an absent key')
        if isinstance(v, Choice):
            # The key is present: drop alternatives of absence
            pass
        return (Unit((k, v) if pairs else v),)

    us = ip.th.units(keys)
    if us is not None:
        return tuple(val(k)[0] for k in us)
    # Distinct writes: the log itself is in order when keys are written once
    return ip.th.map_seq(keys, val)


def dict_method(ip, obj, log, name, args, kw):
    addr = obj if isinstance(obj, Addr) else None
    r = DictObj(log)
    if name == 'keys':
        return SeqVal(dict_keys(ip, r), 'iter')
    if name == 'values':
        return SeqVal(dict_values(ip, log, dict_keys(ip, r), False), 'iter')
    if name == 'items':
        return SeqVal(dict_values(ip, log, dict_keys(ip, r), True), 'iter')
    if name == 'get':
        p, v = dict_lookup(ip, log, args[0])
        default = args[1] if len(args) > 1 else None
        p = z3.simplify(zb(p))
        if v is None or is_false(p):
            return default
        if isinstance(v, (SeqVal, FrozenMap, Addr, OpaqueEntry, MapVal)) or isinstance(default, Addr):
            if ip.decide(p):
                return entry(ip, addr, (args[0],), v) if addr is not None else v
            return default
        return ip.th.merge_vals([(p, v), (z_not(p), default)])
    if name == 'copy':
        return ip.new_dict(log)
    if addr is not None:
        rec = ip.rec(addr)
        if name == 'setdefault':
            if not ip.decide(dict_has(ip, rec, args[0])):
                v = args[1] if len(args) > 1 else None
                dv = ip.force(v)
                if isinstance(dv, Addr) and isinstance(ip.rec(dv), ListObj) and not ip.rec(dv).seq and not shared(
                        ip, dv):
                    ip.put(addr, DictObj(rec.seq + (Unit(('app', ip.freeze(ip.force(args[0])), SeqVal((), 'list'))),),
                                         rec.kind))
                    return DictSlot(addr, (args[0],))
                dict_set(ip, addr, args[0], v)
                return v
            return dict_getitem(ip, addr, args[0])
        if name == 'update':
            extra = dict_log(ip, args[0]) if args else ()
            ip.put(addr, DictObj(rec.seq + extra + tuple(Unit(('set', k, v)) for k, v in kw.items()), rec.kind))
            return None
        if name == 'pop':
            p, v = dict_lookup(ip, log, args[0])
            if not ip.decide(z3.simplify(zb(p))):
                if len(args) > 1:
                    return args[1]
                ip.throw('KeyError')
            ip.put(addr, DictObj(rec.seq + (Unit(('del', ip.freeze(ip.force(args[0])), None)),), rec.kind))
            return v
        if name == 'clear':
            ip.put(addr, DictObj((), rec.kind))
            return None
    raise Unsupported('dict.%s' % name)


# ###############################################################################
# STRINGS
# ###############################################################################


def str_concat(ip, a, b):
    a, b = ip.force(a), ip.force(b)
    if not is_str(a) or not is_str(b):
        ip.throw('TypeError')
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == '':
        return b
    if isinstance(b, str) and b == '':
        return a
    return Sym(TStr, z3.Concat(term(a), term(b)))


def to_str(ip, v):
    v = ip.force(v)
    if is_str(v):
        return v
    if v is None or isinstance(v, (bool, int, float)) and not isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, Sym):
        if v.ty.kind == 'ref':
            cls = ip.schema(v).cls
            if cls is not None and cls.lookup('__str__') is not None:
                return ip.call(ip.bind(cls.lookup('__str__'), v, cls), [], {})
        return Sym(TStr, ip.th.uf('str_of<%s>' % v.ty.key, [v.t], z3.StringSort()))
    for cls in ([ip.rec(v).cls] if isinstance(v, Addr) and isinstance(ip.rec(v), InstObj) else
                [v.cls] if isinstance(v, ObjVal) else []):
        m = cls.lookup('__str__') or cls.lookup('__repr__')
        if m is not None:
            return ip.call(ip.bind(m, v, cls), [], {})
        if cls.is_exception():
            return Sym(TStr, ip.th.uf('exc_str', [], z3.StringSort()))
    if isinstance(v, (Addr, SeqVal, FrozenSet, FrozenMap, SetVal, MapVal, set, frozenset, tuple)):
        return Sym(TStr, z3.Const('str_of!%d' % fresh_id(), z3.StringSort()))  # Some text
    if type(v).__name__ == 'PathVal':  # Parts without / at their ends
        out = ''
        for k, part in enumerate(v.parts):
            out = str_concat(ip, str_concat(ip, out, '/'), part) if k else part
        return out
    raise Unsupported('str(%r)' % (v,))


def str_index(ip, s, key):
    i = zint_of(ip, key)
    k = to_int_if_concrete(i)
    if isinstance(s, str) and k is not None:
        if not -len(s) <= k < len(s):
            ip.throw('IndexError')
        return s[k]
    t = term(s)
    n = z3.Length(t)
    i = norm_index(ip, i, n)
    if not ip.decide(z3.simplify(z3.And(i >= 0, i < n))):
        ip.throw('IndexError')
    return lift(TStr, z3.SubString(t, i, z3.IntVal(1)))


def str_slice(ip, s, lo, hi):
    l, h = (None if x is None else ip.force(x) for x in (lo, hi))
    if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (l, h)):
        return s[l:h]
    t = term(s)
    n = z3.Length(t)

    def side(v, default):
        if v is None:
            return default
        x = zint_of(ip, v)
        k = to_int_if_concrete(x)
        if k is not None:
            if k < 0:
                x = z3.simplify(n + k)
                if not ip.sv.implied(ip.st.pc, x >= 0):
                    x = z3.If(x >= 0, x, z3.IntVal(0))
            return x
        if not ip.sv.implied(ip.st.pc, x >= 0):
            x = z3.If(x < 0, z3.If(n + x >= 0, n + x, z3.IntVal(0)), x)
        return x

    a = side(l, z3.IntVal(0))
    b = side(h, n)
    ln = b - a
    return lift(TStr, z3.SubString(t, a, z3.simplify(ln)))


def join(ip, sep, seq):
    th = ip.th
    us = th.units(seq)
    if us is not None:
        out = ''
        for k, u in enumerate(us):
            u = ip.force(u)
            if not is_str(u):
                ip.throw('TypeError')
            if k:
                out = str_concat(ip, out, sep)
            out = str_concat(ip, out, u)
        return out
    # Leading units
    fs = th.norm(ip.freeze_seq(seq))
    conds = []
    for g in fs:
        if isinstance(g, Guard) and not any(g.c.eq(c) for c in conds):
            conds.append(g.c)
    if len(conds) <= 3 and all(isinstance(g, Unit) or isinstance(g, Guard) and th.units(g.body) is not None for g in fs):
        # Few optional elements: one case per choice
        alts = [(z3.BoolVal(True), ())]
        for g in fs:
            nxt = []
            for c, xs in alts:
                if isinstance(g, Unit):
                    nxt.append((c, xs + (g,)))
                else:
                    nxt.append((z_and(c, g.c), xs + g.body))
                    nxt.append((z_and(c, z_not(g.c)), xs))
            alts = [(c, xs) for c, xs in nxt if ip.sv.feasible(ip.st.pc + [c])]
            if len(alts) > 12:
                break
        if 1 <= len(alts) <= 12:
            return th.merge_vals([(c, join(ip, sep, xs)) for c, xs in alts])
    ety = th.elem_type(fs)
    if ety is not None and ety != TStr and ety.kind != 'opt':
        raise Unsupported('join of %s' % ety)
    t = th.opaque('JOIN', (ip.force(sep), SeqVal(fs)), z3.StringSort())
    return Sym(TStr, t)


def str_fn(ip, name, s, *args):
    """Opaque string function"""
    return Sym(TStr, ip.th.uf('str_' + name, [term(s)] + [term(ip.force(a)) for a in args], z3.StringSort()))


def str_pred(ip, name, s):
    return lift(TBool, ip.th.uf('str_' + name, [term(s)], z3.BoolSort()))


def str_method(ip, s, name, args, kw):
    args = [ip.force(a) for a in args] if not isinstance(args, StarArgs) else args
    if name == 'join':
        if isinstance(args[0], (str,)):
            return s.join(args[0])
        return join(ip, s, ip.seq_of(args[0]))
    if isinstance(s, str) and all(is_concrete(a) for a in args) and not kw and name not in ('encode', 'format'):
        try:
            r = getattr(s, name)(*args)
        except (ValueError, IndexError) as e:
            ip.throw(type(e).__name__)
        if isinstance(r, list):
            return ip.new_list(tuple(Unit(x) for x in r))
        return r
    if name == 'startswith':
        if isinstance(args[0], tuple):
            return lift(TBool, z_or(*[z3.PrefixOf(term(a), term(s)) for a in args[0]]))
        return lift(TBool, z3.PrefixOf(term(args[0]), term(s)))
    if name == 'endswith':
        if isinstance(args[0], tuple):
            return lift(TBool, z_or(*[z3.SuffixOf(term(a), term(s)) for a in args[0]]))
        return lift(TBool, z3.SuffixOf(term(args[0]), term(s)))
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace'):
        if name == 'lower':
            ip.lower_axioms()
        return str_fn(ip, name + str(len(args) or ''), s, *args)
    if name in ('isalpha', 'isdigit', 'isupper', 'islower', 'isspace', 'istitle', 'isalnum', 'isnumeric'):
        return str_pred(ip, name, s)
    if name == 'split':
        t = ip.th.uf('str_split%d' % len(args), [term(s)] + [term(a) for a in args], SeqX)
        if len(args) == 1:
            # A split on a separator never gives an empty list
            ip.sv.axioms.setdefault('str_split1', lambda app: [_len(app) >= 1])
        return ip.new_list((Var(t, TStr),))
    if name == 'find':
        return Sym(TInt, z3.IndexOf(term(s), term(args[0]), z3.IntVal(0)))
    if name == 'count':
        return Sym(TInt, ip.th.uf('str_count', [term(s), term(args[0])], z3.IntSort()))
    if name == 'format':
        return format_str(ip, s, args, kw)
    raise Unsupported('str.%s' % name)


def format_str(ip, s, args, kw):
    if not isinstance(s, str) or isinstance(args, StarArgs):
        raise Unsupported('format')
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = str_concat(ip, out, lit)
        if field is None:
            continue
        if conv or (spec and '{' in spec):
            raise Unsupported('format specification')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kw[field]
        if spec:
            v = ip.force(v)
            if not is_concrete(v) and not (isinstance(v, Sym) and v.ty.kind in ('int', 'real', 'str')):
                raise Unsupported('format specification')
            v = format(v, spec) if is_concrete(v) else Sym(TStr, ip.th.uf('fmt_{%s}<%s>' % (spec, v.ty.key), [v.t], z3.StringSort()))
        out = str_concat(ip, out, to_str(ip, v))
    return out


def percent(ip, s, v):
    import re
    vals = list(v) if isinstance(v, tuple) else [v]
    parts = re.split(r'(%[0-9.]*[sdfr%])', s)
    out = ''
    for p in parts:
        if p == '%%':
            out = str_concat(ip, out, '%')
        elif p.startswith('%') and len(p) > 1:
            x = ip.force(vals.pop(0))
            if p in ('%s', '%d'):
                out = str_concat(ip, out, to_str(ip, x))
            elif is_concrete(x):
                out = str_concat(ip, out, p % x)
            else:
                out = str_concat(ip, out, Sym(TStr, ip.th.uf('fmt_' + p, [num(x)], z3.StringSort())))
        else:
            out = str_concat(ip, out, p)
    return out


# ###############################################################################
# OPERATORS
# ###############################################################################


def binop(ip, op, a, b):
    if isinstance(a, Undefined):
        ip.untracked(a)
    if isinstance(b, Undefined):
        ip.untracked(b)
    h = ip.ext.get('@binop')
    if h is not None:
        r = h(ip, op, a, b)
        if r is not None:
            return r
    if is_array(ip, a) or is_array(ip, b):
        return array_binop(ip, op, a, b)
    if op == 'Add':
        if is_str(a) or is_str(b):
            return str_concat(ip, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        sa, sb = ip._maybe_seq(a), ip._maybe_seq(b)
        if sa is not None and sb is not None:
            if isinstance(a, tuple) or isinstance(a, SeqVal) and a.kind == 'tuple':
                return SeqVal(sa + sb, 'tuple')
            return ip.new_list(sa + sb)
    if op == 'Mod' and isinstance(a, str):
        return percent(ip, a, b)
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and isinstance(y, int):
                return x * y
            sx = ip._maybe_seq(x)
            if sx is not None and is_scalar(y):
                us = ip.th.units(sx)
                if us is not None and isinstance(y, int):
                    return tuple(us) * y if isinstance(x, tuple) else ip.new_list(tuple(Unit(u) for u in us * y))
                n = zint_of(ip, y)
                if isinstance(x, tuple):
                    return SeqVal((Comp(fresh_binder(), n, sx),), 'tuple')
                return ip.new_list((Comp(fresh_binder(), n, ip.freeze_seq(sx)),))
    if op in ('BitOr', 'BitAnd', 'Sub'):
        if is_set(ip, a):
            return set_binop(ip, op, a, b)
    if op == 'BitXor' and isinstance(a, bool) and isinstance(b, bool):
        return a ^ b
    if is_scalar(a) and is_scalar(b):
        return arith(ip, op, a, b)
    if isinstance(a, Addr) and isinstance(ip.st.heap.get(a), InstObj):
        m = ip.rec(a).cls.lookup({'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op, '?'))
        if m is not None:
            return ip.call(ip.bind(m, a, ip.rec(a).cls), [b], {})
    if a is None or b is None:
        ip.throw('TypeError')
    raise Unsupported('operator %s on %r and %r' % (op, a, b))


def array_map(ip, a, b, fn, nonzero=False):
    """Element by element; a number stands for an array of this number"""
    aa, ab = is_array(ip, a), is_array(ip, b)
    sa = ip.th.norm(ip.freeze_seq(ip.seq_of(a))) if aa else None
    sb = ip.th.norm(ip.freeze_seq(ip.seq_of(b))) if ab else None
    if nonzero:
        zero = ip.th.exists(sb, lambda y: real(y) == 0) if ab else z_and(real(b) == 0, ip.nonempty(sa))
        if not ip.sv.prove(ip.st.pc, z_not(zero)):
            raise Unsupported('division of an array by what may be zero')
    if aa and ab:
        if not ip.sv.prove(ip.st.pc, ip.th.seq_len(sa) == ip.th.seq_len(sb)):
            raise Unsupported('arithmetic of arrays of unrelated sizes')
        return ip.new_list(ip.th.map_seq(zip_seqs(ip, [sa, sb]), lambda p: (Unit(fn(p[0], p[1])),)), 'ndarray')
    if aa:
        return ip.new_list(ip.th.map_seq(sa, lambda x: (Unit(fn(x, b)),)), 'ndarray')
    return ip.new_list(ip.th.map_seq(sb, lambda y: (Unit(fn(a, y)),)), 'ndarray')


def array_binop(ip, op, a, b):
    for x in (a, b):
        if not is_array(ip, x) and not (is_scalar(x) and not is_str(x)):
            raise Unsupported('arithmetic of an array and something else')
        if is_array(ip, x):
            from .ext import _elem_kind
            if _elem_kind(ip, ip.freeze_seq(ip.seq_of(x))) not in ('int', 'real', 'unknown'):
                raise Unsupported('arithmetic of arrays of arrays')
    if op == 'Div':
        return array_map(ip, a, b, lambda x, y: lift(TReal, z3.simplify(real(x) / real(y))), True)
    if op in ('Add', 'Sub', 'Mult'):
        def fn(x, y):
            whole = numty(x) == TInt and numty(y) == TInt
            u, v = (num(x), num(y)) if whole else (real(x), real(y))
            return lift(TInt if whole else TReal, z3.simplify(u + v if op == 'Add' else u - v if op == 'Sub' else u * v))

        return array_map(ip, a, b, fn)
    raise Unsupported('%s of arrays' % op)


def is_array(ip, v):
    if isinstance(v, Addr):
        r = ip.st.heap.get(v)
        return isinstance(r, ListObj) and r.kind == 'ndarray'
    return isinstance(v, SeqVal) and v.kind == 'ndarray'


def is_set(ip, v):
    return isinstance(v, FrozenSet) or isinstance(v, Addr) and isinstance(ip.st.heap.get(v), SetObj)


def arith(ip, op, a, b):
    ca, cb = not isinstance(a, Sym), not isinstance(b, Sym)
    if op in ('BitXor', 'BitAnd', 'BitOr'):
        ta, tb = scalar_type(a), scalar_type(b)
        if ta == TBool and tb == TBool:
            x, y = term(a), term(b)
            return lift(TBool, z3.simplify({'BitXor': z3.Xor, 'BitAnd': z3.And, 'BitOr': z3.Or}[op](x, y)))
        if ca and cb:
            return {'BitXor': lambda x, y: x ^ y, 'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y}[op](a, b)
        raise Unsupported('bit operator')
    if numty(a) is None or numty(b) is None:
        ip.throw('TypeError')
    if ca and cb and not isinstance(a, Fraction) and not isinstance(b, Fraction):
        try:
            if isinstance(a, float) or isinstance(b, float):
                inf = float('inf')
                if abs(a) == inf or abs(b) == inf:
                    return _py(op, a, b)
                # Machine arithmetic is taken as exact
                r = _py(op, Fraction(a), Fraction(b))
                return r
            if op == 'Div':
                if b == 0:
                    raise ZeroDivisionError
                r = Fraction(int(a), int(b))
                return r
            return _py(op, int(a), int(b))
        except ZeroDivisionError:
            ip.throw('ZeroDivisionError')
        except OverflowError:
            ip.throw('OverflowError')
    isreal = numty(a) == TReal or numty(b) == TReal or op == 'Div'
    x, y = (real(a), real(b)) if isreal else (num(a), num(b))
    ty = TReal if isreal else TInt
    if op == 'Add':
        return lift(ty, x + y)
    if op == 'Sub':
        return lift(ty, x - y)
    if op == 'Mult':
        return lift(ty, x * y)
    if op == 'Div':
        if ip.decide(z3.simplify(y == 0)):
            ip.throw('ZeroDivisionError')
        return lift(TReal, x / y)
    if op in ('FloorDiv', 'Mod') and not isreal:
        if ip.decide(z3.simplify(y == 0)):
            ip.throw('ZeroDivisionError')
        if not ip.sv.implied(ip.st.pc, y > 0):
            raise Unsupported('division by a number of unknown sign')
        return lift(TInt, x / y if op == 'FloorDiv' else x % y)
    if op == 'FloorDiv':
        if ip.decide(z3.simplify(y == 0)):
            ip.throw('ZeroDivisionError')
        return lift(TReal, z3.ToReal(z3.ToInt(x / y)))
    if op == 'Pow':
        if isinstance(b, int) and 0 <= b <= 4:
            t = z3.RealVal(1) if isreal else z3.IntVal(1)
            for _ in range(b):
                t = t * x
            return lift(ty, t)
        return Sym(TReal, ip.th.uf('pow', [real(a), real(b)], z3.RealSort()))
    raise Unsupported('operator %s' % op)


def _py(op, a, b):
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return a * b
    if op == 'Div':
        return a / b
    if op == 'FloorDiv':
        return a // b
    if op == 'Mod':
        return a % b
    if op == 'Pow':
        return a ** b
    raise Unsupported('operator %s' % op)


def order(ip, op, a, b):
    """bool or z3 Bool of <, <=, >, >="""
    if isinstance(a, Undefined):
        ip.untracked(a)
    if isinstance(b, Undefined):
        ip.untracked(b)
    if is_set(ip, a) and is_set(ip, b):
        if op == 'LtE':
            r = ip.th.exists(set_seq(ip, a), lambda v: z_not(zb(ip.contains(v, b))))
            return z_not(r)
        if op == 'GtE':
            return order(ip, 'LtE', b, a)
        raise Unsupported('strict set inclusion')
    if is_scalar(a) and is_scalar(b):
        if is_str(a) != is_str(b):
            ip.throw('TypeError')
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if is_str(a):
            x, y = term(a), term(b)
            return {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: y < x, 'GtE': lambda: y <= x}[op]()
        # Infinite floats
        for p, q, flip in ((a, b, False), (b, a, True)):
            if isinstance(p, float) and abs(p) == float('inf'):
                up = p > 0
                less = (not up) != flip  # p < q seen from (a, b)
                # a op b with an infinite side (the other is a finite number)
                lt = less
                return {'Lt': lt, 'LtE': lt, 'Gt': not lt, 'GtE': not lt}[op]
        isreal = numty(a) == TReal or numty(b) == TReal
        x, y = (real(a), real(b)) if isreal else (num(a), num(b))
        return z3.simplify({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not a or not b:
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]
        strict = op[:2]
        first = order(ip, strict, ip.force(a[0]), ip.force(b[0]))
        eq = ip.equals(a[0], b[0])
        rest = order(ip, op, a[1:], b[1:])
        return z3.simplify(z_or(zb(first), z_and(zb(eq), zb(rest))))
    if a is None or b is None:
        ip.throw('TypeError')
    if isinstance(a, (Addr, SeqVal)) and isinstance(b, (Addr, SeqVal)):
        sa, sb = ip._maybe_seq(a), ip._maybe_seq(b)
        if sa is not None and sb is not None:
            ua, ub = ip.th.units(sa), ip.th.units(sb)
            if ua is not None and ub is not None:
                return order(ip, op, tuple(ua), tuple(ub))
    raise Unsupported('comparison of %r and %r' % (a, b))


# ###############################################################################
# METHODS OF NATIVE VALUES, EXTERNAL NAMES
# ###############################################################################


def native_attr(ip, obj, r, name):
    if name == 'args' and r.cls.is_exception():
        return ()
    h = ip.ext.get('@native_attr')
    if h is not None:
        return h(ip, obj, r, name)
    return None


def call_method(ip, obj, name, args, kw):
    obj = ip.force(obj)
    h = ip.ext.get('@method')
    if h is not None:
        r = h(ip, obj, name, args, kw)
        if r is not None:
            return r[0]
    if is_str(obj):
        return str_method(ip, obj, name, args, kw)
    if isinstance(obj, FieldList):
        return list_method(ip, obj, name, args, kw)
    if isinstance(obj, DictSlot):
        k = slot_kind(ip, obj)
        if k == 'dict':
            p, v = slot_value(ip, obj)
            return dict_method(ip, obj, dict_log(ip, v), name, args, kw)
        return list_method(ip, obj, name, args, kw)
    if isinstance(obj, Addr):
        r = ip.rec(obj)
        if isinstance(r, ListObj):
            return list_method(ip, obj, name, args, kw)
        if isinstance(r, SetObj):
            return set_method(ip, obj, name, args, kw)
        if isinstance(r, DictObj):
            return dict_method(ip, obj, r.seq, name, args, kw)
    if isinstance(obj, FrozenSet):
        return set_method(ip, obj, name, args, kw)
    if isinstance(obj, (MapVal, FrozenMap)):
        return dict_method(ip, obj, dict_log(ip, obj), name, args, kw)
    if isinstance(obj, SeqVal):
        if name in ('index', 'count', 'copy'):
            a = ip.new_list(obj.seq)
            return list_method(ip, a, name, args, kw)
        raise Unsupported('%s on an immutable snapshot' % name)
    if isinstance(obj, tuple):
        if name in ('index', 'count'):
            a = ip.new_list(tuple(Unit(x) for x in obj))
            return list_method(ip, a, name, args, kw)
    if isinstance(obj, PropertyVal) and name == 'setter':
        return PropertyVal(obj.fget, args[0])
    if isinstance(obj, MatchVal):
        if name == 'group':
            ks = [ip.force(a) for a in args] or [0]
            if not all(isinstance(k, int) for k in ks):
                raise Unsupported('named group')
            if any(not 0 <= k < len(obj.groups) for k in ks):
                ip.throw('IndexError')
            return obj.groups[ks[0]] if len(ks) == 1 else tuple(obj.groups[k] for k in ks)
        if name == 'groups':
            return tuple(obj.groups[1:])
    if isinstance(obj, (ClassVal, SuperVal)) and name == '__init__':
        if isinstance(obj, SuperVal) and not isinstance(args, StarArgs):
            cls = ip.rec(obj.obj).cls if isinstance(obj.obj, Addr) else None
            if cls is not None and cls.is_exception():
                ip.setattr(obj.obj, 'args', tuple(args))
        return None
    if isinstance(obj, int) and name == 'bit_length':
        return obj.bit_length()
    raise Unsupported('method %s of %r' % (name, obj))


def ext_attr(ip, obj, name):
    full = obj.name + '.' + name
    v = ip.ext.get(full)
    if v is not None and not callable(v):
        return v
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return v
    return Ext(full)


def ext_call(ip, fn, args, kw):
    h = ip.ext.get(fn.name)
    if h is None or not callable(h):
        raise Unsupported('external function %s' % fn.name)
    ip.ext_uses[fn.name] = ip.ext_uses.get(fn.name, 0) + 1
    return h(ip, args, kw)


def enum_named(ip, cls, name):
    """Cls[name] for a symbolic text"""
    if not is_str(name):
        raise Unsupported('enumeration indexed by something else than a text')
    t = ip.flat_terms(name)[0]
    has, fn = 'enum_has<%s>' % cls.__name__, 'enum_named<%s>' % cls.__name__
    names = [(int(v.value), ip.flat_terms(k)[0]) for k, v in cls.__members__.items()]
    if fn not in ip.sv.axioms:
        old = ip.sv.axioms.get(has)
        ip.sv.axioms[has] = lambda app: [app == z3.Or(*[app.arg(0) == n for _, n in names])] + (old(app) if old else [])
        values = {}
        for v, n in names:
            values.setdefault(v, []).append(n)
        ip.sv.axioms[fn] = lambda app: [z3.Or(*[app == v for v in values])] + [
            z3.Implies(ip.th.uf(has, [app.arg(0)], z3.BoolSort()), (app == v) == z3.Or(*[app.arg(0) == n for n in ns]))
            for v, ns in values.items()]
    if not ip.decide(ip.th.uf(has, [t], z3.BoolSort())):
        ip.throw('KeyError')
    return Sym(TEnum(cls), ip.th.uf(fn, [t], z3.IntSort()))


def enum_call(ip, cls, args):
    v = ip.force(args[0])
    if isinstance(v, Sym) and v.ty.kind in ('int', 'enum'):
        vals = sorted(int(m.value) for m in cls)
        ok = z_or(*[v.t == x for x in vals]) if vals != list(range(vals[0], vals[-1] + 1)) else \
            z3.And(v.t >= vals[0], v.t <= vals[-1])
        if not ip.decide(z3.simplify(ok)):
            ip.throw('ValueError')
        return Sym(TEnum(cls), v.t)
    try:
        return cls(v)
    except ValueError:
        ip.throw('ValueError')


def enter_context(ip, ctx):
    h = ip.ext.get('@enter')
    if h is not None:
        return h(ip, ctx)
    return ctx


MUTATING = ('sort', 'append', 'extend')


def entries_iteration(ip, s, fr):
    """for v in d.values() / for k, v in d.items() whose body mutates v: the keys, and what makes the target of a key"""
    if not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and not s.iter.args
            and s.iter.func.attr in ('values', 'items')):
        return None
    names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING
               and isinstance(n.func.value, ast.Name) and n.func.value.id in names
               for x in s.body for n in ast.walk(x)):
        return None
    d = ip.force(ip.eval(s.iter.func.value, fr))
    if not (isinstance(d, Addr) and isinstance(ip.rec(d), DictObj)):
        return None
    pairs = s.iter.func.attr == 'items'
    return dict_keys(ip, ip.rec(d)), lambda k: (k, DictSlot(d, (k,))) if pairs else DictSlot(d, (k,))


def live_iteration(ip, it, s, fr):
    """Iteration over a list that the body of the loop changes is not supported (the interpreter iterates a snapshot)"""
    if isinstance(it, Addr) and isinstance(s.iter, ast.Name):
        name = s.iter.id
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == name and n.func.attr in ('append', 'extend', 'remove', 'pop', 'insert',
                                                                    'clear', 'add', 'discard', 'sort', 'reverse'):
                raise Unsupported('a loop changes the list it iterates')
    return None


def iterator_protocol(ip, v):
    """Object that is its own iterator: __next__ must unwrap one underlying iterator per step"""
    r = ip.rec(v)
    its = [(k, x) for k, x in r.fields.items() if isinstance(x, SeqVal) and x.kind == 'iter']
    if len(its) != 1:
        raise Unsupported('iterator object')
    name, under = its[0]
    nxt = r.cls.lookup('__next__')
    acc = ip.new_list()

    def body(st, e):
        def run():
            # One step: the underlying iterator yields e
            rec = ip.rec(v)
            d = dict(rec.fields)
            d[name] = SeqVal((Unit(e),), 'iter')
            ip.put(v, InstObj(rec.cls, d))
            x = ip.call(ip.bind(nxt, v, rec.cls), [], {})
            ip.put(v, rec)
            ip.put(acc, ListObj(ip.rec(acc).seq + (Unit(x),), 'list'))
            return ip.ok()

        return ip.explore(st, run)

    base = ip.st
    ip.adopt(base, ip.loop(ip.st, under.seq, body))
    return ip.rec(acc).seq


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
