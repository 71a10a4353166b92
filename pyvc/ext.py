"""Models (trusted contracts) of the external libraries the repository calls."""
import z3

from .core import *
from .core import _len
from .values import *

TRUSTED = {}  # name of the external function => the contract assumed


def ext(name, contract):
    def deco(fn):
        TRUSTED[name] = contract
        _HANDLERS[name] = fn
        return fn

    return deco


_HANDLERS = {}


def make_ext(ip):
    out = dict(_HANDLERS)
    ip.bi_thread_class = thread_class(ip)
    out['threading.Thread.__init__'] = ip.bi_thread_class.attrs['__init__'].fn
    out['@field_read'] = _field_read
    out['@binop'] = _path_binop
    out['math.inf'] = float('inf')
    for f in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'U', 'UNICODE'):
        out['re.' + f] = int(getattr(__import__('re'), f))
    return out


# THREADS
# ----------------------------------------------------------------------------

def thread_class(ip):
    """threading.Thread: start() runs run() to completion at an unknown time before join() returns.
    The state written by run() belongs to the thread between start() and join(): reading or writing a field of a
    started, not yet joined thread object fails the proof.
    """

    def init(ip, args, kw):
        obj = args[0]
        ip.setattr(obj, '@phase', 'new')
        return None

    def start(ip, args, kw):
        obj = args[0]
        r = ip.rec(obj)
        if r.fields.get('@phase') != 'new':
            ip.throw('RuntimeError')
        ip.setattr(obj, '@phase', 'running')
        ip.call(ip.getattr(obj, 'run'), [], {})
        ip.setattr(obj, '@phase', 'started')
        return None

    def join(ip, args, kw):
        obj = args[0]
        if ip.rec(obj).fields.get('@phase') != 'started':
            ip.throw('RuntimeError')
        if len(args) > 1 or kw:
            t = kw.get('timeout', args[1] if len(args) > 1 else None)
            if t is not None:
                return None  # Nothing is known after a join with a timeout
        ip.setattr(obj, '@phase', 'joined')
        return None

    TRUSTED['threading.Thread'] = ('start() runs run() once; join() without timeout returns after run() has ended; '
                                   'the worker only touches the state given to it (checked: no field of a started '
                                   'thread is read before join)')
    return ClassVal('Thread', [], {'__init__': Builtin('Thread.__init__', init), 'start': Builtin('start', start),
                                   'join': Builtin('join', join)}, None, 'threading.Thread')


def _field_read(ip, obj, r, name):
    if r.fields.get('@phase') == 'started' and not name.startswith('@'):
        raise Unsupported('field %s of a running thread is read (data race)' % name)


# NUMPY
# ----------------------------------------------------------------------------


@ext('numpy.linspace', 'numpy.linspace(0, n, num=k+1) with integers 1 <= k <= n: k+1 values, the first is 0 and the last '
                       'is n exactly, the values are non decreasing, consecutive values differ by n/k (floating-point '
                       'numbers treated as real numbers; only the balance of the parts depends on this)')
def linspace(ip, args, kw):
    a, b = [ip.force(x) for x in args[:2]]
    num = ip.force(kw['num'] if 'num' in kw else args[2])
    from .theory import term
    ta, tb, tn = zint(term(a)), zint(term(b)), zint(term(num))
    th = ip.th
    t = z3.Function('linspace', z3.IntSort(), z3.IntSort(), z3.IntSort(), SeqX)(ta, tb, tn)
    ip.sv.axioms['linspace'] = lambda app: [z3.Implies(app.arg(2) >= 0, _len(app) == app.arg(2))]
    name = 'at<real>'

    def marks(app):
        s, i = app.children()
        if not (z3.is_app(s) and s.decl().name() == 'linspace'):
            return []
        x, y, n = s.children()
        ok = z3.And(n > 1, y >= x)
        out = [z3.Implies(z3.And(ok, i == 0), app == z3.ToReal(x)),
               z3.Implies(z3.And(ok, i == n - 1), app == z3.ToReal(y)),
               z3.Implies(z3.And(ok, i >= 0, i < n), z3.And(app >= z3.ToReal(x), app <= z3.ToReal(y)))]
        if i.num_args() == 0:
            out.append(z3.Implies(z3.And(ok, i >= 0, i < n - 1), app <= th.at(s, TReal, i + 1).t))
            step = (z3.ToReal(y) - z3.ToReal(x)) / z3.ToReal(n - 1)
            if getattr(ip, 'even_marks', False):
                out.append(z3.Implies(z3.And(ok, i >= 0, i < n - 1), th.at(s, TReal, i + 1).t - app == step))
        return out

    ip.sv.axioms[name] = marks
    ip.linspaces = getattr(ip, 'linspaces', []) + [t]
    if set(kw) - {'num', 'dtype'}:
        raise Unsupported('options of linspace')
    if _dtype(ip, kw, args, 99) == 'int':
        b = fresh_binder()
        return SeqVal((Comp(b, tn, (Unit(Sym(TInt, z3.ToInt(th.at(t, TReal, b).t))),)),), 'ndarray')
    return SeqVal((Var(t, TReal),), 'ndarray')


@ext('numpy.empty', 'numpy.empty: an array of the given size with unknown cells')
def np_empty(ip, args, kw):
    kind = _dtype(ip, kw, args, 1)
    dims = _dims(ip, args[0] if args else kw['shape'])
    if len(dims) != 1 or kind not in (None, 'real'):
        raise Unsupported('shape or type of an empty array')
    if not ip.sv.implied(ip.st.pc, zint(dims[0]) >= 0):
        if ip.decide(zint(dims[0]) < 0):
            ip.throw('ValueError')
    b = fresh_binder()
    cell = Sym(TReal, z3.Function('empty!%d' % fresh_id(), z3.IntSort(), z3.RealSort())(b))
    return ip.new_list((Comp(b, zint(dims[0]), (Unit(cell),)),), 'ndarray')


@ext('numpy.maximum', 'numpy.maximum: the greater of the two, cell by cell')
def np_maximum(ip, args, kw):
    from .builtins_ import real
    if len(args) != 2 or kw:
        raise Unsupported('maximum')

    def fn(x, y):
        u, v = real(x), real(y)
        return Sym(TReal, z3.simplify(z3.If(u >= v, u, v)))

    return ip.bi.array_map(ip, ip.force(args[0]), ip.force(args[1]), fn)


INTS = ('int', 'int16', 'int32', 'int64', 'uint16', 'uint32', 'uint64', 'intc', 'int_')
REALS = ('float', 'float32', 'float64', 'double', 'single')


def _dtype(ip, kw, args, at):
    """'int', 'real' or None (not given)"""
    d = kw.get('dtype', args[at] if len(args) > at else None)
    d = ip.force(d) if d is not None else None
    if d is None:
        return None
    name = d.name if isinstance(d, Ext) else getattr(d, '__name__', None) or getattr(d, 'name', None) or str(d)
    name = str(name).split('.')[-1]
    if name in INTS:
        return 'int'
    if name in REALS:
        return 'real'
    if name in ('bool', 'bool_'):
        return 'bool'
    raise Unsupported('array of type %s' % name)


def _elem_kind(ip, seq):
    from .loops import seq_type
    t = seq_type(ip.th, seq)
    while t.kind == 'list':
        t = t.args[0]
    return t.kind


def _cells(ip, seq, kind):
    got = _elem_kind(ip, seq)
    if kind is None or got == 'unknown' and not seq:
        return
    if got != kind and not (got == 'int' and kind == 'real'):
        raise Unsupported('cells of type %s in an array of type %s' % (got, kind))


def _dims(ip, v):
    v = ip.force(v)
    seq = ip._maybe_seq(v)
    if seq is None:
        return [ip.bi.zint_of(ip, v)]
    us = ip.th.units(seq)
    if us is None or not 1 <= len(us) <= 2:
        raise Unsupported('shape of an array')
    return [ip.bi.zint_of(ip, ip.force(u)) for u in us]


def _full(ip, dims, cell):
    for d in dims:
        if not ip.sv.implied(ip.st.pc, zint(d) >= 0):
            if ip.decide(zint(d) < 0):
                ip.throw('ValueError')
    body = (Unit(cell),)
    for k, d in enumerate(reversed(dims)):
        body = ip.th.norm((Comp(fresh_binder(), zint(d), body),))
        if k < len(dims) - 1:
            body = (Unit(SeqVal(body, 'ndarray')),)
    return ip.new_list(body, 'ndarray')


_NUMPY = ('numpy arrays are sequences of numbers (rows of a matrix: sequences of the same length); integers and floating-point '
          'numbers of the array type are the mathematical ones (a type that could not hold them is refused)')


@ext('numpy.zeros', _NUMPY)
def np_zeros(ip, args, kw):
    kind = _dtype(ip, kw, args, 1)
    return _full(ip, _dims(ip, args[0] if args else kw['shape']), {'int': 0, 'bool': False}.get(kind, 0.0))


@ext('numpy.ones', _NUMPY)
def np_ones(ip, args, kw):
    kind = _dtype(ip, kw, args, 1)
    return _full(ip, _dims(ip, args[0] if args else kw['shape']), {'int': 1, 'bool': True}.get(kind, 1.0))


@ext('numpy.full', _NUMPY)
def np_full(ip, args, kw):
    kind = _dtype(ip, kw, args, 2)
    v = ip.force(args[1] if len(args) > 1 else kw['fill_value'])
    from .theory import scalar_type
    if kind is not None and scalar_type(v).kind != kind:
        raise Unsupported('array filled with a value of another type')
    return _full(ip, _dims(ip, args[0] if args else kw['shape']), v)


def _array(ip, args, kw):
    kind = _dtype(ip, kw, args, 1)
    seq = ip.freeze_seq(ip.seq_of(args[0]))
    _cells(ip, seq, kind)
    for s in ip.th.norm(seq):
        if isinstance(s, Unit) and isinstance(s.v, (SeqVal, tuple)) or not isinstance(s, (Unit, Var)) and any(
                isinstance(x, Unit) and isinstance(x.v, (SeqVal, tuple)) for x in s.body):
            raise Unsupported('array from nested lists')
    return ip.new_list(seq, 'ndarray')


ext('numpy.array', _NUMPY)(_array)
ext('numpy.asarray', _NUMPY)(_array)


@ext('numpy.concatenate', _NUMPY)
def np_concatenate(ip, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('concatenation of arrays along an axis')
    parts = ip.th.units(ip.seq_of(args[0]))
    if parts is None:
        raise Unsupported('concatenation of an unknown number of arrays')
    out = ()
    for x in parts:
        out = out + ip.freeze_seq(ip.seq_of(x))
    return ip.new_list(out, 'ndarray')


# MATH
# ----------------------------------------------------------------------------


@ext('math.log', 'math.log: a function of its argument, ValueError unless it is positive')
def math_log(ip, args, kw):
    from .builtins_ import real
    v = ip.force(args[0])
    if isinstance(v, (int, float)) and v <= 0:
        ip.throw('ValueError')
    t = real(v)
    if not ip.decide(t > 0):
        ip.throw('ValueError')
    return ip.th.mk(TReal, 'math_log', [t] + [real(ip.force(a)) for a in args[1:]])


# ITERTOOLS
# ----------------------------------------------------------------------------


@ext('itertools.groupby', 'itertools.groupby: the maximal runs of consecutive items with the same key, each run read before the '
                          'next one is asked for (contract specs.library.groupby)')
def groupby(ip, args, kw):
    key = kw['key'] if 'key' in kw else args[1]
    r = ip.call(ip.loader.get('specs.library.groupby'), [args[0], key], {})
    return SeqVal(ip.seq_of(r), 'iter')


# COLLECTIONS
# ----------------------------------------------------------------------------


@ext('collections.deque', 'collections.deque: a list with cheap access at both ends')
def deque(ip, args, kw):
    if len(args) > 1 or kw:
        raise Unsupported('bounded deque')
    return ip.new_list(ip.seq_of(args[0]) if args else (), 'deque')


@ext('collections.Counter', 'collections.Counter(): a dictionary of numbers where a missing key counts 0')
def counter(ip, args, kw):
    if args or kw:
        raise Unsupported('Counter of items')
    return ip.alloc(DictObj((), 'counter'))


# RANDOM
# ----------------------------------------------------------------------------


@ext('random.shuffle', 'random.shuffle: rearranges the list in place; the order chosen depends on the length only (and on the '
                       'generator)')
def shuffle(ip, args, kw):
    if len(args) != 1 or kw or not isinstance(args[0], Addr):
        raise Unsupported('shuffle')
    r = ip.rec(args[0])
    if not isinstance(r, ListObj):
        raise Unsupported('shuffle')
    seq = ip.th.norm(ip.freeze_seq(r.seq))
    n = ip.th.seq_len(seq)
    count, get = ip.bi.index_seq(ip, seq)
    ip.shuffles = getattr(ip, 'shuffles', 0)
    b = fresh_binder()
    fn = z3.Function('shuffled', z3.IntSort(), z3.IntSort(), z3.IntSort())
    ip.sv.axioms['shuffled'] = lambda app: [z3.Implies(z3.And(app.arg(1) >= 0, app.arg(1) < app.arg(0)),
                                                       z3.And(app >= 0, app < app.arg(0)))]
    if get is not None:
        ip.put(args[0], ListObj((Comp(b, zint(n), (Unit(get(fn(zint(n), b))),)),), r.kind))
    return None


# PATHS
# ----------------------------------------------------------------------------


class PathVal:
    """pathlib.Path: the parts joined (strings, possibly symbolic)"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, other):
        return isinstance(other, PathVal) and self.parts == other.parts

    def __hash__(self):
        return hash(len(self.parts))

    def __repr__(self):
        return 'Path%r' % (self.parts,)


@ext('pathlib.Path', 'pathlib: a path is the sequence of its parts; / appends a part')
def path(ip, args, kw):
    parts = []
    for a in args:
        a = ip.force(a)
        parts.extend(a.parts if isinstance(a, PathVal) else [a])
    return PathVal(parts)


def _path_binop(ip, op, a, b):
    if isinstance(a, PathVal) and op == 'Div':
        b = ip.force(b)
        return PathVal(a.parts + (b.parts if isinstance(b, PathVal) else (b,)))
    return None


def _path_attr(ip, v, name):
    if name == 'parent':
        if len(v.parts) > 1:
            return PathVal(v.parts[:-1])
        if isinstance(v.parts[0], str):
            import os
            return PathVal((os.path.dirname(v.parts[0]),))
    raise Unsupported('Path.%s' % name)


# REGULAR EXPRESSIONS
# ----------------------------------------------------------------------------


class RegexVal:
    """Compiled pattern"""

    def __init__(self, pattern, flags):
        import re
        self.pattern = pattern
        self.flags = flags
        self.real = re.compile(pattern, flags)

    def __eq__(self, other):
        return isinstance(other, RegexVal) and (self.pattern, self.flags) == (other.pattern, other.flags)

    def __hash__(self):
        return hash((self.pattern, self.flags))


def _regex(ip, args, kw, at=0):
    p = ip.force(args[at])
    if isinstance(p, RegexVal):
        return p
    if not isinstance(p, str):
        raise Unsupported('symbolic regular expression')
    f = kw.get('flags', 0)
    return RegexVal(p, int(ip.force(f)))


@ext('re.compile', 're.compile: the compiled pattern behaves as its source text')
def re_compile(ip, args, kw):
    p = ip.force(args[0])
    if isinstance(p, RegexVal):
        return p
    if not isinstance(p, str):
        raise Unsupported('symbolic regular expression')
    flags = ip.force(args[1]) if len(args) > 1 else ip.force(kw.get('flags', 0))
    return RegexVal(p, int(flags))


def char_class(rx):
    """Set of code points when the pattern is one character class repeated once or more, None otherwise"""
    import re
    try:
        import re._parser as sp
        import re._constants as sc
    except ImportError:
        import sre_parse as sp
        import sre_constants as sc
    if rx.flags & ~re.UNICODE:
        return None
    tree = sp.parse(rx.pattern)
    if len(tree) != 1 or tree[0][0] is not sc.MAX_REPEAT:
        return None
    lo, hi, body = tree[0][1]
    if lo not in (0, 1) or hi is not sc.MAXREPEAT or len(body) != 1:
        return None
    op, av = body[0]
    out = set()
    if op is sc.LITERAL:
        out.add(av)
    elif op is sc.IN:
        for o, a in av:
            if o is sc.LITERAL:
                out.add(a)
            elif o is sc.RANGE:
                out.update(range(a[0], a[1] + 1))
            else:
                return None
    else:
        return None
    return lo, out


@ext('re.fullmatch', 're.fullmatch(p, s) for a pattern that is one character class repeated: matches exactly when every '
                     'character of s is in the class and s has the minimal length (semantics of Python\'s re)')
def re_fullmatch(ip, args, kw):
    rx = _regex(ip, args, kw)
    s = ip.force(args[1])
    if isinstance(s, str):
        m = rx.real.fullmatch(s)
        return None if m is None else MatchVal([m.group(0)] + list(m.groups()))
    cc = char_class(rx)
    if cc is None:
        h = ip.ext.get('@fullmatch')
        if h is not None:
            return h(ip, rx, s)
        raise Unsupported('fullmatch of %s' % rx.pattern)
    lo, chars = cc
    th = ip.th
    seq = ip.seq_of(s)
    good = lambda c: z_or(*[ip.equals(c, chr(x)) for x in sorted(chars)])
    bad = th.exists(seq, lambda c: z_not(zb(good(c))))
    ok = z_and(z_not(bad), th.seq_len(seq) >= lo)
    if ip.decide(ok):
        return MatchVal([s])
    return None


def _bool_match(v):
    return isinstance(v, MatchVal)


def alternatives(rx):
    """(middles, endings) of a pattern ([a-z]+)(a|b|...)(c|d|...) that ignores case, None for any other pattern"""
    import re
    m = re.fullmatch(r'\(\[a-z\]\+\)\(([a-z|]*)\)\(([a-z|]*)\)', rx.pattern)
    if m is None or rx.flags & ~re.UNICODE != re.IGNORECASE:
        return None
    mids, ends = (tuple(x.split('|')) for x in m.groups())
    return mids, ends


def unambiguous(mids, ends):
    """The order of the alternatives does not matter when no two choices give the same text"""
    texts = [a + b for a in mids for b in ends]
    if len(set(texts)) == len(texts):
        return tuple(sorted(mids)), tuple(sorted(ends))
    return mids, ends
