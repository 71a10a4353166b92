"""Interpreter-level values that are not terms: functions, classes, modules..."""
import z3

from .core import Undefined, zint, to_int_if_concrete


class _Unbound(Undefined):
    def __init__(self):
        self.why = 'unbound'


UNBOUND = _Unbound()


class PyFunc:
    def __init__(self, node, scope, module, cls, name, qualname, defaults, kw_defaults):
        self.node = node
        self.scope = scope
        self.module = module
        self.cls = cls
        self.name = name
        self.qualname = qualname
        self.defaults = defaults
        self.kw_defaults = kw_defaults

    def __repr__(self):
        return '<function %s>' % self.qualname


class BoundMethod:
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj


class NativeMethod:
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class DecoratorVal:
    def __init__(self, fn):
        self.fn = fn


class PropertyVal:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticVal:
    def __init__(self, func):
        self.func = func


class ClassMethodVal:
    def __init__(self, func):
        self.func = func


class ClassVal:
    def __init__(self, name, bases, attrs, module, qualname, native=None):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.qualname = qualname
        self.native = native

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def is_exception(self):
        return any(c.name == 'BaseException' for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.qualname


class ModuleVal:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.vars = {'__name__': name, '__file__': path}
        self.loaded = False


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj

    def lookup(self, name):
        for c in self.cls.mro()[1:]:
            if name in c.attrs:
                return c.attrs[name]
        return None


class Ext:
    """Name of an external library, resolved by the models of ext.py"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name

    def __eq__(self, other):
        return isinstance(other, Ext) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo = lo
        self.hi = hi
        self.step = step


class StarArgs:
    """Positional arguments of unknown number"""

    def __init__(self, seq):
        self.seq = seq

    def __iter__(self):
        from .core import Unsupported
        raise Unsupported('unknown number of arguments')

    def __len__(self):
        from .core import Unsupported
        raise Unsupported('unknown number of arguments')


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo = zint(lo)
        self.hi = zint(hi)
        self.step = zint(step)

    def count(self, ip):
        s = to_int_if_concrete(self.step)
        d = z3.simplify(self.hi - self.lo)
        if s == 1:
            n = d
        elif s == -1:
            n = z3.simplify(-d)
        elif s is not None and s > 0:
            n = z3.simplify((d + (s - 1)) / z3.IntVal(s))
        else:
            if not ip.sv.implied(ip.st.pc, self.step > 0):
                from .core import Unsupported
                raise Unsupported('range with a step of unknown sign')
            n = z3.simplify((d + self.step - 1) / self.step)
        if ip.sv.implied(ip.st.pc, n >= 0):
            return n
        return z3.simplify(z3.If(n >= 0, n, z3.IntVal(0)))


class MatchVal:
    """Successful regular-expression match"""

    def __init__(self, groups, spans=None):
        self.groups = groups  # list: whole match, group 1...
        self.spans = spans


class Schema:
    """Declared shape of symbolic objects of a class"""

    def __init__(self, name, fields, cls=None, methods=None):
        self.name = name
        self.fields = fields
        self.cls = cls
        self.methods = methods or {}
        self.get = self.set = None  # Hooks for the attributes: get(ip, obj, name), set(ip, obj, name, value)
        self.empty = set()  # List fields that are empty at first

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name


class SchemaMethod:
    def __init__(self, schema, name, obj):
        self.schema = schema
        self.name = name
        self.obj = obj
