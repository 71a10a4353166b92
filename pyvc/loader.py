"""Loads Python source files into the interpreter: module scopes, classes, enumerations.

The text interpreted is the file of the repository itself, parsed on every run; nothing is copied or rewritten.
What is dropped: the __init__ files of packages (unless one of their names is used), comments, docstrings, annotations and the bodies of `if __name__ == '__main__'`.
"""
import ast
import enum
import os

from .core import *
from .values import *

REPO = os.environ.get('PYVC_REPO', '/repo')  # Overridden only when the verifier itself is tested
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = {'scrappybara': REPO, 'specs': VERIF, 'proofs': VERIF}

_enums = {}


class Loader:
    def __init__(self, ip, roots=None):
        self.ip = ip
        self.roots = dict(roots or ROOTS)
        self.modules = {}
        self.files = []
        self.assigned = {}  # preset module variables: (module, name) => value

    def path_of(self, name):
        parts = name.split('.')
        root = self.roots.get(parts[0])
        if root is None:
            return None
        base = os.path.join(root, *parts)
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py')
        if os.path.isfile(base + '.py'):
            return base + '.py'
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.path_of(name)
        if path is None:
            if name.split('.')[0] in self.roots:
                raise Unsupported('no module %s' % name)
            return Ext(name)
        m = ModuleVal(name, path)
        self.modules[name] = m
        text = open(path).read() if os.path.exists(path) else ''
        self.files.append(path)
        tree = ast.parse(text, path)
        ip = self.ip
        if ip.trace is not None:
            raise Unsupported('module %s loaded during an exploration' % name)
        m.scope = ip.alloc(ScopeObj({'__name__': name, '__file__': path}))
        from .interp import Frame, NORMAL
        fr = Frame(m.scope, m)
        for s in tree.body:
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) \
                    and s.test.left.id == '__name__':
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                getattr(ip, 'st_' + type(s).__name__)(s, fr)
                continue
            outs = ip.exec_stmt(ip.st, s, fr)
            if len(outs) != 1 or outs[0].kind != NORMAL:
                raise Unsupported('module-level statement at %s:%d' % (path, s.lineno))
            ip.st = outs[0].st
            ip.base_heap = ip.st.heap
        for (mod, var), v in self.assigned.items():
            if mod == name:
                d = dict(ip.rec(m.scope).vars)
                d[var] = v
                ip.put(m.scope, ScopeObj(d))
        m.loaded = True
        return m

    def preset(self, mod, var, v):
        """Overrides a module variable (stated in the evidence by the caller)"""
        self.assigned[(mod, var)] = v
        if mod in self.modules:
            m = self.modules[mod]
            d = dict(self.ip.rec(m.scope).vars)
            d[var] = v
            self.ip.put(m.scope, ScopeObj(d))

    def member(self, m, name):
        if isinstance(m, Ext):
            return self.ip.bi.ext_attr(self.ip, m, name)
        vars = self.ip.rec(m.scope).vars
        if name in vars:
            return vars[name]
        sub = m.name + '.' + name
        if sub in self.modules or self.path_of(sub) is not None:
            return self.load(sub)
        self.ip.throw('AttributeError', name)

    def get(self, dotted):
        """Value of module.name[.name...]"""
        parts = dotted.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:k])
            if self.path_of(mod) is not None:
                v = self.load(mod)
                for p in parts[k:]:
                    if isinstance(v, ClassVal):
                        v = v.lookup(p)
                    else:
                        v = self.member(v, p)
                return v
        raise Unsupported('no such name %s' % dotted)

    # CLASSES
    # ------------------------------------------------------------------------

    def make_class(self, node, fr):
        ip = self.ip
        bases = []
        native_enum = False
        for b in node.bases:
            v = ip.force(ip.eval(b, fr))
            if isinstance(v, Ext) and v.name in ('enum.Enum', 'enum.IntEnum'):
                native_enum = True
            elif isinstance(v, Ext) and v.name in ('threading.Thread', 'multiprocessing.Process'):
                bases.append(ip.bi_thread_class)
            elif isinstance(v, Ext) and v.name == 'abc.ABC':
                pass
            elif isinstance(v, ClassVal):
                if v.name != 'object':
                    bases.append(v)
            elif v is None:
                pass
            else:
                raise Unsupported('base class %r' % (v,))
        qual = (fr.func.qualname if fr.func is not None else fr.module.name) + '.' + node.name
        if native_enum:
            return self.make_enum(node, qual)
        cls = ClassVal(node.name, bases, {}, fr.module, qual)
        # The class body sees the enclosing scope; its own names are visible while it is executed
        from .interp import Frame, NORMAL, mangle
        cscope = ip.alloc(ScopeObj({'@parent': fr.scope}))
        cfr = Frame(cscope, fr.module, cls, None, None)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = self.make_method(s, cfr, fr.scope)
                d = dict(ip.rec(cscope).vars)
                d[s.name] = f
                ip.put(cscope, ScopeObj(d))
            else:
                outs = ip.exec_stmt(ip.st, s, cfr)
                if len(outs) != 1 or outs[0].kind != NORMAL:
                    raise Unsupported('statement in class %s' % node.name)
                ip.st = outs[0].st
        for k, v in ip.rec(cscope).vars.items():
            if not k.startswith('@'):
                cls.attrs[mangle(k, cls)] = v
        return cls

    def make_method(self, s, cfr, outer):
        ip = self.ip
        f = ip.make_func(s, cfr)
        f.scope = outer
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'staticmethod':
                f = StaticVal(f)
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                f = ClassMethodVal(f)
            elif isinstance(d, ast.Name) and d.id == 'property':
                f = PropertyVal(f)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                old = ip.rec(cfr.scope).vars.get(d.value.id)
                f = PropertyVal(old.fget, f)
            elif isinstance(d, ast.Attribute) and d.attr == 'abstractmethod':
                pass
            else:
                raise Unsupported('decorator of %s' % s.name)
        return f

    def make_enum(self, node, qual):
        src = ast.unparse(node)
        key = (qual, src)
        if key not in _enums:
            mod = ast.Module([node], [])
            ast.fix_missing_locations(mod)
            env = {'enum': enum, 'Enum': enum.Enum, 'IntEnum': enum.IntEnum, 'auto': enum.auto, 'unique': enum.unique,
                   '__name__': qual.rsplit('.', 1)[0]}
            exec(compile(mod, qual, 'exec'), env)
            _enums[key] = env[node.name]
        return _enums[key]
