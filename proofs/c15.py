"""C15: argument finding."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.values import *
from pyvc.common import node_schema, tree_schema

NOTE = '''Proved for any list of nodes (repetitions and nodes outside of the tree included) and any tree: the registrations under each
of the eleven names, as the sequence of (node, value) in order, are those of specs.args.record (one goal per name, the other names
left out); conjunctions, polarity and every other attribute of any node are those of the contract (nothing else changes). Assumed:
the lists and the conjunctions of the nodes are empty at first (Node.__init__), lists are only added to (a read or a replacement is
refused), Tree by its contract (C06).'''

LISTS = ('subjs', 'objs', 'exists', 'props', 'iprops', 'iobjs', 'adjs', 'subjs_verbs_iprops', 'copulas_props', 'pps_props', 'agents')


class Log:
    """What is registered under one name, as pairs (node, value) in order; registrations under other names are left out"""

    def __init__(self, ip, field):
        self.ip, self.field = ip, field
        self.addr = ip.new_list(())

    def add(self, node, seq):
        ip = self.ip
        self.push(ip.th.map_seq(seq, lambda v: (Unit((node, v)),)))

    def push(self, seq):
        r = self.ip.rec(self.addr)
        self.ip.put(self.addr, ListObj(r.seq + tuple(seq), 'list'))

    def value(self):
        return SeqVal(self.ip.freeze_seq(self.ip.rec(self.addr).seq), 'list')


def prove(p):
    for field in ('subjs', 'objs', 'copulas_props', 'others') + tuple(f for f in LISTS if f not in ('subjs', 'objs', 'copulas_props')):
        p.goal('ArgFinder: ' + field, lambda field=field: one(p, field))


def one(p, field):
    ip = p.interp('scrappybara.syntax.arg_finder', 'specs.args')
    get = ip.loader.get
    th = ip.th
    sch = node_schema(ip)
    ref = TRef(sch)
    nodes = th.mk(TList(ref), 'nodes')
    dep = get('scrappybara.syntax.dependencies.Dep')
    tree = th.mk(TRef(tree_schema(ip, ref, TEnum(dep))), 'tree')
    sch.empty = {'and_cconjs', 'or_cconjs'}  # New nodes
    log = Log(ip, field)
    rsch = {}

    def recorder(name):
        """The list of registrations of a node: values are only added"""
        def extend(ip, obj, args, kw):
            if name == field:
                log.add(owner(obj), ip.seq_of(args[0]))

        def iadd(ip, obj, args, kw):
            extend(ip, obj, args, kw)
            return obj

        def append(ip, obj, args, kw):
            if name == field:
                log.add(owner(obj), (Unit(args[0]),))

        def unread(ip, obj, args, kw):
            raise Unsupported('a list of registrations is read')

        return Schema('List of ' + name, {}, None, {'extend': extend, 'append': append, '__iadd__': iadd, '__len__': unread,
                                                    '__bool__': unread, '__contains__': unread, '__iter__': unread,
                                                    '__getitem__': unread, '__eq__': unread})

    def owner(obj):
        return Sym(ref, obj.t)

    for f in LISTS:
        rsch[f] = recorder(f)

    def attr(ip, obj, name):
        if name in rsch:
            return Sym(TRef(rsch[name]), obj.t)
        if name in sch.fields:
            return ip.read_field(obj, name)
        a = sch.cls.lookup(name)
        if isinstance(a, PropertyVal):
            return ip.call(BoundMethod(a.fget, obj), [], {})
        raise Unsupported('attribute %s of a node' % name)

    def assign(ip, obj, name, value):
        if name in rsch:
            if not (isinstance(value, Sym) and value.ty == TRef(rsch[name]) and value.t.eq(obj.t)):
                raise Unsupported('a list of registrations is replaced')
        else:
            ip.write_field(obj, name, value)

    sch.get, sch.set = attr, assign

    def events_append(ip, obj, args, kw):
        node, name, value = args[0]
        if name == 'is_aff':
            ip.setattr(node, name, value)
        elif name == field:
            log.push((Unit((node, value)),))

    out = Sym(TRef(Schema('Events', {}, None, {'append': events_append})), z3.Const('events', RefSort))

    def code():
        ip.call(ip.call(get('scrappybara.syntax.arg_finder.ArgFinder'), [], {}), [nodes, tree], {})
        return log.value()

    def spec():
        if field == 'others':
            ip.call(get('specs.args.conjoin'), [nodes, tree], {})
        ip.call(get('specs.args.record'), [out, nodes, tree], {})
        return log.value()

    p.equivalent('ArgFinder: ' + field, ip, code, spec,
                 fields=[(sch, f) for f in sch.fields if f not in rsch] if field == 'others' else ())
    p.absorb(ip)
