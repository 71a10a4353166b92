"""C06: tree queries."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.theory import lift
from pyvc.values import *
from pyvc.common import fill_by_induction

NOTE = '''Proved for any sequence of registrations in which every node is registered at most once and never under itself: every
query answers what the contract says of the list of arcs, asking it and a refused registration change nothing; the recursive
queries (ancestors, descendants) by induction, the tree being finite and without cycle.'''

QUERIES = {  # Name: kinds of the arguments
    'children': ['node'], 'parent': ['node'], 'siblings': ['node'], 'has_node': ['node'],
    'children_via': ['node', 'label'], 'child_via': ['node', 'label'], 'has_child_via': ['node', 'label'],
    'has_parent_via': ['node', 'label'], 'has_child_via_set': ['node', 'labels'], 'has_parent_via_set': ['node', 'labels']}


def prove(p):
    ip = p.interp('scrappybara.utils.tree', 'specs.tree')
    get = ip.loader.get
    arc = TTuple(TAny, TAny, TAny)
    arcs = ip.th.mk(TList(arc), 'arcs')
    root = ip.th.mk(TAny, 'root')
    vals = {'node': ip.th.mk(TAny, 'node'), 'label': ip.th.mk(TAny, 'label'), 'labels': ip.th.mk(TSet(TAny), 'labels')}
    other, label2 = ip.th.mk(TAny, 'other'), ip.th.mk(TAny, 'label2')
    # Precondition: every child is registered once (it has a position), never under itself
    pos = z3.Function('position', AnySort, z3.IntSort())

    def once(app):
        s, i = app.children()
        if not s.eq(arcs.seq[0].t):
            return []
        up = ip.th.at(s, arc, i)[1].t
        return [z3.Implies(z3.And(i >= 0, i < _len(s)), z3.And(pos(app) == i, app != up))]

    ip.sv.axioms['at<%s>_2' % arc.key] = once

    def tree():
        return ip.call(get('specs.tree.build'), [get('scrappybara.utils.tree.Tree'), root, arcs], {})

    def query(t, name, args):
        return ip.call(ip.getattr(t, name), args, {})

    def spec(name, *args):
        return ip.call(get('specs.tree.' + name), list(args), {})

    def lst(v):
        return ip.call(ip.builtins['list'], [v], {})

    def truth(v):
        return ip.call(ip.builtins['bool'], [v], {})

    def goal(name, code, contract):
        p.goal(name, lambda: p.equivalent(name, ip, code, contract))

    for name, kinds in QUERIES.items():
        args = [vals[k] for k in kinds]
        view = lst if name in ('children', 'siblings', 'children_via') else truth if name.startswith('has_') else lambda v: v
        goal(name, lambda name=name, args=args, view=view: view(query(tree(), name, args)),
             lambda name=name, args=args: spec(name, arcs, *args))

        def twice(name=name, args=args, view=view):
            t = tree()
            r = spec('refused', t, label2, other)
            query(t, name, args)
            return (r, view(query(t, name, args)), lst(t), lst(query(t, 'children_via', [other, label2])))

        goal(name + ' leaves the tree unchanged, and so does a refused registration', twice,
             lambda name=name, args=args: (True, spec(name, arcs, *args), arcs, spec('children_via', arcs, other, label2)))
    goal('arcs', lambda: lst(tree()), lambda: arcs)
    goal('size', lambda: ip.call(ip.builtins['len'], [tree()], {}), lambda: spec('size', arcs))
    goal('nodes', lambda: lst(ip.getattr(tree(), 'nodes')), lambda: spec('nodes', arcs, root))
    goal('root', lambda: ip.getattr(tree(), 'root'), lambda: root)
    p.goal('ancestors_via', lambda: recursive(p, ip, 'ancestors_via', 'climb', tree, query, arcs, vals, other, lst))
    p.goal('descendants_via', lambda: recursive(p, ip, 'descendants_via', 'descendants_via', tree, query, arcs, vals, other, lst))
    p.absorb(ip)


def recursive(p, ip, name, below_name, tree, query, arcs, vals, x, lst):
    get = ip.loader.get
    args = [vals['node'], vals['label']]

    def below(m):
        return ip.th.mk(TList(TAny), 'below', ip.flat_terms(ip.force(m)))

    done = fill_by_induction(p, ip, name, 'scrappybara.utils.tree.', below,
                             lambda: ip.call(get('specs.tree.' + below_name), [arcs, x, vals['label']], {}), x)
    ip.recursive.append(('specs.tree.' + below_name, lambda ip, fn, a, kw: lst(below(a[1]))))
    p.equivalent(name, ip, lambda: lst(query(tree(), name, args)),
                 lambda: ip.call(get('specs.tree.' + name), [arcs] + args, {}))
    p.record(name + ': recursion by induction', bool(done), 'no recursive call was met')
