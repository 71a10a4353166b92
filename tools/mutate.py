"""Mutation test of the verifier: automatic mutants of the source files of a property, proved in scratch copies.

usage: mutate.py C07 scrappybara/langmodel/ngram_store.py[:function] ... [--max N] [--concrete]
Lists the mutants that no obligation rejects (equivalent, or missed).
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VT = '/opt/veriftools/pyvenv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Mut(ast.NodeTransformer):
    """Applies the k-th possible mutation"""

    def __init__(self, k, only=None):
        self.k = k
        self.i = -1
        self.what = None
        self.only = only
        self.inside = only is None
        self.deco = False

    def hit(self, what, node):
        if not self.inside:
            return False
        self.i += 1
        if self.i == self.k:
            self.what = '%s @%d' % (what, node.lineno)
            return True
        return False

    def visit_FunctionDef(self, node):
        was = self.inside
        if self.only and node.name == self.only:
            self.inside = True
        node.body = self.block(node.body)
        self.inside = was
        return node

    def block(self, body):
        out = []
        for s in body:
            drop = isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue)) and not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
            if drop and self.hit('drop ' + ast.unparse(s)[:60], s):
                out.append(ast.copy_location(ast.Pass(), s))
                continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_Compare(self, node):
        swaps = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
                 ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        if len(node.ops) == 1 and self.hit('cmp ' + ast.unparse(node)[:60], node):
            node.ops = [swaps[type(node.ops[0])]()]
            return node
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.hit('boolop ' + ast.unparse(node)[:60], node):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return node
        for j in range(len(node.values)):
            if self.hit('drop operand %d of %s' % (j, ast.unparse(node)[:60]), node):
                vs = node.values[:j] + node.values[j + 1:]
                if len(vs) == 1:
                    return vs[0]
                node.values = vs
                return node
        return self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not) and self.hit('unnot ' + ast.unparse(node)[:60], node):
            return node.operand
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}
        if type(node.op) in sw and self.hit('binop ' + ast.unparse(node)[:60], node):
            node.op = sw[type(node.op)]()
            return node
        return self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit('const %s' % v, node):
                return ast.copy_location(ast.Constant(not v), node)
        elif isinstance(v, int):
            for d in (1, -1):
                if self.hit('const %s%+d' % (v, d), node):
                    return ast.copy_location(ast.Constant(v + d), node)
        elif isinstance(v, str) and v:
            if self.hit('const %r' % v, node):
                return ast.copy_location(ast.Constant(v + 'x'), node)
        return node

    def visit_Attribute(self, node):
        sw = {'subjs': 'objs', 'objs': 'iobjs', 'props': 'iprops', 'lemma': 'text', 'canon': 'lemma', 'append': 'extend',
              'popleft': 'pop', 'startswith': 'endswith', 'NOUN': 'PROPN', 'VERB': 'ADJ', 'ADJ': 'VERB', 'max': 'min'}
        if node.attr in sw and self.hit('attr ' + ast.unparse(node)[:60], node):
            node.attr = sw[node.attr]
            return node
        return self.generic_visit(node)

    def visit_Call(self, node):
        if len(node.args) >= 2 and self.hit('swap args ' + ast.unparse(node)[:60], node):
            node.args[0], node.args[1] = node.args[1], node.args[0]
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ('sorted', 'reversed', 'set', 'any', 'all', 'min', 'max'):
            if self.hit('call ' + ast.unparse(node)[:60], node):
                other = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}.get(node.func.id, 'list')
                node.func.id = other
                return node
        return self.generic_visit(node)

    def visit_If(self, node):
        if self.hit('if True: ' + ast.unparse(node.test)[:60], node):
            node.test = ast.copy_location(ast.Constant(True), node.test)
            return node
        if self.hit('if False: ' + ast.unparse(node.test)[:60], node):
            node.test = ast.copy_location(ast.Constant(False), node.test)
            return node
        return self.generic_visit(node)

    def visit_Slice(self, node):
        if node.lower is not None and self.hit('slice lower ' + ast.unparse(node), node.lower):
            node.lower = None
            return node
        if node.upper is not None and self.hit('slice upper ' + ast.unparse(node), node.upper):
            node.upper = None
            return node
        return self.generic_visit(node)


def mutants(path, only):
    src = open(path).read()
    k = 0
    while True:
        tree = ast.parse(src)
        m = Mut(k, only)
        tree = m.visit(tree)
        if m.what is None:
            return
        ast.fix_missing_locations(tree)
        yield m.what, ast.unparse(tree)
        k += 1


def run_proof(prop, tmp, n):
    env = dict(os.environ, PYVC_REPO=os.path.join(tmp, str(n)))
    try:
        r = subprocess.run([VT, '-m', 'pyvc.prove', prop], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return 'timeout'
    return 'killed' if r.returncode == 1 else 'SURVIVED' if r.returncode == 0 else 'error ' + r.stderr[-300:]


def run_search(prop, tmp, n):
    env = dict(os.environ, VERIF_REPO=os.path.join(tmp, str(n)), PYTHONDONTWRITEBYTECODE='1')
    out = os.path.join(tmp, '%d.json' % n)
    try:
        r = subprocess.run(['/opt/venv/bin/python', 'concrete/run.py', prop, '--seconds', '25', '--out', out], cwd=HERE, env=env,
                           capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return 'timeout'
    try:
        d = json.load(open(out))
    except (OSError, ValueError):
        return 'killed' if r.returncode else 'error'
    return 'killed' if d.get('failure') or d.get('errors') else 'SURVIVED'


def main():
    args = sys.argv[1:]
    global run_proof
    if '--concrete' in args:
        args.remove('--concrete')
        run_proof = run_search
    limit = 10 ** 9
    if '--max' in args:
        i = args.index('--max')
        limit = int(args[i + 1])
        del args[i:i + 2]
    prop = args[0]
    todo = []
    for spec in args[1:]:
        path, _, only = spec.partition(':')
        for what, text in mutants(os.path.join('/repo', path), only or None):
            todo.append((path, what, text))
    random.Random(5).shuffle(todo)
    todo = todo[:limit]
    with tempfile.TemporaryDirectory(prefix='mut_') as tmp:
        def one(n):
            path, what, text = todo[n]
            d = os.path.join(tmp, str(n))
            shutil.copytree('/repo/scrappybara', os.path.join(d, 'scrappybara'),
                            ignore=shutil.ignore_patterns('*.pyc', '__pycache__', 'resources', 'models'))
            with open(os.path.join(d, path), 'w') as f:
                f.write(text)
            r = run_proof(prop, tmp, n)
            shutil.rmtree(d)
            return r

        with ThreadPoolExecutor(7) as ex:
            res = list(ex.map(one, range(len(todo))))
    for r, (path, what, _) in sorted(zip(res, todo), key=lambda x: (x[0], x[1][0], x[1][1])):
        if r != 'killed':
            print(r, path, what)
    print('%s: %d mutants, %d killed' % (prop, len(todo), sum(r == 'killed' for r in res)))


if __name__ == '__main__':
    main()
