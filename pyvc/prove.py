"""Proof driver: the real code and its contract, interpreted from the same symbolic state, must agree.

For every jointly feasible pair of outcomes (one of the code, one of the contract) the obligations are: same kind (value
or exception class), equal values, equal observed effects. Each one is discharged by z3 (through theory.val_eq) for all
inputs satisfying the precondition, with no bound on the sizes.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

import z3

from .core import *
from .interp import Interp, Outcome, State, RETURN, RAISE, PyRaise, Infeasible
from .loader import Loader
from .theory import same
from .solver import Timeout
from . import ext as extmod


class Failed(Exception):
    pass


class Prover:
    def __init__(self, cid, tier='quick', limit=380):
        self.cid = cid
        self.tier = tier
        self.obligations = []
        self.failed = []
        self.functions = {}
        self.assumptions = []
        self.trusted = {}
        self.bounded = []
        self.t0 = time.time()
        self.deadline = self.t0 + limit
        self.solver_s = 0.0
        self.queries = 0
        self.lemmas = 0
        self.files = set()
        self.only = None
        self.verbose = False
        self.complete = True
        self.interps = []
        self.jobs = 1
        self.children = []  # (process id, pipe, index of the goal)
        self.results = {}
        self.goals = 0

    # ENVIRONMENT
    # ------------------------------------------------------------------------

    def interp(self, *modules):
        ip = Interp()
        ip.loader = Loader(ip)
        ip.sv.deadline = self.deadline
        self.interps.append(ip)
        for m in modules:
            ip.loader.load(m)
        return ip

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # OBLIGATIONS
    # ------------------------------------------------------------------------

    def record(self, name, ok, detail='', back_end='z3'):
        self.obligations.append({'name': name, 'status': 'discharged' if ok else 'failed', 'back_end': back_end})
        if not ok:
            self.failed.append({'name': name, 'detail': str(detail)[:6000]})
        if self.verbose:
            print('  %s %s %s' % ('ok  ' if ok else 'FAIL', name, '' if ok else str(detail)[:3000]), flush=True)
        return ok

    def absorb(self, ip):
        self.solver_s += ip.sv.stats.solver_s
        self.queries += ip.sv.stats.queries
        for k, v in ip.visited.items():
            if k.startswith('scrappybara'):
                self.functions[k] = self.functions.get(k, 0) + v
        for k in ip.ext_uses:
            self.trusted[k] = extmod.TRUSTED.get(k, 'modelled')
        for k in ip.assumptions:
            self.assume(k)
        self.files.update(ip.loader.files)

    def goal(self, name, fn):
        """Runs fn() (which records obligations); a verifier limit fails the goal by name"""
        if self.only and not any(o in name for o in self.only):
            return
        if self.jobs > 1:
            return self.fork(name, fn)
        t = time.time()
        n0 = len(self.obligations)
        try:
            fn()
            if len(self.obligations) == n0:
                self.record(name + ': obligations generated', False, 'no obligation was generated')
        except Timeout:
            self.complete = False
            self.record(name + ': decided in time', False, 'the time budget of the check was used up')
        except Unsupported as e:
            self.record(name + ': within reach of the verifier', False, 'Unsupported: %s\n%s' % (
                e, ''.join(traceback.format_tb(e.__traceback__)[-6:]) if self.verbose else ''))
        except Exception as e:
            self.record(name + ': verifier ran', False, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
        if self.verbose:
            print('== %s (%.1f s, %d obligations)' % (name, time.time() - t, len(self.obligations) - n0), flush=True)

    # GOALS ARE INDEPENDENT: ONE PROCESS EACH
    # ------------------------------------------------------------------------

    def fork(self, name, fn):
        while len(self.children) >= self.jobs:
            self.collect()
        sys.stdout.flush()
        sys.stderr.flush()
        k = self.goals
        self.goals += 1
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            self.children.append((pid, r, k, name))
            return
        code = 1
        try:
            os.close(r)
            self.jobs = 1
            self.obligations, self.failed, self.functions, self.assumptions = [], [], {}, []
            self.trusted, self.bounded, self.files, self.lemmas = {}, [], set(), 0
            self.solver_s, self.queries = 0.0, 0
            for ip in self.interps:
                ip.sv.stats.solver_s, ip.sv.stats.queries = 0.0, 0
                ip.visited = {}
            self.goal(name, fn)
            for ip in self.interps:
                self.absorb(ip)
            out = {a: getattr(self, a) for a in ('obligations', 'failed', 'functions', 'assumptions', 'trusted', 'bounded',
                                                 'lemmas', 'solver_s', 'queries', 'complete')}
            out['files'] = sorted(self.files)
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)

    def collect(self):
        """Waits for one goal"""
        import select
        ready, _, _ = select.select([c[1] for c in self.children], [], [])
        for c in list(self.children):
            pid, r, k, name = c
            if r in ready:
                with os.fdopen(r) as f:
                    text = f.read()
                os.waitpid(pid, 0)
                self.children.remove(c)
                try:
                    self.results[k] = json.loads(text)
                except ValueError:
                    bad = name + ': verifier ran'
                    self.results[k] = {'obligations': [{'name': bad, 'status': 'failed', 'back_end': 'z3'}],
                                       'failed': [{'name': bad, 'detail': 'the process of this goal ended early'}]}

    def finish(self):
        while self.children:
            self.collect()
        for k in sorted(self.results):
            r = self.results[k]
            self.obligations += r['obligations']
            self.failed += r['failed']
            for f, n in r.get('functions', {}).items():
                self.functions[f] = self.functions.get(f, 0) + n
            for a in r.get('assumptions', []):
                self.assume(a)
            self.trusted.update(r.get('trusted', {}))
            self.bounded += [b for b in r.get('bounded', []) if b not in self.bounded]
            self.files.update(r.get('files', []))
            self.lemmas += r.get('lemmas', 0)
            self.solver_s += r.get('solver_s', 0)
            self.queries += r.get('queries', 0)
            self.complete &= r.get('complete', True)
        self.results = {}

    def run(self, ip, st, fn):
        """fn() -> value: outcomes"""
        return ip.explore(st, lambda: [Outcome(RETURN, fn(), ip.st)])

    def equivalent(self, name, ip, code, spec, st=None, observe=None, fields=(), raises=True):
        """code(), spec(): functions run from the same state st.
        observe(value) -> list of (name, value): evaluated in the final state of each side
        fields: list of (schema, field): final content for an arbitrary object, compared
        raises: compare exceptions; a contract that raises nothing makes any exception of the code a failure
        """
        if self.only and not any(o in name for o in self.only):
            return True
        st = st or ip.st
        if ip.sv.check(st.pc)[0] == 'unsat':
            self.record(name + ': precondition satisfiable', False, 'the precondition is contradictory')
            return False
        self.record(name + ': precondition satisfiable', True)

        def side(fn):
            def go():
                v = fn()
                obs = [('result', v)] if observe is None else list(observe(v))
                return [Outcome(RETURN, [(n, ip.freeze(x)) for n, x in obs], ip.st)]

            return ip.explore(st, go)

        outs_c = side(code)
        outs_s = side(spec)
        base = len(st.pc)
        if not outs_c or not outs_s:
            self.record(name + ': reachable', False, 'no path (%d code, %d contract)' % (len(outs_c), len(outs_s)))
            return False
        good = True
        for label, outs in (('code', outs_c), ('contract', outs_s)):
            if len(outs) > 1:
                cover = z_or(*[z_and(*o.st.pc[base:]) for o in outs])
                if ip.facts:
                    cover = z3.simplify(z3.substitute(cover, *[(f, z3.BoolVal(True)) for f in ip.facts.values()]))
                good &= self.record('%s: %s paths cover every input' % (name, label), ip.sv.prove(list(st.pc), cover),
                                    [str(z_and(*o.st.pc[base:]))[:300] for o in outs])
        pairs = 0
        for i, oc in enumerate(outs_c):
            for j, os_ in enumerate(outs_s):
                pc = list(oc.st.pc) + list(os_.st.pc[base:])
                if not ip.sv.feasible(pc, 2000):
                    continue
                several = len(outs_c) > 1 or len(outs_s) > 1
                if several and not self.alike(ip, oc, os_) and ip.sv.prove(pc, z3.BoolVal(False)):
                    continue
                pairs += 1
                tag = '%s [path %d/%d]' % (name, i, j)
                if oc.kind != os_.kind:
                    good &= self.record(tag + ': same kind of outcome', False, 'code: %s, contract: %s, when %s' % (
                        self.show(ip, oc), self.show(ip, os_), self.show_pc(pc[base:])))
                    continue
                if oc.kind == RAISE:
                    a, b = ip.exc_class_in(oc.val, oc.st), ip.exc_class_in(os_.val, os_.st)
                    good &= self.record(tag + ': same exception', a is b or a.qualname == b.qualname, '%s / %s' % (a, b))
                    continue
                for (n1, v1), (n2, v2) in zip(oc.val, os_.val):
                    good &= self.equal('%s: %s' % (tag, n1), ip, pc, v1, v2)
                if len(oc.val) != len(os_.val):
                    good &= self.record(tag + ': observables', False, 'different observables')
                for schema, field in fields:
                    r = Sym(TRef(schema), z3.Const('anyref!%d' % fresh_id(), RefSort))
                    f1 = self.field_value(ip, r, schema, field, oc.st)
                    f2 = self.field_value(ip, r, schema, field, os_.st)
                    good &= self.equal('%s: %s.%s of any object' % (tag, schema.name, field), ip, pc, f1, f2)
        self.record(name + ': some outcome compared', pairs > 0, 'no feasible pair')
        return good

    @staticmethod
    def alike(ip, oc, os_):
        """Outcomes that are equal syntactically: no need to prove that they cannot meet"""
        if oc.kind != os_.kind:
            return False
        if oc.kind == RAISE:
            return ip.exc_class_in(oc.val, oc.st).qualname == ip.exc_class_in(os_.val, os_.st).qualname
        return len(oc.val) == len(os_.val) and all(same(v1, v2) for (_, v1), (_, v2) in zip(oc.val, os_.val))

    def field_value(self, ip, r, schema, field, st):
        saved = ip.st
        ip.st = st.fork()
        saved_trace = ip.trace
        try:
            v = ip.read_field(r, field)
            if isinstance(v, FieldList):
                return SeqVal(ip.field_seq(v, st))
            return ip.freeze(v)
        finally:
            ip.st = saved
            ip.trace = saved_trace

    def equal(self, name, ip, pc, a, b):
        ip.th.failures.clear()
        ok = ip.th.val_eq(list(pc), a, b)
        detail = '' if ok else ip.th.failure_text() + '\ncode: %s\ncontract: %s\nwhen: %s' % (
            str(a)[:1500], str(b)[:1500], self.show_pc(pc))
        if not ok:
            detail += self.model(ip, pc, a, b)
        return self.record(name, ok, detail)

    def model(self, ip, pc, a, b):
        e = ip.th.eq_term(a, b)
        if e is None:
            return ''
        r, m = ip.sv.check(list(pc) + [z_not(zb(e))], 3000, deep=True)
        return '\nsolver: %s %s' % (r, str(m)[:1500] if m is not None else '')

    def show_pc(self, pc):
        return str([z3.simplify(zb(c)) for c in pc])[:1500]

    def show(self, ip, o):
        if o.kind == RAISE:
            return 'raises %s' % ip.exc_class_in(o.val, o.st).name
        return 'returns %s' % str(o.val)[:300]

    def holds(self, name, ip, formula, pc=None):
        if self.only and not any(o in name for o in self.only):
            return True
        self.lemmas += 1
        pc = list(ip.st.pc if pc is None else pc)
        if ip.sv.check(pc)[0] == 'unsat':
            return self.record(name, False, 'contradictory hypotheses')
        return self.record(name, ip.sv.prove(pc, formula), 'not proved: %s' % str(formula)[:800])

    def report(self):
        return {'obligations': self.obligations, 'failed': self.failed,
                'functions': sorted(self.functions), 'assumptions': self.assumptions,
                'trusted': ['%s: %s' % (k, v) for k, v in sorted(self.trusted.items())],
                'bounded': self.bounded, 'back_ends': {'z3': z3.get_version_string()},
                'solver_s': round(self.solver_s, 2), 'queries': self.queries,
                'files': sorted(self.files), 'wall_s': round(time.time() - self.t0, 2), 'complete': self.complete}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cid')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 1)
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('proofs.' + a.cid.lower())
    p = Prover(a.cid, a.tier, 1400 if a.tier == 'thorough' else 370)
    p.only = a.only
    p.verbose = a.v
    p.jobs = a.jobs
    try:
        mod.prove(p)
        p.finish()
    except Timeout:
        p.complete = False
        p.record('decided in time', False, 'the time budget of the check was used up')
    except Unsupported as e:
        p.record('sources within reach of the verifier', False, 'Unsupported: %s' % e)
    except Exception as e:
        p.record('verifier ran', False, '%s\n%s' % (e, traceback.format_exc()[-2500:]))
    rep = p.report()
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(rep, f, indent=1)
    print('%s: %d obligations, %d failed, %.1f s (solver %.1f s, %d queries)' % (
        a.cid, len(rep['obligations']), len(rep['failed']), rep['wall_s'], rep['solver_s'], rep['queries']))
    return 1 if rep['failed'] else 0


if __name__ == '__main__':
    sys.exit(main())
