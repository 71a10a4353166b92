"""C01: parallel helpers."""
import z3

from pyvc.core import *
from pyvc.values import *

NOTE = '''Proved for all inputs: run_multithreads equals the sequential map, in order, for every list, every number of
workers and every function (also one that raises: the call raises), threads being started, joined and read in the order the
code does it (a field of a started thread read before join fails the proof); the parts of divide_list put together are the
list, their number is the one asked for (or the number of items) and their sizes differ from the mean by less than one;
make_batches gives batches of the requested size.'''


def prove(p):
    ip = p.interp('scrappybara.utils.multithreading', 'specs.parallel')
    get = ip.loader.get
    ip.even_marks = True
    ity, oty = TRef(Schema('Item', {})), TRef(Schema('Out', {}))
    items = ip.th.mk(TList(ity), 'items')
    nb = ip.th.mk(TInt, 'nb')
    st = ip.st.fork()
    st.pc.append(nb.t >= 1)
    error = ip.builtins['ValueError']

    def parts():
        return ip.call(get('scrappybara.utils.mutables.divide_list'), [items, nb], {})

    p.goal('divide_list', lambda: p.equivalent(
        'divide_list: the parts put together are the list', ip,
        lambda: ip.call(get('specs.parallel.flatten'), [parts()], {}),
        lambda: items, st=st))
    n = Sym(TInt, ip.th.seq_len(items.seq))
    p.goal('divide_list sizes', lambda: p.equivalent(
        'divide_list: number and sizes of the parts', ip,
        lambda: ip.call(get('specs.parallel.balanced'), [parts(), n, nb], {}),
        lambda: True, st=st))
    p.goal('make_batches', lambda: p.equivalent(
        'make_batches', ip,
        lambda: ip.call(get('scrappybara.utils.mutables.make_batches'), [items, nb], {}),
        lambda: ip.call(get('specs.parallel.batches'), [items, nb], {}), st=st))
    p.goal('make_batches put together', lambda: p.equivalent(
        'make_batches: the batches put together are the list', ip,
        lambda: ip.call(get('specs.parallel.flatten'), [ip.call(get('scrappybara.utils.mutables.make_batches'), [items, nb], {})], {}),
        lambda: items, st=st))
    for case, proc in (('function that never fails', OpaqueFn('process', oty)),
                       ('function that may fail', OpaqueFn('process', oty, raises=error))):
        p.goal('run_multithreads, ' + case, lambda proc=proc, case=case: p.equivalent(
            'run_multithreads, ' + case, ip,
            lambda: ip.call(get('scrappybara.utils.multithreading.run_multithreads'), [items, proc, nb], {}),
            lambda: ip.call(get('specs.parallel.parallel_map'), [items, proc], {}), st=st))
    p.absorb(ip)
