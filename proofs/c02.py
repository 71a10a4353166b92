"""C02: documents of the pipeline."""
import z3

from pyvc.core import *
from pyvc.core import _len
from pyvc.values import *

NOTE = '''Proved for every list of texts, every sentencizer, parser and number of cores, with and without GPU: the documents hold, text
by text and in order, the tuples of the retained sentences (the sentences of a text that are kept or split again are those of the
contract; the tuples of one sentence are those of the eight steps applied in the documented order, each step being any function of
its arguments and of the state of the nodes); the tuples of a document are those of its sentences in order. Used as contracts:
parallel map (C01, proved), parser sentence by sentence (C04), itertools.groupby.'''

STEPS = {'nodify': 'syntax.nodifier.Nodifier', 'standardize': 'normalization.standardizer.Standardizer',
         'lemmatize': 'normalization.lemmatizer.Lemmatizer', 'fix': 'syntax.fixer.Fixer', 'chunk': 'syntax.chunker.Chunker',
         'canonicalize': 'normalization.canonicalizer.Canonicalizer', 'find_arg': 'syntax.arg_finder.ArgFinder',
         'extract': 'semantics.semantic_tuple_extractor.SemanticTupleExtractor'}


class World:
    """The steps of the logic pipeline as opaque functions of their arguments and of the state of the nodes (one opaque value,
    replaced by each step that may change the nodes)
    """

    def __init__(self, ip):
        self.ip = ip
        self.wty = TRef(Schema('World', {}))
        self.tag = ip.loader.get('scrappybara.syntax.tags.Tag')
        self.suffix = ip.loader.get('scrappybara.normalization.suffixes.Suffix')
        self.node = Schema('SentNode', {})
        self.node.get, self.node.set = self.get, self.set
        self.types = {'standard': TStr, 'lemma': TStr, 'tag': TEnum(self.tag), 'suffix': TOpt(TEnum(self.suffix))}
        self.tree = TRef(Schema('SentTree', {}))
        self.stuple = TRef(Schema('STuple', {}))
        cls = ClassVal('World', [], {}, None, 'World')
        self.ghost = ip.alloc(InstObj(cls, {'state': ip.th.mk(self.wty, 'world0')}))

    def state(self):
        return self.ip.force(self.ip.getattr(self.ghost, 'state'))

    def terms(self, args):
        return [t for a in args for t in self.ip.flat_terms(self.ip.force(a))]

    def move(self, name, args, start=False):
        s = [] if start else [self.state().t]
        self.ip.setattr(self.ghost, 'state', self.ip.th.mk(self.wty, 'after_' + name, s + self.terms(args)))

    def value(self, ty, name, args):
        return self.ip.th.mk(ty, name, [self.state().t] + self.terms(args))

    def get(self, ip, obj, name):
        if name not in self.types:
            raise Unsupported('attribute %s of a node' % name)
        return self.value(self.types[name], 'get_' + name, [obj])

    def set(self, ip, obj, name, v):
        self.move('set_' + name, [obj, v])

    def step(self, name):
        """The object that stands for a step"""
        th = self.ip.th

        def nodify(ip, obj, args, kw):
            tokens, tags, tree = args
            self.move('nodify', args, start=True)
            return (th.mk(TMap(TInt, TRef(self.node)), 'nodify_dict', self.terms(args)),
                    th.mk(self.tree, 'nodify_tree', self.terms(args)))

        def standardize(ip, obj, args, kw):
            return th.mk(TStr, 'standardize', self.terms(args))

        def lemmatize(ip, obj, args, kw):
            return th.mk(TTuple(TStr, TOpt(TEnum(self.suffix))), 'lemmatize', self.terms(args))

        def change(ip, obj, args, kw):
            self.move(name, args)
            return None

        def extract(ip, obj, args, kw):
            return self.value(TList(self.stuple), 'extract', args)

        fn = {'nodify': nodify, 'standardize': standardize, 'lemmatize': lemmatize, 'extract': extract}.get(name, change)
        sch = Schema('Step_' + name, {}, None, {'__call__': fn})
        return Sym(TRef(sch), z3.Const('step_' + name, RefSort))


def prove(p):
    ip = p.interp()
    get = ip.loader.get
    world = World(ip)
    steps = {k: world.step(k) for k in STEPS}
    for k, q in STEPS.items():
        ip.contracts['scrappybara.' + q] = lambda ip, args, kw, k=k: steps[k]
    tree_in = TRef(Schema('IdxTree', {}))
    tags_of, tree_of = OpaqueFn('tags', TList(TEnum(world.tag))), OpaqueFn('tree', tree_in)
    text = TStr
    sentencize = OpaqueFn('sentencize', TList(TList(TStr)))
    texts = ip.th.mk(TList(text), 'texts')
    nb, size = ip.th.mk(TInt, 'nb_cores'), ip.th.mk(TInt, 'batch_size')
    chunk = ip.th.mk(TBool, 'chunk_common_nouns')
    lm = Sym(TRef(Schema('LM', {})), z3.Const('lm', RefSort))
    ip.contracts['scrappybara.langmodel.language_model.LanguageModel'] = lambda ip, args, kw: lm
    ip.contracts['scrappybara.preprocessing.sentencizer.Sentencizer'] = lambda ip, args, kw: sentencize
    ip.contracts['scrappybara.utils.files.load_dict_from_txt_file'] = \
        lambda ip, args, kw: ip.th.mk(TMap(TStr, TStr), 'file', [t for a in args for t in ip.flat_terms(a)])
    ip.contracts['scrappybara.utils.files.load_set_from_txt_file'] = \
        lambda ip, args, kw: ip.th.mk(TSet(TStr), 'fileset', [t for a in args for t in ip.flat_terms(a)])

    def parse(ip, obj, args, kw):
        return ip.call(get('specs.pipeline.parsed'), [args[0], tags_of, tree_of], {})

    parser = Sym(TRef(Schema('Parser', {}, None, {'__call__': parse})), z3.Const('parser', RefSort))
    ip.contracts['scrappybara.syntax.parser.Parser'] = lambda ip, args, kw: parser
    ip.ext['multiprocessing.cpu_count'] = lambda ip, args, kw: nb
    ip.ext['tensorflow.device'] = lambda ip, args, kw: None
    for m in ('scrappybara.pipeline.pipeline', 'specs.pipeline', 'specs.library', 'specs.parallel'):
        ip.loader.load(m)
    st = ip.st.fork()
    st.pc.append(nb.t >= 1)
    steps_cls = ClassVal('Steps', [], {}, None, 'Steps')
    nodes_ty = TRef(Schema('NodeDict', {}))
    pack_ty = [TList(TStr), TList(TEnum(world.tag)), tree_in, TBool]
    proved = {}

    def logic(args):
        return ip.th.mk(TList(world.stuple), 'sentence_tuples', [t for a in args for t in ip.flat_terms(ip.force(a))])

    def aside(fn):
        """Obligations about a function met on the way, for any argument"""
        saved, trace, pos, alts, nf, stack = ip.st, ip.trace, ip.pos, ip.alts, ip.nofork, ip.call_stack
        contracts = dict(ip.contracts)
        ip.call_stack = []
        try:
            base = saved.fork()
            base.pc = list(st.pc)
            fn(base)
        finally:
            ip.st, ip.trace, ip.pos, ip.alts, ip.nofork, ip.call_stack = saved, trace, pos, alts, nf, stack
            ip.contracts.clear()
            ip.contracts.update(contracts)

    def split_of(process):
        """The step that takes all sentences of a text keeps those of the contract"""
        q = process.func.qualname
        if q not in proved:
            proved[q] = True
            lists = ip.th.mk(TList(TList(TStr)), 'token_lists')

            def go(base):
                ip.contracts.pop('specs.pipeline.retained', None)
                p.equivalent('sentences retained', ip, lambda: ip.call(process, [lists], {}),
                             lambda: ip.call(get('specs.pipeline.retained'), [lists], {}), st=base)

            aside(go)
        return OpaqueFn('split', None, handler=lambda ip, args: retained(args[0]))

    def retained(lists):
        return ip.th.mk(TList(TList(TStr)), 'retained', ip.flat_terms(ip.freeze(lists)))

    def logic_of(process):
        """The process of one sentence gives the tuples of the contract"""
        q = process.func.qualname
        if q not in proved:
            proved[q] = True
            pack = tuple(ip.th.mk(t, 'pack%d' % k) for k, t in enumerate(pack_ty))

            def go(base):
                ip.contracts.pop('specs.pipeline.sentence_tuples', None)

                def spec():
                    s = ip.alloc(InstObj(steps_cls, dict(steps)))
                    return ip.call(get('specs.pipeline.sentence_tuples'), list(pack) + [s], {})

                p.equivalent('tuples of one sentence', ip, lambda: ip.call(process, [pack], {})[1], spec, st=base)

            aside(go)
        return OpaqueFn('logic', None, handler=lambda ip, args: (
            ip.th.mk(nodes_ty, 'sentence_nodes', ip.flat_terms(ip.force(args[0]))), logic(ip.force(args[0]))))

    def run_multithreads(ip, args, kw):
        items, process = args[:2]
        process = ip.force(process)
        if isinstance(process, BoundMethod) and process.func.cls is not None:
            name = process.func.cls.qualname
            if name == 'scrappybara.pipeline.pipeline.Pipeline':
                process = split_of(process)
            elif name == 'scrappybara.pipeline.logic_pipeline.LogicPipeline':
                process = logic_of(process)
        return ip.call(get('specs.parallel.parallel_map'), [items, process], {})

    ip.contracts['scrappybara.utils.multithreading.run_multithreads'] = run_multithreads
    ip.contracts['specs.pipeline.retained'] = lambda ip, args, kw: retained(args[0])
    ip.contracts['specs.pipeline.sentence_tuples'] = lambda ip, args, kw: logic(args[:4])

    def documents(gpu):
        pipe = ip.call(get('scrappybara.pipeline.pipeline.Pipeline'), [sentencize, nb, size, gpu], {})
        return ip.call(get('specs.pipeline.view'), [ip.call(pipe, [texts, chunk], {})], {})

    def contract():
        def stuples_of(ip, args):
            return ip.call(get('specs.pipeline.sentence_tuples'),
                           [args[0], ip.call(tags_of, [args[0]], {}), ip.call(tree_of, [args[0]], {}), chunk, None], {})

        return ip.call(get('specs.pipeline.documents'), [texts, sentencize, OpaqueFn('stuples_of', None, handler=stuples_of)], {})

    def pipeline(gpu):
        proved.clear()
        p.equivalent('Pipeline, use_gpu=%s' % gpu, ip, lambda: documents(gpu), contract, st=st)
        p.record('Pipeline, use_gpu=%s: its two helpers were met' % gpu, len(proved) == 2, sorted(proved))

    for gpu in (True, False):
        p.goal('Pipeline, use_gpu=%s' % gpu, lambda gpu=gpu: pipeline(gpu))
    p.goal('Document', lambda: document(p))
    p.absorb(ip)


def document(p):
    ip = p.interp('scrappybara.pipeline.document', 'scrappybara.pipeline.sentence', 'specs.pipeline')
    get = ip.loader.get
    sch = Schema('Sentence', {'stuples': TList(TRef(Schema('STuple', {})))}, get('scrappybara.pipeline.sentence.Sentence'))
    sents = ip.th.mk(TList(TRef(sch)), 'sents')

    def doc():
        d = ip.call(get('scrappybara.pipeline.document.Document'), [], {})
        ip.setattr(d, 'sentences', ip.new_list(sents.seq))
        return d

    p.equivalent('Document: tuples', ip, lambda: ip.getattr(doc(), 'stuples'),
                 lambda: ip.call(get('specs.pipeline.tuples_of'), [sents], {}))
    p.equivalent('Document: iteration', ip, lambda: ip.call(get('specs.pipeline.visit'), [doc()], {}),
                 lambda: ip.call(get('specs.pipeline.stuples_each'), [sents], {}))
    p.equivalent('Document: new', ip,
                 lambda: ip.call(get('specs.pipeline.visit'), [ip.call(get('scrappybara.pipeline.document.Document'), [], {})], {}),
                 lambda: ip.new_list(()))
    p.absorb(ip)
