"""Writes properties.jsonl (kept as a script so the long texts stay readable)"""
import json

P = []


def prop(id_, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id_, len(title))
    P.append(dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


prop('C01', 'Parallel map equals the sequential map, in order, one output per item',
     'Running a function over a list of items with any number of workers returns exactly the list obtained by applying '
     'the function to each item in order: same length, same order, no item lost, repeated or mixed up, whatever the '
     'number of workers is compared with the number of items. If the function fails on an item, the whole call fails '
     'instead of returning fewer results. Splitting a list into parts or batches keeps every item exactly once, in '
     'order, in parts of balanced size (batches: of the requested size, except the last).',
     ['inputs', 'schedules', 'configurations'],
     'every list, every function (including ones that raise), every worker count >= 1, every batch size >= 1, every '
     'interleaving of the workers',
     'No test calls these helpers directly; the smoother tests use one worker only.',
     ['scrappybara/utils/multithreading.py', 'scrappybara/utils/mutables.py'],
     [('contiguous split by linspace marks', 'utils/mutables.py: divide_list'),
      ('start all, then join and concatenate in worker order', 'utils/multithreading.py: run_multithreads')])

prop('C02', 'One document per text, in order, holding exactly that text\'s sentences',
     'The pipeline returns one document per input text, in input order, and each document holds one sentence per '
     'retained sentence of that text, in order, each with exactly the semantic tuples extracted from that sentence; '
     'the result does not depend on the batch size, the number of cores or the other texts of the call. A sentence of '
     'more than 50 tokens is split again at the splitting punctuation (which is dropped), pieces that are still too '
     'long are dropped, and every other sentence is kept unchanged. A document\'s tuples are those of its sentences, '
     'concatenated in order.',
     ['inputs', 'configurations'],
     'every list of texts, every sentencizer, every number of cores, batch size and chunking option',
     'The pipeline tests need model files that are not shipped, so none of this code is executed by the passing tests.',
     ['scrappybara/pipeline/pipeline.py', 'scrappybara/pipeline/logic_pipeline.py', 'scrappybara/pipeline/document.py',
      'scrappybara/pipeline/sentence.py'],
     [('running totals remember the text/sentence association', 'pipeline/pipeline.py: Pipeline.__call__'),
      ('re-splitting of long sentences', 'pipeline/pipeline.py: Pipeline.__split_tokens'),
      ('order of the per-sentence steps', 'pipeline/logic_pipeline.py: LogicPipeline.__logic_process')])

prop('C03', 'Vectors fed to the models encode the sentence exactly and never overflow',
     'A sentence of at most 50 tokens is encoded with its start and end markers into arrays of fixed shape: row i holds '
     'the character codes of token i (word delimiters included, only the last 20 characters of a longer token, unknown '
     'characters mapped to one reserved code) and its word vector (looked up in lower case, zeros when unknown), and '
     'every other cell is zero. A longer sentence is rejected with the dedicated error. Position masks are true '
     'at exactly the requested position and training samples line up tags, dependencies and masks with the token rows.',
     ['inputs'],
     'every list of tokens, every token length, every character set and word table, every pair of positions',
     'No passing test looks at a produced array.',
     ['scrappybara/syntax/training_samples.py', 'scrappybara/syntax/charset.py', 'scrappybara/syntax/wordset.py'],
     [('padding and truncation', 'syntax/training_samples.py: vectorize_sentence'),
      ('fallbacks for unknown keys', 'syntax/charset.py, syntax/wordset.py: __getitem__'),
      ('one-hot masks', 'syntax/training_samples.py: make_masks')])

prop('C04', 'Parsing yields, for any predictions, one tag per token and well-formed arcs',
     'Whatever the models predict, parsing terminates without error and returns for each sentence, in order, exactly '
     'one tag per token (the predicted one for that token) and a tree, or no tree when no arc was built. Every arc '
     'links two different tokens of the sentence whose predicted label is not "no dependency", carries the label '
     'predicted for its dependent (a predicted root used as a dependent becomes a split), and arcs follow the predicted '
     'transitions of the arc-eager system in order. Results do not depend on the batch size, the number of processes or '
     'the other sentences of the call; the stand-alone tagger returns the same tags.',
     ['inputs', 'histories', 'configurations'],
     'every list of sentences, every predicted tag, label and transition sequence, every batch size and worker count',
     'The models are not shipped: no passing test runs the parser or the tagger.',
     ['scrappybara/syntax/parser.py', 'scrappybara/syntax/tagger.py', 'scrappybara/syntax/models.py'],
     [('transition system over stack and buffer', 'syntax/parser.py: _Parse'),
      ('batching loop until every parse is complete', 'syntax/parser.py: Parser.__call__'),
      ('decoding of predicted codes', 'syntax/models.py: predict, syntax/tagger.py: Tagger.tag')])

prop('C05', 'Labelled sentences give back their tree and the transitions that rebuild it',
     'A labelled sentence that has a root exposes exactly the given tokens, tags and labels and a tree with exactly one '
     'arc per token that has a parent, rooted at the first root token; a sentence without root is empty and has no '
     'tree. Its deduced transitions follow the arc-eager oracle step by step, never fail, and for a projective single-rooted sentence replaying them '
     'rebuilds exactly its arcs. The training sets extracted from labelled sentences contain one sample per sentence '
     '(or per transition), each aligned with its own sentence.',
     ['inputs'],
     'every list of labelled tokens, in particular every projective tree shape',
     'The tests pin the transition list of a handful of sentences.',
     ['scrappybara/syntax/labelled_data.py', 'scrappybara/syntax/transitions.py'],
     [('oracle rules in priority order', 'syntax/labelled_data.py: LabelledSentence.transitions'),
      ('sample extraction', 'syntax/labelled_data.py: extract_*_training_data')])

prop('C06', 'Tree queries all describe the same registered arcs',
     'After any sequence of registrations, every query (parent, children, by label, first child, presence by label or '
     'set of labels, siblings, ancestors, descendants, nodes, arcs, size, membership) answers exactly what the list of '
     'registered arcs says, children in order of registration grouped by label. Registering a node as its own child is '
     'refused and changes nothing. Queries never change the tree and never fail for unknown nodes or labels.',
     ['inputs', 'histories'],
     'every acyclic sequence of registrations in which a node gets one parent, every node and label queried',
     'The tree is only exercised indirectly through a few labelled sentences.',
     ['scrappybara/utils/tree.py', 'scrappybara/utils/mutables.py'],
     [('children and parent maps updated together', 'utils/tree.py: Tree.register_child'),
      ('missing keys mean no relation', 'utils/tree.py: queries')])

prop('C07', 'N-gram extraction and counting cover every valid window exactly once',
     'For every order, the extracted n-grams are exactly the windows of that many consecutive tokens inside one '
     'sentence, left to right, in which every token is made of ASCII letters only and does not start with an uppercase '
     'letter ("I" being allowed), joined by single spaces and lower-cased. After adding any sequence of n-grams, the '
     'store holds one entry per distinct text, in order of first occurrence, whose count is its number of occurrences, '
     'and adding returns that same entry.',
     ['inputs', 'histories'],
     'every list of token lists, every order >= 1, every sequence of additions',
     'Only reached by builder tests that need data files; no passing test checks a window or a count.',
     ['scrappybara/langmodel/ngrams_extraction.py', 'scrappybara/langmodel/ngram_store.py',
      'scrappybara/langmodel/ngram.py', 'scrappybara/utils/text.py'],
     [('sliding window and token filter', 'langmodel/ngrams_extraction.py: extract_ngrams'),
      ('count on repeat, insert on first', 'langmodel/ngram_store.py: NgramStore.make_ngram')])

prop('C08', 'Smoothed probabilities follow their formulas for any number of processes',
     'Maximum-likelihood smoothing gives every n-gram its count divided by the total count of its order, so each order '
     'sums to one. Modified Kneser-Ney smoothing gives every n-gram the value of the interpolated formula, with '
     'discounts computed from the counts of counts of each order and continuation counts for lower orders, and refuses '
     'data in which an order above one has no n-gram of count one, two, three or four. The probability of each n-gram '
     'is the same for every number of processes, and log-probabilities match probabilities.',
     ['inputs', 'configurations'],
     'every collection of n-grams with counts (for Kneser-Ney: which contains the sub-grams of its n-grams, as any '
     'counted corpus does), every maximum order, every number of processes (also more processes than n-grams)',
     'One small corpus with a single process is pinned by the tests.',
     ['scrappybara/langmodel/mle_smoother.py', 'scrappybara/langmodel/mkn_smoother.py',
      'scrappybara/langmodel/smoother.py', 'scrappybara/langmodel/ngram.py'],
     [('slices of each order computed separately then concatenated', 'langmodel/smoother.py'),
      ('count tables and recursion over orders', 'langmodel/mkn_smoother.py'),
      ('count / total', 'langmodel/mle_smoother.py')])

prop('C09', 'Language model lookups agree with the loaded n-gram files',
     'After loading, the model contains exactly the n-grams of the requested orders whose count reaches that order\'s '
     'minimum, and presence, size and count tests agree with the files. The best n-gram is the first one of highest '
     'probability among the arguments, the best token the one whose contexts are most probable from the highest order '
     'down, and both are nothing when no argument is known. Top n-grams and next words are exactly the matching entries '
     'by decreasing probability (ties in any order), cut at the limit, the next words being those of the longest known '
     'context.',
     ['inputs', 'configurations'],
     'every n-gram file content, minimum counts, arguments, contexts and limits',
     'The tests need data files that are not shipped and fail; only context windows of one phrase are tested.',
     ['scrappybara/langmodel/language_model.py', 'scrappybara/langmodel/token_context.py'],
     [('details and next-token tables', 'langmodel/language_model.py: LanguageModel.__init__'),
      ('maximum by log-probability', 'langmodel/language_model.py: best_ngram, best_token'),
      ('context windows', 'langmodel/token_context.py: TokenContext.candidates')])

prop('C10', 'Tokenization keeps every visible character, in order, and leaks no marker',
     'Joining the tokens of any text gives back the text with its white space removed, up to the documented character '
     'normalisations (curly quotes, dashes, feet and inches, repeated stars), whatever abbreviations, URLs, smileys or '
     'comparison signs it contains. Tokens are never empty and contain no white space (except for an empty input), and '
     'none of the internal placeholders ever appears in a token. URLs and other protected texts come out as single '
     'unbroken tokens.',
     ['inputs'],
     'every text that does not itself contain an internal placeholder or a part of one',
     'About forty example strings are pinned; the rules interact on every other combination of symbols.',
     ['scrappybara/preprocessing/tokenizer.py', 'scrappybara/preprocessing/sanitization.py'],
     [('each substitution rule only inserts or removes blanks', 'preprocessing/tokenizer.py: Tokenizer.__call__'),
      ('protected texts replaced by keys then restored', 'preprocessing/tokenizer.py: Tokenizer.__protect_text')])

prop('C11', 'Sentencization keeps all tokens, splits only at sentence ends',
     'Concatenating the sentences of any text gives the tokens of its lines in order, quoted and bracketed passages '
     'included in place between their delimiters. A sentence boundary occurs exactly after a sentence-ending token (or '
     'a closing quote preceded by a dot) that lies outside quotes and brackets, and at every line break. No passage, '
     'however many of them or however nested a quote is in a bracket, is lost, swapped or exposed as an internal '
     'placeholder.',
     ['inputs'],
     'every text without the internal block marks, every tokenizer, any number of quoted and bracketed passages',
     'A single passing test exercises the sentencizer.',
     ['scrappybara/preprocessing/sentencizer.py'],
     [('passages replaced by numbered blocks then re-inserted', 'preprocessing/sentencizer.py: __find_blocks'),
      ('split at enders', 'preprocessing/sentencizer.py: __split_sentences')])

prop('C12', 'Lemmatization follows the ordered rules for every word and tag',
     'For every word and tag, the lemma and suffix are those of the first applicable rule: fixed forms, then irregular '
     'forms of that tag (also after a recognised prefix), then the ending rules of that tag in order, whose candidate '
     'lemmas are arbitrated by the language model (also after removing a prefix). When the language model knows no '
     'candidate, the lower-cased word is returned unchanged with no suffix. It never fails on a non-empty word, and '
     'tags without rules leave the word unchanged.',
     ['inputs', 'configurations'],
     'every non-empty word, every tag, every language model and every table of irregular forms',
     'The tests need data files that are not shipped and fail; each rule has preconditions on word length and '
     'letters that examples cannot cover.',
     ['scrappybara/normalization/lemmatizer.py', 'scrappybara/utils/text.py'],
     [('ordered rules', 'normalization/lemmatizer.py: Lemmatizer.__call__'),
      ('arbitration', 'normalization/lemmatizer.py: __best_candidate'),
      ('word slicing helpers', 'utils/text.py')])

prop('C13', 'Spelling standardization and past participles obey the language model',
     'A token the language model has seen at least five times is left unchanged; otherwise it is rewritten only when '
     'one of the known spelling alternations applies and the language model knows a variant, in which case the most '
     'probable variant is used with the token\'s own ending kept. Otherwise it is unchanged. A past participle '
     'is the irregular one when listed, else built by the ending rules, doubling the final consonant only if the '
     'language model prefers it.',
     ['inputs', 'configurations'],
     'every token or lemma, every language model, every table of irregular participles',
     'The tests need data files that are not shipped and fail.',
     ['scrappybara/normalization/standardizer.py', 'scrappybara/normalization/inflector.py'],
     [('ordered alternations', 'normalization/standardizer.py: Standardizer.__call__'),
      ('ordered ending rules', 'normalization/inflector.py: Inflector.past_participle')])

prop('C14', 'Nodes regroup tokens faithfully: flats, particles, chunks, fixes, canons',
     'Every content token of a parsed sentence ends up in exactly one node of the node tree: flat sequences become one '
     'node with their tokens joined in order, particles are attached to their head in order, and functional or '
     'unattached tokens yield no content node, while arcs between nodes are kept. Tag fixes, noun chunks and canonical '
     'forms are then derived exactly by their rules from the node, its position in the tree, its tag and lemma. A '
     'sentence without tree yields no node and a single-token tree yields one node.',
     ['inputs'],
     'every sentence, tagging and dependency tree; every noun and adjective lists',
     'The logic-pipeline tests need data files that are not shipped and fail.',
     ['scrappybara/syntax/nodifier.py', 'scrappybara/syntax/fixer.py', 'scrappybara/syntax/chunker.py',
      'scrappybara/normalization/canonicalizer.py', 'scrappybara/syntax/node.py'],
     [('flattening and particle collection', 'syntax/nodifier.py: Nodifier.__call__'),
      ('tag repair', 'syntax/fixer.py'), ('compound nouns', 'syntax/chunker.py'),
      ('canonical forms', 'normalization/canonicalizer.py')])

prop('C15', 'Arguments registered on nodes are exactly those implied by the tree',
     'After argument finding, each node\'s conjuncts, subjects, objects, indirect objects, properties, existences, '
     'adjectives, agents and polarity are exactly those implied by the tree and the tags: a dependent is distributed '
     'over its conjuncts and over the coordinated verbs that lack their own, relative and reflexive pronouns are '
     'replaced by their referents, and long-distance subjects and objects are added. Nothing else about the nodes or '
     'the tree changes and it never fails, even when conjuncts share dependents.',
     ['inputs'],
     'every set of nodes and every tree over them',
     'The logic-pipeline tests need data files that are not shipped and fail.',
     ['scrappybara/syntax/arg_finder.py', 'scrappybara/syntax/node.py'],
     [('registration per dependency', 'syntax/arg_finder.py: ArgFinder.__call__'),
      ('pronoun resolution', 'syntax/arg_finder.py: __resolve_*')])

prop('C16', 'Extracted tuples have exactly the arguments, codes and polarity of the nodes',
     'From any registered nodes, the extractor produces exactly the tuples of its rules, in order: clauses, transitive, '
     'intransitive, recipient, property and passive forms, with one tuple per combination of eligible arguments, the '
     'argument codes given by the tags, and a negation exactly when an odd number of the involved words is negated. '
     'Verbs used as clause objects are not reused in the second round, and verbs with properties or existences are '
     'never treated as transitive. A tuple\'s code, length, arguments and textual form always agree with its '
     'arguments.',
     ['inputs'],
     'every set of nodes with any registered arguments, tags and polarities',
     'The logic-pipeline tests need data files that are not shipped and fail.',
     ['scrappybara/semantics/semantic_tuple_extractor.py', 'scrappybara/semantics/semantic_tuple.py',
      'scrappybara/semantics/argument.py', 'scrappybara/utils/maths.py'],
     [('three rounds of extraction', 'semantics/semantic_tuple_extractor.py: __call__'),
      ('polarity by parity', 'utils/maths.py: xnor'),
      ('representation', 'semantics/semantic_tuple.py, semantics/argument.py')])

prop('C17', 'Building a language model writes what loading it back reads',
     'Building from any sequence of texts counts the n-grams of every text exactly once, whatever the number of '
     'processes and of texts, writes one file per order holding exactly the n-grams of positive probability with their '
     'count and probability by decreasing probability, and loading these files gives back the same n-grams, counts and '
     'probabilities. An unknown smoothing method, or Kneser-Ney smoothing with a maximum order below two, is refused '
     'before anything is written.',
     ['inputs', 'configurations', 'histories'],
     'every sequence of texts, maximum order, smoothing method and number of processes',
     'The only passing builder test checks one invalid argument.',
     ['scrappybara/langmodel/language_model_builder.py', 'scrappybara/langmodel/language_model.py',
      'scrappybara/utils/files.py'],
     [('batches of texts drained from the iterator', 'langmodel/language_model_builder.py: __call__'),
      ('line format shared by writer and reader', 'langmodel/language_model_builder.py: __write_ngram_file')])

with open('/verif/properties.jsonl', 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
