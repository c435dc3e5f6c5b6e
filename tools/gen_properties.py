#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Nearest-neighbour search returns exactly the k most similar words",
  "For any set of equally-sized word vectors, any query vector, any k and any words to ignore, a search returns min(k, number of non-ignored words whose cosine similarity to the query is positive) neighbours, none of them blank, and none for k <= 0. They are ordered by non-increasing similarity with ranks 1, 2, 3, ..., each carries the true cosine similarity of its word, and no omitted word is more similar than a returned one.",
  ["inputs"], "every embedding set (ties, zero vectors, duplicates, opposite vectors included), query, k and ignore list",
  "Two example tests use k=1 on one fixed 4-word set; they never ask for more words than exist, for k=0, or for a ranking of more than one word.",
  ["pkg/search/search.go", "pkg/search/searchutil/searchutil.go"],
  [("bounded insertion into a sorted neighbour list", "pkg/search/search.go Searcher.Search"), ("trim to available neighbours", "pkg/search/search.go Searcher.Search")],
  [("neighbors", "current best k, sorted", "Searcher.Search")], ["Searcher.Search return value"])
p("C02", "Queries by word and by vector agree with the general search",
  "Searching by a word gives the same ranking as searching with the vector of the first item carrying that word while excluding every item that carries it; searching by a raw vector gives the ranking for that vector with nothing excluded. A word that is not in the set is reported as an error with no neighbours.",
  ["inputs"], "every embedding set (including repeated words), query word, query vector and k",
  "Tests call each entry point once on one fixed set with k=1.",
  ["pkg/search/search.go"], [("lookup then Search with the word ignored", "Searcher.SearchInternal"), ("norm computed for the raw vector", "Searcher.SearchVector")],
  (), ["SearchInternal / SearchVector return values"])
p("C03", "Saved word vectors load back as the same words and vectors",
  "Writing any vocabulary with its matrix and loading the text gives the same words in the same order, with the same dimension, each value within half a unit of the sixth decimal (NaN and infinities preserved) and the norm of those values. Every line has the documented form '<word> <value_1> ... <value_N>', whatever the dimension or word length, and a vocabulary whose size differs from the matrix is refused without writing anything.",
  ["inputs"], "every vocabulary of whitespace-free non-empty words (any bytes), every dimension >= 1, every matrix of float64",
  "No test saves anything; Load is tested on one 4-line text, checking only the number of items.",
  ["pkg/model/modelutil/vector/vector.go", "pkg/embedding/embedding.go"],
  [("text formatting", "vector.Save"), ("line parser", "embedding.Load / parseLine")], (), ["bytes written by vector.Save", "embedding.Load result"])
p("C04", "Loading vector text is all-or-error and independent of read chunking",
  "For any byte stream and any way the reader delivers it, loading either fails with an error and returns nothing, or returns exactly one item per line that does not start with a space, in order, holding the line's first whitespace-separated field as word and all the others as numbers. It fails exactly when some such line is not a word followed by at least one parsable number, or the reader fails; it never panics and never drops, merges or truncates lines.",
  ["inputs", "fault_sequences"], "every byte string, every chunking of it by the reader, every reader failure",
  "The tests load one well-formed text from an in-memory reader and ignore the returned error.",
  ["pkg/embedding/embedding.go"], [("line scanner and parser", "embedding.Load / parse / parseLine")], (), ["embedding.Load result"])
p("C05", "Saving reports success only if every byte was accepted by the writer",
  "If the destination refuses, shortens or fails any write while word vectors are saved, saving returns a non-nil error; if saving returns nil, the destination received the complete text. This holds for the generic writer function and for the Save method of every model.",
  ["inputs", "fault_sequences"], "every vocabulary and matrix, every byte offset at which the writer fails or writes short",
  "No test saves anything, let alone to a failing writer.",
  ["pkg/model/modelutil/vector/vector.go", "pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go"],
  [("buffered write and flush", "vector.Save")], (), ["error of Save", "bytes received by the writer"])
p("C06", "The dictionary is an exact word/id/frequency table",
  "After any sequence of additions, the dictionary's size is the number of distinct words added, ids are 0..n-1 in order of first appearance, id and word lookups are inverse to each other, and both frequency lookups give the number of times the word was added. Words never added and ids at or beyond the size report absence or zero frequency. Lookups from several goroutines at once give the same answers.",
  ["histories"], "every sequence of Add calls (any words, any batching) interleaved with lookups",
  "The dictionary package has no tests.",
  ["pkg/corpus/dictionary/dictionary.go"], [("parallel tables", "Dictionary.Add")],
  [("word2id,id2word,cfs,maxid", "the tables", "Dictionary")], ["Len, ID, Word, WordFreq, IDFreq"])
p("C07", "Hierarchical-softmax trees are optimal, complete prefix codes",
  "For any word frequencies, the tree built for hierarchical softmax has one leaf per word carrying that word's frequency, all leaves hang off one common root, every inner node's value is the sum of its two children (one coded 0, one coded 1), and the frequency-weighted code length is the minimum possible. The codes of different words are never prefixes of one another, and every inner node owns a separate zero vector of the requested dimension.",
  ["inputs"], "every vocabulary (including empty and single-word) and frequency distribution, every dimension",
  "No test builds a tree.",
  ["pkg/corpus/dictionary/huffman.go", "pkg/corpus/dictionary/node/node.go"], [("merge loop", "Dictionary.HuffnamTree")],
  [("Parent, Code, Val, Vector", "tree links", "node.Node")], ["HuffnamTree result"])
p("C08", "Tree path lookups are complete, depth-limited and safe to run concurrently",
  "A path lookup for a leaf (or any node of the tree) returns the nodes from the root down to it, cut to the first d nodes when 0 < d < path length and the full path otherwise (depth 0 means the full path, as the max-depth flag documents). The answer is the same whichever lookups came before it, with whatever depths, and whichever lookups run at the same time in other goroutines.",
  ["inputs", "histories", "schedules"], "every tree, leaf, depth, order of lookups and concurrent schedule of lookups",
  "No test looks up a path; training does so from many goroutines at once.",
  ["pkg/corpus/dictionary/node/node.go"], [("lazily cached path", "Node.GetPath")], [("cache", "memoised root-to-leaf path", "node.Node")], ["GetPath result"])
p("C09", "Co-occurrence counts match the window definition in both document modes",
  "After loading a corpus with co-occurrence counting, every unordered pair of words has as its count the number of position pairs (i, j), 0 < j-i <= window, holding these words; with proximity counting each position pair contributes 1/(j-i) instead of 1. The counts are the same whether the document is held in memory or re-read, for any window (0 included), any document length, repeated words and lower-casing, and no other pairs are present.",
  ["inputs", "configurations"], "every token sequence (shorter than the window and empty included), window >= 0, count type, lower-case setting and document mode",
  "One test counts a single pair and one lists forward contexts for one 5-word text with window 2; the two corpus loaders are never run.",
  ["pkg/corpus/cooccurrence/cooccurrence.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/corpus/cpsutil/cpsutil.go"],
  [("position loops", "memory.Corpus.Load"), ("forward-context reader", "cpsutil.ReadWordWithForwardContext"), ("pair counter", "Cooccurrence.Add")],
  [("ma", "encoded pair -> count", "Cooccurrence")], ["Corpus.Cooccurrence().EncodedMatrix()", "callback sequence of ReadWordWithForwardContext"])
p("C10", "In-memory and re-read documents present the same words, in order",
  "For any corpus bytes, however the reader chunks them, both document modes see exactly its whitespace-separated words (lower-cased if asked): same dictionary, same total length, and the same stream of word ids with just the words outside [min-count, max-count] removed. The re-read mode delivers that stream, each time it is asked, as batches of exactly the batch size except the last, in separate buffers, then closes the channel.",
  ["inputs", "configurations"], "every byte string, reader chunking, lower-case setting, frequency limits and batch size",
  "Neither corpus implementation is run by any test; word reading is tested on 'a bc def'.",
  ["pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/corpus/cpsutil/cpsutil.go"],
  [("word scanner", "cpsutil.ReadWord"), ("filters", "cpsutil.Filters, MaxCount, MinCount"), ("batching", "fs.Corpus.BatchWords")],
  [("idoc", "word ids in document order", "memory.Corpus")], ["Dictionary(), Len(), IndexedDoc(), BatchWords()"])
p("C11", "A corpus that cannot be read is reported, never silently truncated or hung",
  "If any read or seek of the corpus fails during loading, batching or training, in whichever pass over the document, the operation terminates and returns a non-nil error; this covers over-long words that cannot be scanned. It never hangs, panics, or reports success on a partially read document.",
  ["fault_sequences", "configurations"], "every corpus, every position of the failing read or seek, every model and document mode",
  "Tests only use readers that never fail.",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/fs/fs.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"],
  [("error propagation of the scanner", "cpsutil.ReadWord, ReadWordWithForwardContext"), ("producer goroutine and channel close", "fs.Corpus.BatchWords, batchTrain")], (), ["error returned by Load, BatchWords, Train"])
p("C12", "Training any corpus with any valid configuration completes and covers it",
  "For every corpus (empty, one-word, all-equal or larger) and every valid combination of model, optimiser, solver and hyper-parameters, with any number of goroutines, training returns without error, panic or deadlock. The model then offers, for either vector type, a matrix with one finite row of the configured dimension per distinct word, and saving it writes these words in order of first appearance with those values.",
  ["inputs", "configurations", "schedules"], "every corpus and valid option combination; goroutine schedules as the runtime produces them",
  "No test trains a model; the e2e program needs a downloaded corpus and fixed options.",
  ["pkg/model/word2vec", "pkg/model/glove", "pkg/model/lexvec", "pkg/corpus", "pkg/model/modelutil"],
  [("training loops and worker goroutines", "Train/train/batchTrain/trainPerThread"), ("snapshot", "WordVector, Save")], (), ["Train, WordVector, Save of model.Model"])
p("C13", "Words outside the frequency limits are left out of training",
  "With min-count m and max-count M, words occurring fewer than m times or (if M > 0) more than M times take no part in training: their own vectors stay at their initial values, and they are no context for other words. Words within the limits do get trained.",
  ["inputs", "configurations"], "every corpus, pair of limits, model, optimiser and document mode",
  "No test trains a model or evaluates a filter.",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go", "pkg/model/glove/glove.go"],
  [("frequency filters", "cpsutil.MaxCount, MinCount"), ("filtered document", "IndexedDoc, BatchWords")], (), ["WordVector before and after training"])
p("C14", "The single type is the word's own vector, the agg type adds its context vector",
  "The 'single' vectors of a model are the words' own vectors and the 'agg' vectors are the sums of the words' own and context vectors; a model without per-word context vectors (hierarchical softmax) gives the same for both. Asking for vectors or saving never changes the model: each answer is an independent copy, and repeated answers, from one or several goroutines at once, are equal.",
  ["inputs", "configurations"], "every model, corpus, dimension and vector type",
  "No test asks a model for its vectors.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/vector/vector.go"],
  [("matrix assembly", "WordVector")], (), ["WordVector, Save"])
p("C15", "Word2vec training applies the skip-gram and CBOW gradient steps",
  "Training moves the vectors exactly as the published update rules say: for each position, window draw, context and sampled negative, skip-gram and CBOW with negative sampling, and with hierarchical softmax along the word's tree path, apply learning rate x (label - sigmoid(inner product)) to both sides, with contexts limited to the window and to the document part being trained. Samples equal to the target are skipped, and so may be tree nodes whose inner product lies beyond the sigmoid table (they do not stop the walk). The window of a position is drawn uniformly from 1 to the configured window, the same to both sides, and every vocabulary word is drawn as a negative sample about equally often.",
  ["inputs", "configurations"], "every small corpus, window, dimension, sample size, iteration count and learning rate; all random choices of window and negatives",
  "No test performs a training step; the sigmoid table test accepts every value.",
  ["pkg/model/word2vec/model.go", "pkg/model/word2vec/optimizer.go", "pkg/model/word2vec/sigmoid_table.go", "pkg/model/word2vec/word2vec.go"],
  [("skipGram/cbow trainOne", "model.go"), ("optim", "optimizer.go"), ("sigmoid table", "sigmoid_table.go")], (), ["WordVector after training relative to the initial vectors"])
p("C16", "GloVe training applies the weighted least-squares gradient steps",
  "In each iteration every co-occurring pair is used exactly once, in both word/context roles, and moves the two vectors and biases by the gradient of weight x (w.c + b + b' - log count)^2 / 2 times the learning rate, where weight is (count/xmax)^alpha below xmax and 1 from xmax on. The adagrad solver divides each coordinate's step by the root of its accumulated squared steps.",
  ["inputs", "configurations"], "every small corpus, window, dimension, count type, xmax, alpha, solver, learning rate and iteration count; every pair order",
  "No test performs a training step or builds the pair list.",
  ["pkg/model/glove/glove.go", "pkg/model/glove/item.go", "pkg/model/glove/solver.go"], [("pair list and weights", "makeItems"), ("solvers", "stochastic/adaGrad trainOne")], (), ["WordVector after training relative to the initial vectors"])
p("C17", "LexVec training factorises the configured association measure",
  "For each trained position, window context and sampled negative, LexVec moves the two vectors by learning rate x (inner product - association), where the association of a pair is its PPMI (never negative), PMI, count or log count as configured, computed from pair counts, word frequencies, corpus length and smoothing exponent, and 0 for pairs that never co-occur. Windows are drawn uniformly from 1 to the configured window, the same to both sides, and every vocabulary word is drawn as a negative sample about equally often.",
  ["inputs", "configurations"], "every small corpus, window, dimension, relation, smoothing, sample size, learning rate and iteration count; all random choices",
  "No test performs a training step or computes an association.",
  ["pkg/model/lexvec/lexvec.go", "pkg/model/lexvec/item.go"], [("association table", "makeItems, calculateRelation"), ("update", "lexvec.trainOne/update")], (), ["WordVector after training relative to the initial vectors"])
p("C18", "The learning rate decays within its configured bounds",
  "During word2vec and LexVec training the learning rate in effect starts at the initial rate, never exceeds it, never drops below the configured minimum, and each time the update batch is reached within a pass becomes the initial rate times the share of the corpus's words not yet processed (or the minimum); between updates, also from one pass to the next, it stays as it is. With the minimum equal to the initial rate it is constant.",
  ["inputs", "configurations"], "every corpus length, initial and minimum rate, update batch and iteration count",
  "No test trains a model.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"], [("rate update", "observe")], [("currentlr", "rate in effect", "word2vec, lexvec")], ["size of the vector movement"])
p("C19", "Parallel training visits every word of the document exactly once per pass",
  "However the document is divided over goroutines or batches, the parts are consecutive, disjoint and cover the document, in-memory parts differ in size by at most one, and each pass trains each position exactly once. On corpora where the parts share no words, the trained vectors therefore equal those of training the parts one after the other.",
  ["inputs", "configurations", "schedules"], "every document length, goroutine count, batch size, iteration count and document mode",
  "No test divides a document or trains in parallel.",
  ["pkg/model/modelutil/modelutil.go", "pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/corpus/fs/fs.go"],
  [("index ranges", "modelutil.IndexPerThread"), ("worker fan-out", "train, batchTrain, trainPerThread")], (), ["IndexPerThread", "trained vectors"])
p("C20", "Every command-line flag and option sets exactly its own setting",
  "For each model, parsing any combination of training flags (long or short form) yields the default options with just the named settings replaced by the given values, the same as applying the corresponding option functions to the defaults. No flags gives exactly the documented defaults, and malformed values are rejected.",
  ["inputs", "configurations"], "every subset and order of flags with any values of their types, for the three models",
  "No test parses flags or applies options.",
  ["pkg/model/word2vec/options.go", "pkg/model/glove/options.go", "pkg/model/lexvec/options.go"], [("flag registration", "LoadForCmd"), ("functional options", "ModelOption constructors"), ("defaults", "DefaultOptions")], (), ["Options value"])
p("C21", "Training commands write a loadable result and never clobber existing files",
  "A training command with valid input exits 0 and leaves at the output path (parent directories created) a file that loads to the corpus's distinct words with the configured dimension and vector type. It refuses, with a non-zero exit, an output path that already exists, leaving that file untouched, and a missing input, creating no output; when training fails (unknown component, unreadable corpus) it exits non-zero and writes no vectors, and when the vectors cannot be written completely it exits non-zero.",
  ["inputs", "configurations"], "every corpus, option set, output location and pre-existing file, for word2vec, glove and lexvec",
  "No test runs a command.",
  ["cmd/model/word2vec/word2vec.go", "cmd/model/glove/glove.go", "cmd/model/lexvec/lexvec.go", "cmd/model/cmdutil/cmdutil.go", "wego.go"], [("execute", "cmd/model/*")], (), ["exit status and files"])
p("C22", "The query command prints the library's ranking for a vector file",
  "For any vector file, word and rank, the query command prints one row per neighbour with the rank, word and similarity that the search library returns for that file, in that order, and exits 0. A missing file, a malformed file, vectors of different lengths, an unknown word, or anything but one word argument makes it exit non-zero without printing neighbours.",
  ["inputs"], "every vector file, query word, rank and argument list",
  "No test runs the command or prints a table.",
  ["cmd/query/query.go", "pkg/search/search.go"], [("execute", "cmd/query/query.go"), ("table output", "Neighbors.Describe")], (), ["stdout and exit status"])
p("C23", "The console answers each + / - expression correctly and survives the others",
  "In a console session, a word (written as an identifier) prints its neighbours, and words joined by + and - (evaluated left to right) print the neighbours of the resulting vector without the words of the expression; the answer does not depend on earlier lines. Unknown words, other operators and unparsable lines print a message and no neighbours and the session goes on; it ends on 'exit' and at the end of the input. All of this holds on a pipe and in a terminal, which is left in the mode it was found in.",
  ["histories", "inputs"], "every sequence of input lines over every vector file and rank",
  "No test evaluates an expression or runs a session.",
  ["pkg/search/console/console.go", "pkg/search/console/op.go", "cmd/query/console/console.go"], [("expression evaluation", "Console.eval*"), ("loop", "Console.Run")], [("cursor", "vector and words of the current expression", "Console")], ["stdout and termination of 'wego console'", "mode of the terminal afterwards"])
p("C24", "Unknown model, optimiser, solver, count, relation or vector types are rejected",
  "Training with a model, optimiser, solver, count or relation type that is not one of the documented names (exactly as spelled) returns an error on any corpus of at least two words, and saving with an unknown vector type returns an error and writes nothing. The documented names are all accepted.",
  ["inputs", "configurations"], "every string outside the documented set, for each selection of each model",
  "One test passes one invalid count type to the counter's constructor.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/item.go", "pkg/corpus/cooccurrence/cooccurrence.go", "pkg/model/modelutil/vector/vector.go"], [("switch defaults", "Train, makeItems"), ("type validation", "co.New, Save")], (), ["errors of Train, Save, co.New"])
p("C25", "Subsampling decisions follow the frequency/threshold law",
  "The subsampling trial for a word that occurs c times succeeds, independently of all other trials, with probability max(0, 1 - sqrt(threshold/c)): always at threshold 0, never when c <= threshold, and otherwise at that rate, from one or several goroutines. In training, exactly the occurrences whose trial succeeds are trained.",
  ["inputs", "configurations"], "every frequency distribution and threshold >= 0; random draws as produced by the seeded generator",
  "No test builds a subsampler.",
  ["pkg/model/modelutil/subsample/subsample.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"], [("probability table", "subsample.New"), ("trial", "Subsampler.Trial")], (), ["Trial outcomes", "trained vectors"])
p("C26", "Cosine similarity and norms obey their defining laws",
  "The norm is the Euclidean length (non-negative, zero only for the zero vector, scaling with the factor's magnitude), and the cosine is the inner product over the norms: symmetric, within [-1, 1] up to rounding, 1 for a vector with itself, sign-flipping under negation, unchanged by positive scaling, and 0 when either norm is zero.",
  ["inputs"], "every pair of equally long finite vectors within the range where squares neither overflow nor underflow",
  "One example each.",
  ["pkg/search/searchutil/searchutil.go", "pkg/embedding/embutil/embutil.go"], [("Cosine", "searchutil.go"), ("Norm", "embutil.go")], (), ["return values"])
p("C27", "Trained vectors make words with shared contexts similar",
  "When a corpus consists of groups of words that only ever occur with words of their own group, training with any of the models and optimisers at ordinary settings makes words of the same group more similar, on average, than words of different groups (in the combined vectors for negative sampling, in the words' own vectors otherwise). The nearest-neighbour search over the saved vectors reflects it.",
  ["inputs", "configurations"], "every grouped corpus from the generator, each model/optimiser/solver/document mode at ordinary settings",
  "No test trains a model; the e2e program only prints neighbours without checking them.",
  ["pkg/model/word2vec", "pkg/model/glove", "pkg/model/lexvec", "pkg/search"], [("training", "Train"), ("search", "Searcher.SearchInternal")], (), ["similarities of the trained vectors"])
p("C28", "Word-pair codes are symmetric and unambiguous",
  "Encoding a pair of word ids (below 2^32) gives the same code in either order, decoding gives back the two ids in ascending order, and different unordered pairs never share a code.",
  ["inputs"], "all pairs of ids below 2^32",
  "One test checks that adding one pair leaves one entry.",
  ["pkg/corpus/cooccurrence/encode/encode.go"], [("bit packing", "EncodeBigram / DecodeBigram")], (), ["return values"])
p("C29", "Matrix rows are initialised once and never overlap",
  "A matrix of r rows and c columns calls its initialiser exactly once per row with that row's slice of length c, keeps what was written, and any sequence of writes through row slices is seen through later slices of the same row and of no other row. Goroutines may work on different rows at the same time.",
  ["histories", "inputs"], "every shape (zero rows or columns included) and sequence of row writes and reads",
  "The matrix package has no tests.",
  ["pkg/model/modelutil/matrix/matrix.go"], [("row-major storage", "Matrix.Slice")], [("array", "backing store", "Matrix")], ["Slice, Row, Col"])
p("C30", "Logging settings never change results",
  "Verbose mode and the log batch size change only what is printed: loading a corpus gives the same dictionary, counts and document, training with a fixed seed and one goroutine gives the same vectors, and saving writes the same bytes, whatever they are set to.",
  ["inputs", "configurations"], "every corpus, model and option set; verbose on/off and every log batch size >= 1",
  "No test runs anything in verbose mode.",
  ["pkg/util/verbose/verbose.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go", "pkg/model/modelutil/vector/vector.go"], [("guarded printing", "verbose.Do")], (), ["vectors, saved bytes"])
p("C31", "Random index draws stay in range and reach every index",
  "Drawing a random index below n always gives a value in [0, n), for every n >= 1 and any number and mixture of earlier draws, and consecutive draws below a small n reach every index about equally often, while draws below a large n spread evenly over the whole range. This is what negative sampling and window shrinking rely on.",
  ["histories", "inputs"], "every sequence of draws with any bounds",
  "The generator has no tests.",
  ["pkg/model/modelutil/modelutil.go"], [("linear congruential generator", "NextRandom")], [("next", "generator state", "modelutil")], ["NextRandom return values"])
p("C32", "Vector collections are validated and looked up faithfully",
  "A collection is accepted for searching exactly if all its vectors have the same dimension; a single item is valid exactly if it has a word, a non-zero dimension and as many values as its dimension says. Finding a word returns the first item carrying it, or absence if none does.",
  ["inputs"], "every collection of items, valid or not, and every word looked up",
  "No test covers validation failures or lookups.",
  ["pkg/embedding/embedding.go", "pkg/search/search.go"], [("Validate, Find, Empty", "embedding.go"), ("New", "search.go")], (), ["return values"])
p("C33", "Searching never changes the searcher and can run concurrently",
  "Any number of searches, in any order or concurrently from several goroutines, leaves the items, the query vector and the ignore list unchanged and gives each caller the same answer as running that search alone.",
  ["histories", "schedules"], "every sequence and concurrent schedule of searches over every embedding set",
  "Tests issue one search per searcher.",
  ["pkg/search/search.go"], [("read-only scan", "Searcher.Search")], (), ["Search results, Items"])
p("C34", "A model can be trained again, and models do not influence each other",
  "In any history of trainings and saves over several model values in one process (the same value trained again on another corpus, trained after a failed training, other models trained in between or at the same time) the vectors of each model are those a fresh model of the same settings, trained from the same random state on the corpus last given to it, would have; nothing done with one model changes the vectors another has.",
  ["histories", "schedules"], "every history of trainings and saves over any number of models of any kind and settings",
  "No test trains a model.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil"], [("set-up per training", "Train")], [("currentlr, corpus, param, mod, optimizer", "state of one training", "word2vec, lexvec, glove")], ["trained vectors, saved bytes"])
p("C35", "Training results depend only on the sequence of words",
  "Two corpora with the same sequence of words, written with any white space, read in any pieces, from a reader standing anywhere, in either document mode (re-read as one batch), and with any number of goroutines that have nothing to do, give the same vectors from the same random state; renaming the words one to one, or writing them in another case when lower-casing is on, only changes the words the vectors are saved under.",
  ["inputs", "configurations"], "every corpus, rewriting of it, model and option set whose result follows from the random state",
  "No test trains a model.",
  ["pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go", "pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/dictionary/dictionary.go", "pkg/model"], [("reading", "ReadWord, Load"), ("training", "Train")], (), ["saved bytes"])
p("C36", "Training that has returned has stopped",
  "When a training returns, with or without an error, its work is over: every goroutine it started comes to an end, the corpus is not read any more, and the model's vectors no longer change.",
  ["histories", "schedules", "faults"], "every corpus, model, option set and failing call on the corpus; any number of trainings in one process",
  "No test trains a model or looks at goroutines.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/corpus/fs/fs.go"], [("waiting for the workers", "train, batchTrain"), ("closing channels", "BatchWords, observe")], [("trained, in, errCh", "channels between the goroutines", "train, batchTrain")], ["runtime.NumGoroutine, calls on the reader, WordVector"])
p("C37", "Only the vectors of a completed training are saved",
  "Saving a model that has not been trained, or whose latest training failed, returns an error and writes nothing (after an earlier completed training it may instead write exactly that training's vectors); it never crashes. After a completed training, saving succeeds and writes the words of that training's corpus, whatever trainings failed before. This holds for every history of trainings (on readable corpora, on corpora a call on which fails at any point, with over-long words, with unknown components) and saves of one model value.",
  ["histories", "faults"], "every model and option set, every history of trainings and saves, every failing call on the corpus",
  "No test trains a model or saves one.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/vector/vector.go"], [("saving", "Save"), ("training", "Train")], [("trained, param, corpus", "state of one training", "word2vec, lexvec, glove")], ["error of Save, bytes written"])
p("C38", "Settings nothing can be trained with are refused; no setting crashes",
  "A model whose numeric settings cannot work is refused with an error, when it is made or when it is trained, in the library and by the commands (with a non-zero exit status and no vectors written): a dimension or number of goroutines below 1, a log batch below 1 in verbose mode, an initial or minimum learning rate that is not a finite number, and, for word2vec and lexvec, a window or learning-rate update batch below 1 and, when the document is not held in memory, a batch below 1. With any other values of the numeric settings (zero, negative, extreme, not a number) a training is either refused in the same way or completes with a vector of the set dimension for every word; none of them crashes or hangs it.",
  ["inputs", "configurations"], "every model and option set with any of its numeric settings replaced by zero, negative or extreme values or values that are no number, as far as they do not ask for more memory or time than there is",
  "No test trains a model or sets unusual options.",
  ["pkg/model/word2vec", "pkg/model/glove", "pkg/model/lexvec", "cmd/model"], [("validation", "NewForOptions"), ("sigmoid table", "sigmoidTable.sigmoid"), ("batches", "BatchWords")], (), ["errors, exit status, saved vectors"])
p("C39", "Progress messages report true counts",
  "In verbose mode every stage ends with a message giving the number of words read, of pairs of positions within the window read (lexvec, glove), of items built (glove: those within the frequency limits), of words or items trained in every pass, and of words saved; on the way a message comes at every multiple of the log batch up to that number, in order within a reading, building or saving stage, and the times they give are those that have passed. A save that fails gives no last message. Without verbose mode nothing is printed.",
  ["inputs", "configurations"], "every corpus, model and option set, every log batch",
  "No test runs anything in verbose mode.",
  ["pkg/util/verbose/verbose.go", "pkg/util/clock/clock.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec", "pkg/model/glove", "pkg/model/modelutil/vector/vector.go"], [("messages", "verbose.Do")], [("cnt, cursor, idx", "counters of a stage", "observe, Load, makeItems")], ["standard output"])
p("C40", "Training starts from small random vectors, different for every word",
  "Before the first pass the own and context vectors of every word (word2vec with hierarchical softmax: own) have components drawn independently and evenly, from -0.5/dimension to 0.5/dimension (word2vec, lexvec) or 0 to 1/dimension (glove); no two words start alike, and with another state of the random source other values are drawn.",
  ["inputs", "configurations"], "every vocabulary size, dimension and model, all draws of the random source",
  "No test looks at the vectors of an untrained model; a law of random draws needs many of them.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/word2vec/optimizer.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go", "pkg/model/modelutil/matrix/matrix.go"], [("param, ctx", "vectors of the model")], [("initialisation", "matrix.New in Train")], ["vectors after a training of no pass"])
p("C41", "A mistaken command line changes nothing, says why and fails",
  "A command line that cannot be understood (no or an unknown sub-command, an unknown flag, a malformed or missing value, a wrong number of words to query) or that names what is not there or cannot be used (a missing input or vector file, malformed vectors, vectors of different lengths, an unknown word, an output that exists) makes wego exit non-zero with a message on standard error and without neighbours, and leaves every file and directory as it was. Asking for help exits 0, names every sub-command or every flag of the command asked about, and runs nothing; query and console change no file either, and without --input read example/word_vectors.txt.",
  ["inputs", "configurations"], "every wrong command line, at every position of the mistake, for all five commands, every directory content",
  "No test runs the command.",
  ["wego.go", "cmd/model", "cmd/query"], [("execute", "command bodies")], (), ["exit status", "standard error", "the directory before and after"])
p("C42", "A document is held in memory if, and only if, that is asked for",
  "With in-memory off, the memory a training takes does not grow with the length of the document: beside the dictionary, the counts and the vectors there are only a few batches per goroutine at any time, however much faster the document can be read than trained. With in-memory on, the document is read once from beginning to end, and never again however many passes are trained.",
  ["inputs", "configurations", "schedules"], "every document length, batch size, number of goroutines and model, every speed of the reader",
  "No test trains a model; growth shows only on documents larger than any test would hold.",
  ["pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/corpus/options.go"], [("in", "channel of batches"), ("idoc", "document held in memory")], [("batches", "BatchWords, batchTrain")], ["live heap and stacks at points of each pass", "bytes read"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
