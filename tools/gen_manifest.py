#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing against a brute-force ranking (exact arithmetic on integer grids)", "Random vector sets, queries, k and ignore lists; validity predicate over the answer, ties in any order. Sampling, no proof."),
 "C02": ("property-based testing, differential between the three search entry points", "Random sets with repeated and unknown words; trusts the brute-force ranking of C01."),
 "C03": ("property-based round-trip testing", "Random vocabularies and matrices (NaN, infinities, huge lines); words are non-empty and free of white space."),
 "C04": ("structured fuzzing against a reference parser, metamorphic over read chunkings", "Random bytes and mutated vector text delivered in random pieces with injected read failures."),
 "C05": ("fault-injecting property-based testing of writers", "Every write call and byte offset of small saves is failed, shortened or refused; larger saves by sampling."),
 "C06": ("stateful model-based testing against a map", "Random operation sequences; ids below zero are outside the domain."),
 "C07": ("property-based testing against an independent Huffman cost", "Random frequency tables; optimal cost by a reference algorithm."),
 "C08": ("stateful and concurrent property-based testing with the race detector", "Random lookup histories, sequential and from several goroutines; interleavings are whatever the scheduler gives, races are reported by the detector."),
 "C09": ("property-based testing against a quadratic reference count, differential between document modes", "Random corpora, windows and count types."),
 "C10": ("property-based testing against a reference tokeniser, metamorphic over read chunkings", "Random corpus bytes, chunkings and limits."),
 "C11": ("fault-injecting property-based testing of readers", "Fails each read and seek call of a run in turn (all calls of small runs enumerated by the generator); hangs are judged by CPU limits and deadlock detection in child processes."),
 "C12": ("property-based testing of whole training runs in child processes", "Random corpora and configurations incl. degenerate ones; checks termination, shape, finiteness and saved text."),
 "C13": ("property-based testing, invariant over trained and untrained vectors", "Random skewed corpora and frequency limits; own vectors of excluded words must not move."),
 "C14": ("property-based and stateful testing of vector access", "Vectors are separated by training on known steps and by their algebraic relation; repeated reads and writes to the answers interleaved."),
 "C15": ("property-based testing against a reference implementation (exact replay and linearised steps)", "The reference enumerates the random choices the code may make and requires one that explains the result; tiny learning rates make steps additive."),
 "C16": ("property-based testing against the closed-form gradient", "Exact where the order of pairs does not matter, linearised otherwise."),
 "C17": ("property-based testing against a reference factorisation step", "Association measures recomputed independently; accepts consistent orientations of smoothing the papers allow."),
 "C18": ("property-based testing, learning rates read off trained displacements", "Rates inferred from vectors at tiny learning rates, so no hook is needed; later passes are bounds-checked only before their first update."),
 "C19": ("property-based and metamorphic testing (parallel against sequential training on disjoint parts)", "Random divisions; counts of visits read off linearised training."),
 "C20": ("property-based testing against a table of settings, differential between options, flags and commands", "All documented flags, option functions and defaults; fields compared by name."),
 "C21": ("property-based testing of the built binary in scratch directories", "Random corpora, flags and path layouts; vectors compared with the library's where both draw the same random numbers."),
 "C22": ("property-based testing of the built binary, differential against the search library", "Random vector files, words and ranks; the printed table is parsed back."),
 "C23": ("model-based testing of console sessions on the built binary", "Random sessions over a pipe with marker queries; words must be Go identifiers."),
 "C24": ("property-based testing over type names", "Random near-miss and arbitrary names per selection."),
 "C25": ("property-based statistical testing with generous bounds, and training-based observation", "Rates judged at more than six standard deviations; which occurrences train is read off the vectors."),
 "C26": ("property-based testing of algebraic laws", "Compared with compensated and exact rational arithmetic; overflowing inputs excluded."),
 "C27": ("statistical property-based testing on generated grouped corpora", "End-to-end; floors are several standard deviations below what correct code shows."),
 "C28": ("property-based testing: round trip and injectivity", "Random and boundary-biased ids below 2^32."),
 "C29": ("stateful model-based testing against a slice of slices", "Random shapes and operation sequences."),
 "C30": ("metamorphic property-based testing in fresh processes", "Same seed, different logging settings; GloVe up to its random pair order."),
 "C31": ("property-based testing over draw sequences", "Sequential draws from random numbers of earlier draws."),
 "C32": ("property-based testing against the definition", "Random valid and corrupted items."),
 "C35": ("metamorphic property-based testing of training in fresh processes", "Same seed, corpus rewritten in ways that must not matter; GloVe up to its random pair order."),
 "C36": ("fault-injecting stateful property-based testing of training histories", "Goroutines, calls on the reader and vectors at the return compared with those after everything has settled; a goroutine counts as left behind after 20 s."),
 "C37": ("stateful fault-injecting property-based testing of training and saving histories", "One model value, histories of up to eight operations."),
 "C38": ("property-based testing of unusual settings in the library and the commands", "One to three settings at a time from lists of unusual values; values that ask for unbounded memory or time are left out."),
 "C39": ("property-based testing of parsed progress messages against counts made from the document", "Messages about the passes of a training are compared without regard to order."),
 "C40": ("property-based testing of initial vectors with concentration bounds (range, evenness, independence)", "Statistical with false-alarm probabilities of 1e-13 per test."),
 "C41": ("property-based testing of wrong command lines with directory snapshots", "Mistakes from lists, placed anywhere in a line the command would otherwise carry out; one mistake per line."),
 "C42": ("property-based testing with memory measured from within the generated document", "Limits with slack for about twice what is needed; documents up to 1 500 000 words."),
 "C34": ("stateful property-based testing of training histories, differential against a fresh model", "Random histories over up to several models of every kind; concurrent trainings are compared where no random draw is shared."),
 "C33": ("stateful and concurrent property-based testing with the race detector", "Random search histories, snapshots compared bit for bit; interleavings by the scheduler."),
}
LEVEL = {"C05": "fault_enumeration", "C11": "fault_enumeration"}
m = {
 "version": 1,
 "setup_cmd": "./tools/setup.sh",
 "checks": [{
   "property": k,
   "quick_cmd": f"./run.sh {k} quick",
   "thorough_cmd": f"./run.sh {k} thorough",
   "evidence_file": f"evidence/{k}.json",
   "technique": t,
   "level": LEVEL.get(k, "exploration"),
   "level_note": n,
 } for k, (t, n) in sorted(T.items())],
 "not_applicable": [],
 "notes": "No hooks: every check drives the public API or the built command. Findings and repairs are listed in known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
