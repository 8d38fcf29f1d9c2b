#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROD = "explicit-state product of the compiled machine with a reference model, over every program of a bounded space"
HIST = "exhaustive enumeration of operation histories on the real code, checked step by step against a reference model"
T = {
 "C01": (PROD, "Every pattern of the stated grammars; for each, ALL inputs (of any length) by exploring the whole product of the prepared DFA's state machine view with a partial-derivative automaton of the pattern; the real match loop is run on all short strings and on access strings of product states. Trusts: the 80-line reference semantics (itself cross-checked by two independent definitions), symbol classes (symbols not separated by any range end of the pattern behave alike)."),
 "C02": (PROD, "Every pair, triple and list of the stated pattern pools with every assignment of outputs and order of addition; all inputs by product, real runs on short strings."),
 "C03": (HIST, "Every listing order and duplication of every small machine's transitions (a harness state machine makes the listing order a choice) and every order of the construction calls; compiled behaviour compared by product with the reference subset semantics."),
 "C04": (PROD, "Every transition relation on 2 and 3 states over 2 symbols and on 4 states over 1, with outputs; all inputs by product; determinism checked on every state."),
 "C05": (HIST, "Every sequence of edits to the stated depth and every small join graph; all views (Ndfa, Box, Rc) compared with a set-based reference after every edit."),
 "C06": (HIST, "Every small arrangement of ranges at the places of each symbol type where neighbours are unusual; reachability compared symbol by symbol."),
 "C07": (HIST, "Every subset of the ranges over 4, 5 or 6 neighbouring symbols (complete for these), several orders of addition; partition property checked symbol by symbol."),
 "C08": (HIST, "Every subset of the ranges over 4, 5 or 6 symbols and every look-up."),
 "C09": (HIST, "Complete for u8 over all 2^16 (pair) spaces listed in the evidence; representatives for the other types, whose code only compares."),
 "C10": (HIST, "Complete for every value of the 8, 16 and 32 bit types and char; every boundary region for the 64 bit types."),
 "C11": (HIST, "A recording DfaBuilder acts as contract monitor (a protocol automaton) on every compilation of the enumerated machines and patterns."),
 "C12": (PROD, "Every hand-built machine of the stated sizes; every input by product with the table it was given, real runs on short strings."),
 "C13": (HIST, "Every sequence of tape operations to the stated depth against a position/cut/source-counter model, plus structured long sequences that wrap the ring buffer at every phase."),
 "C14": (HIST, "Every sequence of tokenizer operations to the stated depth over every short input and pattern set of the pool."),
 "C15": (HIST, "Every short input and pattern set iterated to the end and beyond; hang watchdog decides termination."),
 "C16": ("stateless exploration of every interleaving of reader operations on the real code against a reference model", "Every interleaving to the stated depth of reads, drops and further splits of all live readers, with drop counters on every symbol; a watchdog decides termination."),
 "C17": (HIST, "Every sequence of tag calls to the stated depth on every short stream, compared with an independent tree model."),
 "C18": (HIST, "Every short base stream and pattern set of the pool, up to three levels of tokenizing, against a tree model and an independent tokenizer model."),
 "C19": ("exhaustive fault enumeration: every history of data, interruption, error and end-of-file events of a byte source", "Every event history to the stated length and every short vector and string through every reader kind."),
 "C20": ("stateless exploration of every interleaving of matching steps on the real code against a reference model", "Every schedule of two and three runs (and copies) over one prepared matcher, to the stated lengths."),
 "C21": (HIST, "Every prepared matcher of the stated spaces through five store-and-load routes (serde_json and bincode), states, transitions, outputs and runs compared. One recorded finding: see KNOWN_FINDINGS.txt."),
 "C22": (PROD, "Every pair and triple of operand forms under every combination of calls; the resulting pattern's language is compared with the combination of the operands' languages over all inputs by product."),
 "C23": (HIST, "Every small pattern and input through some 35 to 45 public ways of asking."),
 "C24": (HIST, "Every small pattern over every ultimately periodic endless source of the stated sizes and every short ended source, with a source that counts requests."),
 "C26": (HIST, "Every stack of up to three of 21 layers over every short source (thorough: four), and every stack of three layers repeated three times, read to the end and beyond, matched and made into a stream; the reference is an independent lazy stack, which also counts the requests that are enough."),
 "C27": (HIST, "Every short cycle of tape operations and of reads by two or three split readers, and every tokenizer of a pool over every endless repetition of a short word, repeated until tens of thousands of symbols have gone through, under a counting allocator. What is held is bounded absolutely by the window a model computes and must not grow."),
 "C28": (HIST, "Every short history of edits with a copy taken at each place and the rest done to either side; every small pattern, matcher, match in progress and stream copied with clone and clone_from, compared with every other."),
 "C29": ("exhaustive fault enumeration: every history of calls with every place at which one or two calls of user code fail, on the real code against a reference model", "Every short history of tape, split reader, tokenizer and stream calls, refused ones included and carried on from, with every choice of at most two failing calls of the source, mapping, tag iterator, machine or builder; every stack of up to three layers."),
 "C30": (HIST, "Every pair of 22 patterns, every pattern of three nodes, every set of ranges, every small machine (compiled, or built by hand) over four neighbouring symbols of 47 kinds, among them eight types of a user's own whose ends have nothing beyond them, and 11 types of outputs, over every short word, against the same reference for all; every short word of labelled symbols through every kind of reader; every plan of a matching state of our own."),
 "C31": (HIST, "Every cycle of tape and split reader calls of the stated lengths, every small pattern over every periodic input, every stack of layers, every periodic tagging, each kept going for thousands of symbols with symbols that count what is done to them and an allocator that counts requests; the processor time of 22 operations at ten lengths."),
 "C25": (PROD, "Every pattern of the stated grammar on each of twelve machines, every pair of small patterns in five arrangements, every history of compile, transition, join and output calls to the stated depth; a machine with whole patterns on its edges is the reference; all inputs by product."),
}
LEVEL = {"C19": "fault_enumeration", "C29": "fault_enumeration"}
checks = []
for i in range(1, 32):
    p = "C%02d" % i
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": "./check.sh %s" % p, "thorough_cmd": "./check.sh %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "model checking: " + t,
                   "level": LEVEL.get(p, "model_checking"), "level_note": n + " Nothing is claimed beyond the bounds recorded in the evidence file."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public interface. Eight defects were repaired by fix: commits and one is recorded, see KNOWN_FINDINGS.txt and DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
