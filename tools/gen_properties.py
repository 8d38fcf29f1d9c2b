#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Matching reports the longest prefix in the pattern's language",
 "For every pattern built from literals, inclusive symbol ranges, sequences, alternatives and bounded or unbounded repetition, and for every input, matching succeeds exactly when some prefix of the input (possibly empty) belongs to the regular language the pattern denotes. On success it reports the length of the longest such prefix. A repetition given as the range m..n means at least m and fewer than n copies; symbols at the very ends of the symbol type behave like any other symbol.",
 ["programs", "inputs"], "all patterns, all inputs, every built-in symbol type",
 "The tests match about 20 fixed (pattern, string) pairs; nesting of repetitions, alternatives and empty patterns, overlapping ranges and type extremes are hardly touched, and no finite list of strings settles language equality.",
 ["src/regular_pattern.rs", "src/ndfa.rs", "src/overlapping_symbols.rs", "src/dfa_compiler.rs", "src/symbol_range_dfa.rs", "src/matches.rs", "src/countable.rs"],
 [("compilation of each pattern form into states and joins", "src/regular_pattern.rs Pattern::compile"), ("splitting overlapping ranges", "src/ndfa.rs fix_overlapping_ranges"), ("subset construction", "src/dfa_compiler.rs compile"), ("remembering the last accepting position", "src/symbol_range_dfa.rs SymbolRangeState::next/finish")],
 [("accept", "last accepting (length, output) seen by a run", "src/symbol_range_dfa.rs SymbolRangeState")],
 ["matches / matches_prepared / match_pattern results", "StateMachine view of the prepared DFA"])

prop("C02", "Longest match wins; ties go to the lowest output symbol",
 "When several patterns, each with its own output symbol, are combined into one matcher, matching an input reports the greatest length that any of the patterns can match as a prefix. The reported output symbol is the lowest one among the patterns that match exactly that prefix, including the empty prefix. The result does not depend on the order in which the patterns were added.",
 ["programs", "inputs"], "all lists of (pattern, output) pairs, all inputs",
 "Tests use at most two patterns and two clashing strings, never an empty match with two candidates; which of several clashing outputs is produced can depend on pattern order and hash order, which a test samples once.",
 ["src/tokenizer.rs", "src/dfa_compiler.rs", "src/ndfa.rs", "src/symbol_range_dfa.rs"],
 [("all patterns compiled from the shared start state", "src/tokenizer.rs TokenMatcher::to_ndfa"), ("sorted outputs of a DFA state", "src/dfa_compiler.rs DfaTransitions::output_symbol"), ("output of joined states", "src/ndfa.rs output_symbol_for_state")],
 None, ["match_pattern Accept(length, symbol) on a prepared TokenMatcher"])

prop("C03", "Compiled behaviour ignores the order transitions are listed or added",
 "The matching behaviour of a compiled matcher depends only on the set of states, transitions, joins and outputs of the nondeterministic machine it was compiled from. Listing a state's transitions in a different order, listing one twice, or building the machine by the same calls in a different order never changes which inputs are accepted, how much of them, or with which output.",
 ["configurations", "programs"], "all small machines x all listing orders and duplications; all insertion orders",
 "State sets are kept in randomly seeded hash sets, so listing order differs from run to run; a test sees one order per run and would only fail occasionally.",
 ["src/dfa_compiler.rs", "src/ndfa.rs"],
 [("sorting and merging transitions, sorting source state sets", "src/dfa_compiler.rs merge_states/dedupe"), ("join closure in a hash set", "src/ndfa.rs get_join_closure")],
 None, ["DfaCompiler::build on a harness-defined StateMachine whose listing order is a choice point", "Ndfa built through MutableStateMachine"])

prop("C04", "A compiled DFA is deterministic and equivalent to its machine",
 "For every nondeterministic machine with non-overlapping symbols, compiling it yields a machine in which no symbol leads from one state to two different states. For every input, following that machine gives an output exactly when some path of the original machine over the same input ends in a state with an output, and the output given is the lowest one among those states.",
 ["programs", "inputs"], "all machines (any transition relation, any outputs), all inputs",
 "Tests compile two pattern-derived machines and run three strings; arbitrary machines with cycles, self-loops, unreachable states and several outputs are never compiled.",
 ["src/dfa_compiler.rs", "src/symbol_range_dfa.rs", "src/state_machine.rs"],
 [("subset construction with known_states/to_process work list", "src/dfa_compiler.rs compile")],
 [("known_states", "set of source states -> DFA state id", "src/dfa_compiler.rs compile")],
 ["StateMachine view of the result", "match_pattern"])

prop("C05", "A mutable machine holds exactly what was put in it, with joins followed",
 "After any sequence of edits to a nondeterministic machine, its state count is one more than the highest state ever mentioned. The transitions of a state are exactly those added to it or to any state it is joined to directly or through further joins, whether added before or after the join, and never those of a state that is merely joined to it. A state reports an output exactly when it or a state it is so joined to has one, it reports its own output if it has one (the most recently set), and otherwise one belonging to a state it is joined to.",
 ["histories"], "all sequences of create/add-transition/join/set-output calls, including join cycles",
 "Tests run nine fixed call sequences of at most five calls; ordering between joins and additions and cyclic or chained joins are only sampled.",
 ["src/ndfa.rs", "src/state_machine.rs"],
 [("join closure computed at query time", "src/ndfa.rs get_join_closure"), ("max_state maintenance in each mutator", "src/ndfa.rs impl MutableStateMachine")],
 [("joined_with / transitions / output_symbols / max_state", "contents of the machine", "src/ndfa.rs Ndfa")],
 ["count_states, get_transitions_for_state, output_symbol_for_state, also through Box and Rc"])

prop("C06", "Removing overlaps leaves a machine's behaviour unchanged",
 "After overlapping ranges are removed from a nondeterministic machine, any two symbol ranges on its transitions (of any states) are either equal or disjoint. For every state and every symbol, the set of states reachable on that symbol is the same as before, and state count and outputs are unchanged.",
 ["programs", "inputs"], "all machines over ranges of any symbol type including its extremes and the gap inside char",
 "One test compiles one pair of overlapping ranges; the splitting depends on the full arrangement of all ranges in the machine.",
 ["src/ndfa.rs", "src/overlapping_symbols.rs", "src/countable.rs"],
 [("collecting ranges, splitting them, remapping transitions", "src/ndfa.rs fix_overlapping_ranges"), ("splitting", "src/overlapping_symbols.rs to_non_overlapping_map")],
 None, ["get_transitions_for_state before and after"])

prop("C07", "The non-overlapping form of a range set is an exact partition",
 "The non-overlapping form of any set of symbol ranges consists of pairwise disjoint ranges in ascending order. They cover exactly the symbols covered by the original ranges, and every original range is exactly a union of some of them. Adding the ranges in another order, or adding one twice, makes no difference.",
 ["inputs", "histories"], "all sets of ranges over any symbol type, all insertion orders",
 "Twelve tests use at most three distinct ranges each; the splitting keeps a sorted work stack whose order can only break with particular arrangements of four or more ranges, or at type extremes.",
 ["src/overlapping_symbols.rs", "src/countable.rs"],
 [("work stack, splitting and re-insertion", "src/overlapping_symbols.rs to_non_overlapping_map"), ("sorted insertion", "src/overlapping_symbols.rs add_range")],
 [("to_process", "sorted stack of ranges still to be split", "src/overlapping_symbols.rs to_non_overlapping_map")],
 ["find_overlapping_ranges over the whole domain"])

prop("C08", "Range lookup returns exactly the overlapping ranges",
 "Looking up a range in a set of symbol ranges returns every range of the set that shares at least one symbol with it and no others, in ascending order and each once. This holds whether or not the ranges in the set overlap each other.",
 ["inputs", "histories"], "all sets of ranges, all queries",
 "Three lookups are tested; a source comment suspects that ranges can be missed. Whether a range is missed depends on the arrangement of all earlier ranges.",
 ["src/overlapping_symbols.rs"],
 [("lookup", "src/overlapping_symbols.rs find_overlapping_ranges")],
 None, ["SymbolMap::find_overlapping_ranges"])

prop("C09", "Symbol range operations agree with sets of symbols",
 "A symbol range created from two symbols contains exactly the symbols from the first to the second inclusive, and creating one with the ends reversed is refused with a panic. Two ranges are reported as overlapping exactly when they share a symbol, joining two ranges gives the smallest range containing both, and ranges are ordered by lowest symbol and then by highest, consistently with equality.",
 ["inputs"], "all pairs of ranges, all symbols, any ordered symbol type",
 "Seventeen tests check single pairs; relative positions (touching, nested, equal ends) and the ordering laws are only sampled.",
 ["src/symbol_range.rs"],
 [("overlaps/includes/join/cmp", "src/symbol_range.rs")], None, ["SymbolRange public methods and comparison operators"])

prop("C10", "Symbol successor and predecessor are exact for every symbol type",
 "For every built-in symbol type, the successor of any symbol but the greatest is the next greater symbol of that type with none in between, and the predecessor of any symbol but the least is the next smaller one. Successor and predecessor therefore undo each other.",
 ["inputs"], "every value of every implementing type",
 "One value per type is tested, and usize, isize not at all; char has a gap in the middle of its code points.",
 ["src/countable.rs"],
 [("next/prev per type", "src/countable.rs impl Countable")], None, ["Countable::next, Countable::prev"])

prop("C11", "The compiler drives any DFA builder within its contract",
 "Whatever machine with non-overlapping symbols is compiled, the compiler starts each state before describing it, sets at most one output for a state, gives each state's transitions in strictly ascending symbol order with no symbol twice, names only target states that it also starts, starts the state for the empty input first, and finishes the build once at the end.",
 ["programs"], "all machines, any builder implementation",
 "The tests only ever use the built-in builder, which tolerates several violations silently.",
 ["src/dfa_compiler.rs", "src/dfa_builder.rs"],
 [("replaying compiled states into the builder", "src/dfa_compiler.rs compile"), ("sorting and merging by symbol", "src/dfa_compiler.rs merge_states")],
 None, ["calls received by a harness-defined DfaBuilder"])

prop("C12", "A built range DFA follows exactly the transitions it was given",
 "A range DFA built by hand, with the states started in order and each state's transitions given in ascending non-overlapping ranges, has exactly the states that were started (and its description names their number and that of their transitions) and takes a symbol from a state to the target given for the range containing it, and to nothing if no range contains it. A state has an output exactly when one was set, the last one set. Running it reports the last output passed on the way and the number of symbols read up to there, and rejects when there was none.",
 ["programs", "inputs"], "all builder call sequences that respect the ordering rule, all inputs",
 "Two tests build a two-state machine with one transition; merging of adjoining ranges while building is never checked.",
 ["src/symbol_range_dfa.rs", "src/dfa_builder.rs"],
 [("merging adjoining transitions on starting the next state", "src/symbol_range_dfa.rs start_state"), ("state index with a final cap", "src/symbol_range_dfa.rs build"), ("run", "src/symbol_range_dfa.rs next/finish")],
 [("states/transitions/accept", "flattened transition table", "src/symbol_range_dfa.rs SymbolRangeDfa")],
 ["StateMachine view", "match_pattern and manual stepping"])

prop("C13", "A tape replays its source exactly, and rewinds no further than the cut",
 "However reads, rewinds and cuts are mixed, the symbols read from a tape are those of its source by position, its position is the number of symbols before the next read, and the number of symbols it holds is the distance from the last cut (or the start) to the furthest symbol read. Rewinding as far as the last cut (or the start) always succeeds and any further is refused with a panic. Each source symbol is taken once and only when first needed, the source is not asked again after it reports its end, and the end is reported as reached exactly when the source has reported its end and all its symbols have been read.",
 ["histories", "inputs"], "all sequences of read/rewind/cut/resize operations, sources of any length",
 "Three tests run one sequence each on at most nine symbols; wrap-around and growth of the circular buffer depend on the combination of cut position, read position and fill.",
 ["src/tape.rs"],
 [("circular buffer with growth", "src/tape.rs resize, next_symbol"), ("rewind check", "src/tape.rs rewind, buffer_size"), ("cut", "src/tape.rs cut")],
 [("read_index, first_symbol_index, last_symbol_index, buffer", "window of retained symbols", "src/tape.rs Tape"), ("end_of_reader", "source has ended", "src/tape.rs Tape")],
 ["next_symbol, rewind, cut, buffer_size, get_source_position, at_end_of_reader; calls received by the source"])

prop("C14", "Tokenizer steps follow the longest-match rule from the current position",
 "Whatever mix of token requests and skips came before, asking a tokenizer for a token yields the longest non-empty match at the current position with the lowest output for that length, reports its exact range in the source, and moves the position to its end. If no non-empty match starts there it yields nothing and the position stays. Skipping returns the symbol at the current position and advances by one; after a request that yielded nothing, the end of input is reported exactly when every symbol has been consumed.",
 ["histories", "inputs", "programs"], "all pattern sets, inputs and call sequences",
 "Tests run seven fixed call sequences on inputs where the matcher never reads more than one symbol past the token, so deep look-ahead followed by rewinding is never exercised.",
 ["src/tokenizer.rs", "src/tape.rs", "src/matches.rs"],
 [("match, rewind by the unread part, cut", "src/tokenizer.rs next_token"), ("skip", "src/tokenizer.rs skip_input")],
 [("tape", "input window", "src/tokenizer.rs Tokenizer")],
 ["next_token, next_symbol, skip_input, get_source_position, at_end_of_reader"])

prop("C15", "Iterating a tokenizer covers the whole input and stops",
 "Iterating over a tokenizer terminates for every finite input and every set of patterns, including ones that match the empty string. The ranges produced are ascending, non-empty and disjoint; each is what longest-match tokenizing gives at its start, and every position outside them is one where no pattern has a non-empty match. After the last token the iterator keeps reporting the end.",
 ["inputs", "programs", "histories"], "all pattern sets and inputs",
 "Two tests iterate one string with digit and space tokens.",
 ["src/tokenizer.rs", "src/tape.rs"],
 [("skip on no match unless at end", "src/tokenizer.rs Iterator::next")], None, ["Iterator for Tokenizer"])

prop("C16", "Both halves of a split reader see the whole stream, however they are used",
 "After splitting a reader, each half yields the complete sequence of symbols of the original from the split point, whatever the interleaving of reads, whether or not the other half is dropped and when, and whether a half is itself split. All operations finish, including dropping. The original is read only as far as the furthest half, continues from there once both halves are gone, and a symbol is not kept once every remaining half has read it.",
 ["schedules", "histories"], "all interleavings of reads and drops of the two halves (and of nested halves), any source",
 "Two tests read both halves to the end in one order and never drop one half early.",
 ["src/split_reader.rs"],
 [("shared buffer with per-reader positions", "src/split_reader.rs SplitSymbolReaderBuffer::read, clear_buffer"), ("drop marks the reader as gone", "src/split_reader.rs Drop")],
 [("positions", "read position of each half relative to the buffer, a sentinel for dropped ones", "src/split_reader.rs SplitSymbolReaderBuffer")],
 ["next_symbol on each half, drop, the source afterwards, live symbol instances"])

prop("C17", "Tagging only groups symbols: nothing is lost, reordered or changed",
 "Applying tags to a stream, in any sequence of single-tag and many-tag calls, never changes the sequence of base symbols obtained by expanding all tags. Tagging a range puts exactly that range, unchanged, under one tag at its place and leaves everything else as it was; tagging several ascending disjoint ranges at once is the same as tagging them one by one from the last to the first and leaves the original stream alone. Ranges that are out of order or overlap are refused with a panic when tagging several at once.",
 ["histories", "inputs"], "all streams, all sequences of tag operations including empty ranges, nested tags and adjacent ranges",
 "Six tests tag one ten-symbol stream once or twice.",
 ["src/tagged_stream.rs"],
 [("replace range by tag", "src/tagged_stream.rs tag, tag_range"), ("rebuild with tags", "src/tagged_stream.rs with_tags")],
 [("data", "symbols of the stream", "src/tagged_stream.rs TaggedStream")],
 ["len, indexing, read_symbols, equality"])

prop("C18", "Tokenizing a tagged stream tags exactly the tokens found",
 "Tokenizing a tagged stream through a symbol mapping yields the stream in which exactly the ranges that iterating a tokenizer over the mapped symbols produces are tagged, each with its token's output symbol and containing the original (unmapped) symbols, and in which everything else is unchanged. Doing so again on the result, with tags mapped to symbols, builds the next level in the same way. Tokenizing a plain reader directly is the same as making a stream of it first.",
 ["inputs", "programs", "histories"], "all streams, pattern sets, mappings, and repeated tokenizing",
 "Two tests tokenize one string into digits and spaces, checking only tag names and lengths.",
 ["src/tagged_stream.rs", "src/tokenizer.rs", "src/symbol_reader.rs"],
 [("mapped reader into tokenizer into with_tags", "src/tagged_stream.rs tokenize, from_tokenized_reader")],
 None, ["TaggedStream::tokenize, from_tokenized_reader, from_reader"])

prop("C19", "Symbol sources deliver every symbol once, in order, then the end",
 "Reading from a vector, a string, an owned vector, a filtered iterator, a boxed reader or a mapped reader yields each of its symbols exactly once and in order, and then the end; a mapped reader applies the mapping exactly once per symbol. Reading bytes from an I/O source yields every byte the source delivers in order, however reads are split or interrupted, and reports the end at end of file or at the first read error.",
 ["inputs", "fault_sequences"], "all sources; all sequences of read outcomes (data, interruption, error, end of file)",
 "One three-symbol read per source kind is tested; interrupted or failing reads never.",
 ["src/symbol_reader.rs"],
 [("reader implementations", "src/symbol_reader.rs")], None, ["next_symbol, to_vec, map_symbols; calls received by the io source"])

prop("C20", "A prepared matcher can be shared and reused without interference",
 "Any number of matches can be run against one prepared matcher, one after another or interleaved step by step, and each gives the result it would give alone on a fresh matcher. A match in progress can be copied, and the copies continue independently. Where its symbols and outputs may be shared between threads and handed from one to another, so may a matcher and a match in progress. Matching never changes the matcher.",
 ["schedules", "histories"], "all interleavings of several runs on one matcher, all points of copying",
 "Tests run matches one after another on at most three inputs; interleaved runs and copied runs never.",
 ["src/symbol_range_dfa.rs", "src/pattern_matcher.rs", "src/matches.rs", "src/tokenizer.rs"],
 [("run state separate from the borrowed table", "src/symbol_range_dfa.rs SymbolRangeState")],
 [("state, count, accept", "state of one run", "src/symbol_range_dfa.rs SymbolRangeState")],
 ["start/next/finish on interleaved runs, several tokenizers on one prepared matcher"])

prop("C21", "A stored matcher behaves identically after being loaded",
 "A prepared matcher that is serialized and deserialized again, through a self-describing text format or a compact binary one, has the same states, transitions and outputs and gives the same results on every input as the original. Symbol ranges survive the same round trip unchanged.",
 ["programs", "inputs"], "all prepared matchers and symbol ranges, several symbol and output types",
 "No test serializes anything.",
 ["src/symbol_range_dfa.rs", "src/symbol_range.rs"],
 [("derived serialization", "src/symbol_range_dfa.rs derive(Serialize, Deserialize); src/symbol_range.rs")],
 None, ["serde_json and bincode round trips"])

prop("C22", "Combining patterns combines their languages",
 "Appending one pattern to another gives a pattern that matches exactly the concatenations of their matches; offering one as an alternative to another gives exactly the union; repeating gives exactly the stated numbers of copies. This holds for every form of both operands and for chains of such calls, and turning strings, slices, vectors and boxed patterns into patterns gives the literal (or the pattern) they hold.",
 ["programs", "inputs"], "all pairs and chains of patterns, all inputs",
 "Seven tests compare the resulting pattern value for one pair each.",
 ["src/regular_pattern.rs"],
 [("case analysis on operand forms", "src/regular_pattern.rs PatternCombiner append/or"), ("conversions", "src/regular_pattern.rs ToPattern/IntoPattern")],
 None, ["matches on combined patterns"])

prop("C23", "Every way of asking for a match gives the same answer",
 "Matching a source against a pattern gives the same result whether the pattern is passed directly, as a string or other convertible value, prepared once and reused, converted to a nondeterministic machine first, compiled by hand with the default builder, added alone to a token matcher, or run through the tokenizer; and whatever kind of reader supplies the symbols.",
 ["configurations", "inputs", "programs"], "all patterns and inputs x all entry points",
 "Tests use one or two entry points per pattern and never compare them.",
 ["src/prepare.rs", "src/matches.rs", "src/regular_pattern.rs", "src/tokenizer.rs", "src/dfa_compiler.rs", "src/symbol_reader.rs"],
 [("PrepareToMatch implementations", "src/prepare.rs"), ("match loops", "src/matches.rs"), ("ToNdfa implementations", "src/regular_pattern.rs")],
 None, ["matches, matches_prepared, match_pattern, Tokenizer::new/new_prepared"])

prop("C24", "Bounded patterns decide after bounded input; ended sources are left alone",
 "Matching a pattern without unbounded repetition finishes after reading a bounded number of symbols, even from an endless source, where the bound depends only on the pattern. Matching never takes fewer symbols from the source than the length it reports, takes them one at a time in order, and does not ask the source for more once it has reported its end.",
 ["inputs", "programs"], "all patterns, all finite and endless sources",
 "Every test source is finite and ends shortly after the match; what is read from the source is never observed.",
 ["src/matches.rs", "src/symbol_range_dfa.rs", "src/regular_pattern.rs"],
 [("match loop", "src/matches.rs match_pattern"), ("finish when no transition", "src/symbol_range_dfa.rs next")],
 None, ["calls received by an instrumented source"])

prop("C25", "A pattern compiled onto a machine adds its matches and nothing else",
 "Compiling a pattern onto an existing mutable state machine from a given state returns a state, and from then on the given state leads to the returned one by exactly the inputs the pattern matches, whatever else the machine holds: transitions, outputs and joins already there or added later keep their meaning, several patterns may start at one state, follow each other or form circles, and no path appears that neither the pattern nor the other calls describe. This holds for the library's machine and for any other implementation of the mutable machine interface.",
 ["programs", "histories", "inputs"], "all patterns, all machines and histories of calls around them, all inputs",
 "Tests compile patterns onto fresh machines only, and no test builds a machine from a pattern and other calls.",
 ["src/regular_pattern.rs", "src/ndfa.rs", "src/state_machine.rs"],
 [("compilation by joins and fresh states", "src/regular_pattern.rs Pattern::compile"), ("growing the machine", "src/ndfa.rs MutableStateMachine")],
 None, ["Pattern::compile on Ndfa and on a foreign MutableStateMachine"])

prop("C26", "Readers stacked on readers deliver the composition, on demand",
 "Mapped, filtered, boxed, collected and split readers, tapes and tokenizers can be put on top of one another in any order and to any depth. The stack then delivers exactly the symbols that applying each layer's rule in turn to the source's symbols gives, followed by the end for good; a tokenizer among them delivers the outputs of its tokens up to the first place where no token starts, or of all its tokens if it is iterated. Matching over a stack, and making a stream of one, see exactly those symbols. No layer asks for more symbols from below than it needs for what has been asked of it.",
 ["configurations", "inputs", "schedules"], "all stacks of layers, all sources, reads mixed with matching",
 "Tests put at most one reader on top of another; what a layer asks of the one below, and what it does once that has ended, shows only in combinations.",
 ["src/symbol_reader.rs", "src/tape.rs", "src/split_reader.rs", "src/tokenizer.rs", "src/tagged_stream.rs", "src/matches.rs"],
 [("reader adapters", "src/symbol_reader.rs impl SymbolReader for Box, MappedStream, FilterMap, VecReader"), ("tape over a reader", "src/tape.rs next_symbol"), ("halves of a split reader", "src/split_reader.rs"), ("tokenizer as a reader and as an iterator", "src/tokenizer.rs")],
 None, ["next_symbol on the top of the stack", "requests counted by the source"])

prop("C27", "Streaming holds on only to what may still be asked for",
 "However much of a source is read, what is held in memory stays within a constant factor of what may still be asked for: for a tape the most symbols that have lain between its cut and the furthest it has read, for split readers the most by which one of them that has not been dropped has been ahead of another, and for a tokenizer the longest stretch it had to look at for one token or for finding none. Symbols behind the cut, symbols read by every reader that is left, and symbols of finished tokens or skipped ones do not accumulate, and matching holds on to no symbols at all. Dropping a pattern, machine, matcher, match in progress, reader, tokenizer or stream, whatever it has been used for so far, gives back all that it held.",
 ["histories", "inputs"], "all histories of reads, rewinds, cuts, drops, tokens and skips; endless sources",
 "Tests read some dozen symbols: a buffer that only grows passes all of them.",
 ["src/tape.rs", "src/split_reader.rs", "src/tokenizer.rs", "src/matches.rs", "src/symbol_reader.rs"],
 [("circular buffer reused behind the cut", "src/tape.rs next_symbol/cut/resize"), ("clearing what all halves have read", "src/split_reader.rs clear_buffer"), ("cut after a token or a skipped symbol", "src/tokenizer.rs next_token/skip_input")],
 [("Tape.buffer", "circular buffer between the cut and the furthest read", "src/tape.rs Tape"), ("SplitSymbolReaderBuffer.buffer", "symbols waiting for the slower half", "src/split_reader.rs SplitSymbolReaderBuffer")],
 ["bytes asked from the allocator while reading endless sources"])

prop("C28", "Copies are equal to and independent of what they were taken from",
 "A copy of a pattern, symbol range, state machine, matcher, match in progress, tag symbol or tagged stream, whether made anew or put in place of another value, is equal to the original wherever equality is defined and behaves exactly as the original does from then on. Changing either of them afterwards - adding to a machine, removing its overlaps, tagging a stream - leaves the other as it was. Patterns and streams are equal exactly when they are made of the same parts in the same order.",
 ["histories", "programs", "inputs"], "all values reachable by the public calls, all moments of copying, all histories before and after",
 "One test copies a stream; copies of machines and matchers, and what happens to one when the other is changed, are not tested.",
 ["src/ndfa.rs", "src/regular_pattern.rs", "src/symbol_range_dfa.rs", "src/symbol_range.rs", "src/tagged_stream.rs"],
 [("Clone of the mutable machine", "src/ndfa.rs Ndfa"), ("Clone and PartialEq of patterns and streams", "src/regular_pattern.rs Pattern; src/tagged_stream.rs TagSymbol, TaggedStream"), ("Clone of matchers and matches", "src/symbol_range_dfa.rs SymbolRangeDfa, SymbolRangeState")],
 None, ["the public views of both, after every change of one"])

prop("C29", "A refused call or a failing callback leaves everything usable",
 "When a call is refused with a panic - rewinding a tape too far, tagging a range that is reversed or reaches outside the stream, several tags out of order or overlapping - whatever it was called on is as it was before the call and works on. When code given to the library - a source reader, a mapping function, an iterator of tags, a machine or a builder handed to the compiler, a machine a pattern is compiled onto - panics, the panic reaches the caller and nothing else is harmed: readers, tapes and all halves of a split go on with the next symbol of their source as though the failed call had not been made, a tokenizer goes on from the position it reports (not before where it was, nor past what the source has delivered), and patterns, matchers, shared machines and streams are as they were. Dropping any of them while such a panic unwinds succeeds and leaves nothing behind.",
 ["fault_sequences", "histories"], "all histories of calls, all places at which a call of the user's code fails, one or two failures",
 "Tests check at most that a call panics, and use nothing afterwards; no test has a source or callback that fails.",
 ["src/tape.rs", "src/split_reader.rs", "src/tokenizer.rs", "src/tagged_stream.rs", "src/symbol_reader.rs", "src/dfa_compiler.rs", "src/regular_pattern.rs"],
 [("source asked before anything is changed", "src/tape.rs next_symbol; src/split_reader.rs read"), ("checks before changes", "src/tape.rs rewind; src/tagged_stream.rs tag/with_tags"), ("position taken from the tape", "src/tokenizer.rs next_token")],
 None, ["what is read, reported and held after a caught panic", "symbols still alive after everything was dropped"])

prop("C30", "Symbols, outputs and states of every type behave alike",
 "Everything the library computes depends on symbols only through their order and on outputs only through theirs. Replacing the symbols of patterns, machines, ranges and inputs by those of any other type that stand in the same order, with the same ones next to each other, and the outputs by others in the same order, leaves every match, token, tag, range lookup and overlap-free form the same up to that replacement - for built-in types at their ends and in the middle, and for types of a user's own, which may have nothing beyond their least and greatest values: the library never asks for the successor of the greatest or the predecessor of the least symbol. Symbols that compare equal without being identical are delivered by readers, tapes, halves of a split, tokenizers and tagged streams as the very ones the source gave. A matching state of the user's own is driven as the built-in one is: given each symbol once, in order, until it decides, finished once if the source ends before that, and its answer returned.",
 ["inputs", "programs"], "all symbol and output types, patterns, machines, ranges and inputs",
 "Tests use chars and small integers far from the ends of their types, and no type or matching state of their own.",
 ["src/countable.rs", "src/symbol_range.rs", "src/overlapping_symbols.rs", "src/symbol_range_dfa.rs", "src/regular_pattern.rs", "src/dfa_compiler.rs", "src/matches.rs", "src/tokenizer.rs", "src/tagged_stream.rs", "src/tape.rs"],
 [("generic over Ord + Countable + Clone", "src/countable.rs trait Countable; src/symbol_range.rs SymbolRange"), ("ends of ranges moved by one only where a symbol lies beyond", "src/overlapping_symbols.rs to_non_overlapping_map; src/symbol_range_dfa.rs start_state"), ("generic match loop", "src/matches.rs match_pattern")],
 None, ["results over one type compared with those over the others", "calls of next and prev at the ends of a type", "identity of delivered symbols"])

prop("C31", "Streaming costs no more per symbol however much has gone before",
 "The work done for a symbol does not grow with how much has been read, matched or tagged before it. Starting a match, giving it a symbol, finishing it and copying a match in progress take an amount of work bounded by the matcher alone, at whatever symbol. Reading from tapes, from the halves of a split (however far apart they are, and if they are split again), and through mapped, filtered and boxed readers, owned or borrowed vectors, strings and byte sources takes, averaged over all calls so far, no more than a constant amount of work - copies and comparisons of symbols, memory requested, reads of the source, processor time - for each symbol delivered, at each layer; rewinding and cutting a tape take no more than that for each symbol rewound over or given up, and asking for its position or size takes none. A tokenizer takes work in proportion to the symbols it has to look at for the tokens it is asked for. Making, copying, comparing, reading, dropping and tokenizing a tagged stream, and tagging many ranges at once, take work in proportion to the symbols and tags there are, so that an input twice as long takes about twice the work.",
 ["inputs", "programs", "histories"], "all sources, lengths, matchers and cycles of calls",
 "Tests stop after a few symbols and look only at results, never at what was done to obtain them.",
 ["src/tape.rs", "src/split_reader.rs", "src/symbol_range_dfa.rs", "src/matches.rs", "src/tokenizer.rs", "src/symbol_reader.rs", "src/tagged_stream.rs"],
 [("ring buffer that doubles", "src/tape.rs next_symbol/resize"), ("queue shortened from the front", "src/split_reader.rs clear_buffer"), ("one transition for a symbol, no backtracking", "src/symbol_range_dfa.rs next; src/matches.rs match_pattern"), ("one pass over ranges and data", "src/tagged_stream.rs with_tags")],
 None, ["copies, comparisons and releases of symbols", "memory requested", "reads of the source", "processor time of short and long streams"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
