#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after an edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Matching returns the longest prefix in the pattern's language",
 "For every pattern made of literals, symbol ranges, sequences, alternatives and bounded or unbounded repetitions, and every input, matching reports exactly the length (in symbols) of the longest prefix of the input that is in the pattern's language, and reports no match exactly when no prefix, the empty one included, is in it. A bounded repetition a..b means at least a and fewer than b copies; an unbounded one with minimum n means n or more copies. Preparing and matching such a pattern never panics and always terminates.",
 ["inputs", "programs"],
 "all patterns (nested to any depth, with nullable, empty and overlapping parts, counts of any size) and all finite inputs over them",
 "The unit tests try about ten hand-written patterns over 'abc'/'def'; none nests a repetition in a repetition, uses nullable bodies, or compares with an independent definition of the language.",
 ["src/regular_pattern.rs", "src/ndfa.rs", "src/overlapping_symbols.rs", "src/dfa_compiler.rs", "src/symbol_range_dfa.rs", "src/matches.rs"],
 [("pattern to NDFA compilation", "src/regular_pattern.rs Pattern::compile"), ("subset construction", "src/dfa_compiler.rs DfaCompiler::compile"), ("longest-match loop", "src/matches.rs match_pattern, src/symbol_range_dfa.rs SymbolRangeState::next/finish")],
 ["matches", "matches_prepared", "match_pattern"])

prop("C02", "Symbol ranges are exact over the whole of every symbol type",
 "For every built-in symbol type (all integer types and char) and for user-defined ordered countable types, a pattern whose literals and inclusive ranges lie anywhere in the type - including its smallest and largest values and both sides of char's surrogate gap - matches exactly the symbols it denotes, however its ranges overlap, nest, abut or coincide. No such pattern makes preparing or matching panic.",
 ["inputs", "programs", "configurations"],
 "all symbol types, all sets of overlapping, nested and adjacent ranges in one pattern, all symbols",
 "Tests use a handful of small i32 ranges and ASCII letters; extremes of a type, the surrogate gap, u8/u16/u64/isize and user-defined types are never matched.",
 ["src/countable.rs", "src/symbol_range.rs", "src/overlapping_symbols.rs", "src/ndfa.rs", "src/symbol_range_dfa.rs"],
 [("removal of overlaps before determinisation", "src/ndfa.rs Ndfa::fix_overlapping_ranges"), ("predecessor/successor of a symbol", "src/countable.rs Countable"), ("joining adjacent transitions", "src/symbol_range_dfa.rs start_state")],
 ["matches", "match_pattern"])

prop("C03", "Longest match wins and ties produce the lowest output symbol",
 "For every set of patterns with output symbols and every input, matching against the set reports the greatest length that any pattern matches and the lowest-ordered output symbol among the patterns that match that length, the empty match included. The answer does not depend on the order in which the patterns were added, on duplicates, or on how often the set is prepared.",
 ["inputs", "programs", "configurations"],
 "all sets of (pattern, output) pairs over any ordered output type, all orders of adding them, all inputs",
 "One test has two clashing patterns that both match one non-empty string; nullable patterns, three-way ties and insertion order are untested, and a wrong choice may depend on hash order.",
 ["src/tokenizer.rs", "src/ndfa.rs", "src/dfa_compiler.rs"],
 [("one accepting state per pattern", "src/tokenizer.rs TokenMatcher::to_ndfa"), ("lowest output of merged states", "src/dfa_compiler.rs DfaTransitions::output_symbol"), ("outputs of joined states", "src/ndfa.rs output_symbol_for_state")],
 ["match_pattern", "matches", "MatchAction::is_accepted"])

prop("C04", "Pulling tokens by hand keeps position, end state and input consistent",
 "Under every sequence of token reads, skips and position queries, each token read returns the longest non-empty match at the current position with its exact range and lowest output and moves the position to its end, or returns nothing and leaves the position unchanged when there is no non-empty match; each skip returns the symbol at the current position and moves by one. The end of input is never reported while symbols remain, and is reported once a read at the end has returned nothing.",
 ["histories", "inputs", "programs"],
 "all histories of token reads, symbol reads, skips, iterator steps and queries, over all token sets and sources",
 "Three fixed sessions over digits and spaces; no long look-ahead that has to be given back after earlier skips, no nullable token sets mixed with skips.",
 ["src/tokenizer.rs", "src/tape.rs"],
 [("rewind to the end of the accepted text", "src/tokenizer.rs Tokenizer::next_token"), ("rewindable buffer", "src/tape.rs Tape")],
 ["Tokenizer::next_token", "skip_input", "get_source_position", "at_end_of_reader"])

prop("C05", "Scanning a stream yields exactly the maximal-munch token sequence",
 "For every token set and every finite input, iterating a tokenizer terminates and yields exactly the left-to-right longest-match tokens with their ranges, skipping precisely those symbols at which no non-empty token starts. The ranges are ascending, disjoint and inside the input.",
 ["inputs", "programs"],
 "all token sets, all finite inputs and every kind of source",
 "Two tests scan one short string with two trivial token classes; look-ahead longer than the initial buffer and re-scanning after failed look-ahead are not covered.",
 ["src/tokenizer.rs", "src/tape.rs", "src/symbol_reader.rs"],
 [("skip-and-retry loop", "src/tokenizer.rs Iterator::next"), ("give-back of look-ahead", "src/tape.rs rewind/cut/resize")],
 ["Tokenizer as Iterator", "Tokenizer as SymbolReader"])

prop("C06", "A tape replays its source exactly under any reads, rewinds and cuts",
 "After every sequence of reads, rewinds, cuts and buffer growths, reading a tape gives exactly the source symbols from the current position on, in order and unchanged, and the reported position, retained count and end flag agree with that history. Rewinding succeeds for every distance back to the last cut (or the start) and is refused with a panic for any longer distance. Once the source has ended the tape keeps reporting the end and does not read the source again.",
 ["histories", "inputs"],
 "all operation sequences of any length over all sources",
 "Three short scripted sessions of at most nine symbols; wrap-around, growth while rewound, and rewinding too far after a partial rewind are not exercised.",
 ["src/tape.rs"],
 [("circular buffer with growth", "src/tape.rs next_symbol/resize"), ("rewind limit", "src/tape.rs rewind"), ("cut point", "src/tape.rs cut")],
 ["Tape::next_symbol", "rewind", "cut", "resize", "buffer_size", "get_source_position", "at_end_of_reader"],
 [("first/last/read index", "valid window of the ring buffer and the current position in it", "src/tape.rs struct Tape")])

prop("C07", "Both halves of a split stream read the whole stream independently",
 "However reads of the two halves are interleaved, and whenever either is dropped, each half returns exactly the results the original would have returned (a temporary end of input included), the original is advanced only as far as the half that is further ahead, and it continues from there once both are gone. Only symbols that a live half has still to read are retained. Reading and dropping always terminate, and the halves may be split again.",
 ["histories", "schedules"],
 "all interleavings of reads on both halves and of dropping each, nested splits included, over all sources",
 "Two fixed interleavings of three symbols, in which both halves always read everything and are dropped at the same position.",
 ["src/split_reader.rs"],
 [("shared buffer with one position per reader", "src/split_reader.rs SplitSymbolReaderBuffer::read/clear_buffer"), ("release on drop", "src/split_reader.rs Drop")],
 ["SplittableSymbolReader::split", "next_symbol", "drop"])

prop("C08", "Splitting overlapping ranges gives an exact disjoint partition",
 "For every set of ranges, the non-overlapping form consists of ascending, pairwise disjoint ranges that together cover exactly the symbols covered by the set, such that each original range is exactly a union of some of them and no boundary is introduced where no original range starts or ends. It does not depend on the order or multiplicity in which ranges were added and never panics.",
 ["inputs", "configurations"],
 "all finite sets of ranges over every symbol type, in all insertion orders",
 "Nine fixed sets of at most three small i32 ranges; deeper nesting, many shared end points and type extremes are not covered.",
 ["src/overlapping_symbols.rs", "src/countable.rs"],
 [("sweep over sorted ranges", "src/overlapping_symbols.rs to_non_overlapping_map"), ("duplicate removal", "src/overlapping_symbols.rs add_range")],
 ["SymbolMap::to_non_overlapping_map", "SymbolMap::find_overlapping_ranges"])

prop("C09", "Looking up overlaps returns every overlapping range and nothing else",
 "For every set of ranges held in a map and every query range, the lookup returns, in ascending order and each once, exactly the ranges of the set that share at least one symbol with the query.",
 ["inputs"],
 "all sets of (possibly overlapping and nested) ranges, all query ranges, every symbol type",
 "Four lookups on three-range maps; the code itself carries a TODO suspecting that a range can be missed.",
 ["src/overlapping_symbols.rs"],
 [("search from the insertion point", "src/overlapping_symbols.rs find_overlapping_ranges")],
 ["SymbolMap::find_overlapping_ranges"])

prop("C10", "A state machine under construction reflects every edit made to it",
 "After any sequence of edits (adding transitions, creating states, setting outputs, joining states), the state count is one more than the highest state mentioned, the transitions of a state are exactly its own plus those of every state reachable by joins (also ones added after the join, also around cycles, never backwards), and a state has an output exactly when it or a state reachable by joins has one, that output being one of theirs. The same holds through boxed, shared and cloned handles.",
 ["histories"],
 "all edit sequences, including self joins, join cycles and edits after joins",
 "Sixteen tests of two or three edits each; long join chains, diamonds, re-set outputs and edits made after long chains are not covered.",
 ["src/ndfa.rs", "src/state_machine.rs"],
 [("join closure", "src/ndfa.rs get_join_closure"), ("edit operations", "src/ndfa.rs MutableStateMachine"), ("handles", "src/state_machine.rs Rc/Box impls")],
 ["count_states", "get_transitions_for_state", "output_symbol_for_state"])

prop("C11", "Compiling a state machine preserves what it accepts and outputs",
 "For every state machine whose transition symbols are pairwise equal or disjoint - nondeterministic, with joins, cycles and unreachable states, however implemented - the compiled matcher gives for every input the longest accepted length and the lowest-ordered output among all accepting states, joined ones included, reachable with that prefix. Compiling terminates, and compiling again gives the same answers.",
 ["programs", "inputs"],
 "all finite nondeterministic state machines, built through the library or supplied by the user, all inputs",
 "Compiler tests use two patterns; machines built by hand with joins into cycles, several outputs per subset and unreachable states are never compiled.",
 ["src/dfa_compiler.rs", "src/ndfa.rs"],
 [("subset construction", "src/dfa_compiler.rs compile"), ("merging of equal symbols", "src/dfa_compiler.rs merge_states"), ("lowest output", "src/dfa_compiler.rs output_symbol")],
 ["DfaCompiler::build", "prepare_to_match", "match_pattern"])

prop("C12", "Compiled matchers are deterministic, ordered and well-formed",
 "For every state machine given to the compiler, what it emits is a well-formed deterministic automaton: states are started before they are filled in, each state's transitions are in ascending order and pairwise disjoint, every transition leads to a state that exists, each state has at most one output, and the first state is the start. This holds for whatever builder receives it.",
 ["programs"],
 "all source machines and patterns",
 "No test looks at the emitted automaton other than by matching one or two strings.",
 ["src/dfa_compiler.rs", "src/dfa_builder.rs", "src/symbol_range_dfa.rs"],
 [("ordering and merging of transitions", "src/dfa_compiler.rs merge_states"), ("state numbering", "src/dfa_compiler.rs compile"), ("builder contract", "src/dfa_builder.rs DfaBuilder")],
 ["DfaBuilder calls", "SymbolRangeDfa as StateMachine"])

prop("C13", "Removing overlaps from a state machine does not change its behaviour",
 "For every state machine over symbol ranges, removing overlapping ranges leaves its states, joins, outputs and the set of accepted (input, output) pairs unchanged, and afterwards any two ranges on its transitions are equal or disjoint. Doing it twice is the same as doing it once.",
 ["programs", "inputs"],
 "all state machines over ranges, all inputs",
 "Only exercised indirectly by one test with two overlapping ranges.",
 ["src/ndfa.rs", "src/overlapping_symbols.rs"],
 [("rewriting transitions over the partition", "src/ndfa.rs fix_overlapping_ranges")],
 ["Ndfa::fix_overlapping_ranges", "get_transitions_for_state"])

prop("C14", "Pattern combinators denote concatenation, union and repetition",
 "For every expression built with the pattern combinators, the resulting pattern matches exactly the language the expression denotes: append is concatenation, or is union, repeat(a..b) is a to b-1 copies, repeat_forever(n) is n or more copies, and a string, slice, vector, pattern, boxed pattern or reference used as a pattern denotes itself. Grouping and flattening done by the combinators never changes the language.",
 ["programs", "inputs"],
 "all combinator expressions, in all groupings, all inputs",
 "Tests compare the produced data structure for a dozen shallow expressions; no test checks that flattening preserves meaning.",
 ["src/regular_pattern.rs"],
 [("flattening rules", "src/regular_pattern.rs PatternCombiner::append/or"), ("repetition", "src/regular_pattern.rs PatternTransformer"), ("conversions", "src/regular_pattern.rs IntoPattern/ToPattern")],
 ["append", "or", "repeat", "repeat_forever", "exactly", "into_pattern", "to_pattern"])

prop("C15", "A prepared matcher survives serialisation unchanged",
 "Serialising a prepared matcher or a symbol range and reading it back, in a self-describing or a compact format, gives a value that serialises identically and gives the same length and output for every input.",
 ["programs", "inputs", "configurations"],
 "all prepared matchers, symbol and output types, serialisation formats and inputs",
 "Serialisation is derived and has no test at all.",
 ["src/symbol_range_dfa.rs", "src/symbol_range.rs"],
 [("derived serialisation", "src/symbol_range_dfa.rs SymbolRangeDfa, src/symbol_range.rs SymbolRange")],
 ["serde Serialize/Deserialize"])

prop("C16", "Tagging regions of a stream never loses, adds or reorders content",
 "Tagging one range, or a list of ascending disjoint ranges, of a tagged stream (itself possibly containing tags) replaces each such range by one tag holding exactly the symbols that were there, keeps everything else in place and order, and leaves the original untouched when a new stream is produced; flattening the result gives the original symbols. A list that is out of order or overlaps is refused with a panic.",
 ["histories", "inputs"],
 "all streams, all sequences of tagging operations and all range lists, empty ranges included",
 "Five tests of one or two tags on 'HelloWorld'; nested tagging, empty ranges and refusal of bad lists are not covered.",
 ["src/tagged_stream.rs"],
 [("replace a range", "src/tagged_stream.rs tag"), ("build from a list", "src/tagged_stream.rs with_tags/tag_range")],
 ["TaggedStream::tag", "with_tags", "tag_range", "len", "index", "read_symbols"])

prop("C17", "Tokenising a tagged stream tags exactly the tokens of its mapped symbols",
 "For every stream, token set and symbol mapping, tokenising gives the stream in which exactly the maximal-munch tokens of the mapped symbol sequence are tagged with their outputs and every other element is kept as it was, and the mapping is applied to each element once, in order. Building directly from a reader gives the same result as reading first and tokenising after.",
 ["inputs", "programs", "histories"],
 "all streams (tagged at any number of levels), token sets and mapping functions",
 "Two tests of one level with digits and spaces, checking tags and lengths only.",
 ["src/tagged_stream.rs", "src/tokenizer.rs"],
 [("tokenise then tag", "src/tagged_stream.rs tokenize/from_tokenized_reader"), ("mapping stream", "src/symbol_reader.rs MappedStream")],
 ["TaggedStream::tokenize", "from_tokenized_reader"])

prop("C18", "Next and previous symbol are exact neighbours in every type",
 "For every symbol type and every value other than the largest, the next symbol is the smallest value greater than it; for every value other than the smallest, the previous symbol is the greatest value smaller than it; the two are inverse to each other.",
 ["inputs"],
 "all values of all integer types and char",
 "One value per type is tested; isize and usize are not tested, and char only at 'b'.",
 ["src/countable.rs"],
 [("successor and predecessor", "src/countable.rs Countable impls")],
 ["Countable::next", "Countable::prev"])

prop("C19", "Symbol ranges behave as sets of symbols",
 "For every pair of ranges and every symbol: a range includes exactly the symbols from its lowest to its highest inclusive; two ranges overlap exactly when some symbol is in both, symmetrically; joining gives the smallest range that contains both; ranges are totally ordered by lowest and then highest consistently with equality; and a range with lowest above highest cannot be created.",
 ["inputs"],
 "all ranges and symbols of all symbol types",
 "About twenty fixed examples with i32 ranges below 10.",
 ["src/symbol_range.rs"],
 [("range operations", "src/symbol_range.rs SymbolRange::new/overlaps/includes/join/cmp")],
 ["SymbolRange::new", "overlaps", "includes", "join", "cmp"])

prop("C20", "Every symbol reader delivers each source symbol once, in order",
 "Reading any source the library can read - vectors by reference or by value, strings, byte streams that arrive in arbitrary pieces with interruptions, filtered iterators, boxed readers, tagged streams - and any stack of mapping, tape and split adaptors on top, yields exactly the source's symbols in order, transformed once each by the mapping functions in order, and then reports the end. Collecting into a vector gives the same sequence as reading one at a time, and a pause of the source (no symbol now, more later) passes through mappings, boxes and splits as such, one answer for each read.",
 ["inputs", "configurations", "fault_sequences"],
 "all sources, contents, chunkings and adaptor stacks",
 "One three-element example per reader; no stacking, no chunked or interrupted byte streams, no multi-byte characters.",
 ["src/symbol_reader.rs", "src/tape.rs", "src/split_reader.rs", "src/tagged_stream.rs"],
 [("reader implementations", "src/symbol_reader.rs"), ("mapping", "src/symbol_reader.rs MappedStream")],
 ["SymbolReader::next_symbol", "to_vec", "map_symbols"])

prop("C21", "All ways of preparing and running a pattern agree, and reuse is pure",
 "For every pattern and input, preparing from the pattern, from a literal or a reference to it, from its state machine, from a token set holding only it, through the compiler by hand, or passing an already prepared matcher all give the same answer, through each of the matching functions and every kind of source. A prepared matcher gives the same answer for an input whatever it was used for before, or is used for by other threads at the same time.",
 ["programs", "inputs", "histories"],
 "all patterns, preparation routes, matching functions, sources, and sequences of uses of one matcher",
 "Each route is tried on at most one example, and a matcher is reused on three strings.",
 ["src/prepare.rs", "src/matches.rs", "src/tokenizer.rs", "src/dfa_compiler.rs", "src/regular_pattern.rs"],
 [("preparation routes", "src/prepare.rs PrepareToMatch impls"), ("matching functions", "src/matches.rs")],
 ["prepare_to_match", "to_ndfa", "matches", "matches_prepared", "match_pattern"])

prop("C22", "A hand-built transition table runs exactly as described",
 "For every table given to the table builder (states in order, each with ascending disjoint transitions and at most one output), the built matcher has exactly those states and outputs, takes exactly those transitions - adjacent ones with the same target may be reported as one - and gives for every input the longest accepted length with the output of the state reached there.",
 ["programs", "inputs"],
 "all deterministic tables and all inputs",
 "Two tests of a two-state table with one transition.",
 ["src/symbol_range_dfa.rs", "src/dfa_builder.rs"],
 [("table construction and joining of adjacent transitions", "src/symbol_range_dfa.rs SymbolRangeDfaBuilder"), ("execution", "src/symbol_range_dfa.rs SymbolRangeState")],
 ["DfaBuilder", "count_states", "get_transitions_for_state", "output_symbol_for_state", "start/next/finish"])

prop("C23", "Step-by-step matching can be stopped, cloned and resumed at any point",
 "After any symbols have been fed to a match in progress, finishing it reports the longest match among the symbols fed so far, or a rejection if there is none; if the match instead ends by itself, its answer is the longest match for every continuation of what was fed. A copy taken of a match in progress continues independently of the original and gives the same answers.",
 ["histories", "inputs", "programs"],
 "all matchers, all inputs, all points at which to stop, copy or resume",
 "The step interface is driven by hand in three tests, straight through to the end.",
 ["src/symbol_range_dfa.rs", "src/pattern_matcher.rs"],
 [("state carries position, count and last accept", "src/symbol_range_dfa.rs SymbolRangeState")],
 ["MatchAction", "MatchingState::next", "MatchingState::finish", "Clone"])

prop("C24", "The inspectable form of a matcher describes what it does",
 "For every prepared matcher, following its listed transitions from the first state and reading off its listed outputs gives the same length and output for every input as running it, its transitions in each state are ascending and disjoint and stay within its state count, and compiling that listing again gives an equivalent matcher.",
 ["programs", "inputs"],
 "all prepared matchers and all inputs",
 "One test reads back a two-state table.",
 ["src/symbol_range_dfa.rs", "src/dfa_compiler.rs", "src/state_machine.rs"],
 [("state machine view of the table", "src/symbol_range_dfa.rs StateMachine impl")],
 ["count_states", "get_transitions_for_state", "output_symbol_for_state", "prepare_to_match on a boxed machine"])

prop("C25", "Matching looks ahead no further than it must and never past its answer",
 "A match or token read takes symbols from its source one at a time and stops at the first symbol with which no pattern could be continued (a bounded repetition may be followed for one copy more than its bound, and parts that can never match may be followed too); it reads nothing from the source after it has its answer. So matching and tokenising work on endless or interactive sources, and what follows the look-ahead cannot change the answer.",
 ["inputs", "programs", "histories"],
 "all matchers and token sets, all finite or endless sources",
 "All tests use short finite sources and never observe how much of the source was taken.",
 ["src/matches.rs", "src/symbol_range_dfa.rs", "src/tokenizer.rs", "src/tape.rs"],
 [("stop at the first symbol without a transition", "src/symbol_range_dfa.rs next"), ("one read per step", "src/matches.rs match_pattern"), ("lazy tape", "src/tape.rs next_symbol")],
 ["number of symbols taken from the source"])

prop("C26", "A token stream is a stream like any other",
 "Read as a symbol stream, a tokenizer yields, one at a time, the outputs of consecutive longest-match tokens up to the first position at which no non-empty token starts, and then the end. Whatever is built on such a stream - further tokenizers to any depth, matchers, mappings, tapes, split halves, tagged streams, collected vectors - gives the same result as the same thing built on the plain list of those outputs.",
 ["programs", "inputs", "configurations"],
 "all stacks of tokenizers and reader adaptors, all token sets and inputs",
 "No test reads a tokenizer through the symbol reader interface, and none builds one stage on top of another.",
 ["src/tokenizer.rs", "src/symbol_reader.rs", "src/tape.rs", "src/split_reader.rs", "src/matches.rs", "src/tagged_stream.rs"],
 [("tokenizer as a reader of its outputs", "src/tokenizer.rs SymbolReader for Tokenizer"), ("adaptors over any reader", "src/symbol_reader.rs MappedStream, src/tape.rs, src/split_reader.rs")],
 ["SymbolReader::next_symbol", "to_vec", "Tokenizer over Tokenizer"])

prop("C27", "Running a match drives any matcher by its protocol",
 "For every implementation of a matching state and every source, running the match hands the matcher the source's symbols one at a time and in order until it answers, or finishes it exactly once when the source reports its end first; the answer is returned unchanged, whatever it is, and nothing is read or fed after it. A matcher that has answered before the first symbol is not fed and the source is not read.",
 ["programs", "inputs", "histories"],
 "all matcher implementations (their answers, and when they give them), all sources, temporary ends included",
 "The tests run only the library's own matcher, on short strings.",
 ["src/matches.rs", "src/pattern_matcher.rs"],
 [("match loop", "src/matches.rs match_pattern"), ("protocol", "src/pattern_matcher.rs MatchAction, MatchingState")],
 ["match_pattern", "MatchingState::next", "MatchingState::finish"])

prop("C28", "Streams are worked through in bounded memory",
 "However long a stream is, a tokenizer holds no more of it than lies between the end of its last token and the furthest symbol looked at, a tape no more than lies between its last cut and the furthest symbol read, a split pair no more than lies between its two live halves, and a match or an adaptor none of it, up to a constant factor. Everything is released with the reader.",
 ["inputs", "histories", "programs"],
 "all token sets, all streams of any length, all histories of reads, rewinds and cuts, and all interleavings of split halves",
 "All tests use streams of a few symbols, and none observes what is still held.",
 ["src/tokenizer.rs", "src/tape.rs", "src/split_reader.rs", "src/matches.rs", "src/symbol_reader.rs"],
 [("cut after each token", "src/tokenizer.rs next_token"), ("ring buffer reuse", "src/tape.rs cut/next_symbol/resize"), ("release of what both halves have read", "src/split_reader.rs clear_buffer")],
 ["number of symbols alive", "Tape::buffer_size"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
