#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MON = "libmonaa/monaa.hh"
WIN = ("the log window read on demand and dropped from the front", "libmonaa/lazy_deque.hh LazyDeque::fetch/setFront")
SKIP = ("Sunday and KMP skip tables decide which starting points are never tried", "libmonaa/sunday_skip_value.hh, libmonaa/kmp_skip_value.hh, libmonaa/ta2za.cc, libmonaa/zone_automaton.hh")

prop("M01", "Automaton patterns report exactly the matching segments",
 "For a timed-automaton pattern without silent transitions whose accepting transitions are labelled $ and which needs at least one event, and a log with strictly increasing timestamps, the segments (t, t') covered by the zones monaa prints are exactly those where the automaton, started at t with all clocks 0, can read the events strictly between t and t' and then take a $ transition into an accepting state at t'. No segment is missed because starting points are skipped, none is invented, no printed zone is empty, and the end of the log may come after any event. The report does not depend on how the bytes of the log arrive, or on whether the log is an ASCII or binary stream, standard input or a file.",
 ["inputs", "schedules", "configurations"],
 "every such automaton (any clocks, guards, resets, loops, several initial states), every log, every division of the log into deliveries, and end of log after any event",
 "The unit tests match two or three fixed automata over fixed logs and count zones; no test compares the reported zones with what the automaton accepts, and skipping errors only show on particular loop structures and log positions.",
 [MON, "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh", "libmonaa/lazy_deque.hh", "libmonaa/ans_vec.hh", "monaa/timed_automaton_parser.hh", "monaa/main.cc"],
 [("zone computation for begin, end and duration", "libmonaa/monaa.hh monaaDollar"), SKIP, WIN, ("DOT parsing", "monaa/timed_automaton_parser.hh parseBoostTA/convBoostTA")],
 ["standard output of monaa -f", "exit status"])

prop("M02", "Timed regular expressions report exactly the matching segments",
 "For an event-mode timed regular expression ending in the end marker $ and needing at least one event before it, and a log with strictly increasing timestamps, the segments (t, t') covered by the zones that monaa prints are exactly those whose events strictly between t and t', followed by $ at t', are in the language of the expression: an atom is one event at the end of its segment, concatenation splits a segment, e%I bounds its duration, e+ and e* repeat, | and & are union and intersection over the same segment. The reported set does not depend on memory layout or on how the log is delivered.",
 ["inputs", "schedules", "configurations"],
 "every such expression, every log and delivery of it, every memory layout of the translated automaton",
 "The tests compare a few translated automata by structure or membership of a handful of words; they run in one memory layout although the translation orders states by address.",
 ["monaa/tre.cc", "monaa/tre_parser.yy", "monaa/tre_lexer.l", "monaa/tre_driver.hh", "libmonaa/intersection.cc", MON],
 [("translation of the expression to an automaton", "monaa/tre.cc TRE::toEventTA, concat2, removeStuckStates"), ("product automaton for conjunction", "libmonaa/intersection.cc intersectionTA"), SKIP],
 ["standard output of monaa -e", "exit status"])

prop("M03", "Marker-free matching reports exactly the matching segments",
 "For an automaton without $ and without silent transitions, the zones the library function monaa appends cover exactly the segments (t, t') where the automaton, started at t with all clocks 0, reads the events strictly between t and t' and then, at t', takes a transition into an accepting state on the label of the first event at or after t'. The result is the same whether the word container reads the log on demand or holds it in memory.",
 ["inputs", "schedules", "configurations"],
 "every such automaton and log with strictly increasing timestamps, both word containers, every delivery schedule and end-of-log point",
 "The unit tests check the number of zones on a few fixed automata and words.",
 [MON, "libmonaa/word_container.hh"],
 [("zone computation", "libmonaa/monaa.hh monaa"), SKIP, WIN], ["answers appended to the AnsContainer"])

prop("M04", "Optional end-marker matching reports exactly the matching segments",
 "For an automaton without silent transitions that needs at least one event, the zones the library function monaaNotNecessaryDollar appends cover exactly the segments (t, t') where the automaton, started at t with all clocks 0, either reads the events strictly between t and t' and then takes a $ transition into an accepting state at t', or reads the events after t up to and including one at t' and is then in an accepting state. The result is the same for both word containers.",
 ["inputs", "schedules", "configurations"],
 "every such automaton and log with strictly increasing timestamps, both word containers, every delivery schedule and end-of-log point",
 "The unit tests check the number of zones on one or two fixed automata.",
 [MON], [("zone computation", "libmonaa/monaa.hh monaaNotNecessaryDollar"), SKIP, WIN], ["answers appended to the AnsContainer"])

prop("M05", "Signal-mode expressions report exactly the matching segments",
 "With -S, a record 'a T' says that the signal had the value a from the previous record's time up to T. For an expression that does not match the empty segment, built from atoms, concatenation, disjunction, conjunction, duration bounds %I and repetition (+ or *) of a part in which only one value occurs, and a log whose value changes at every record, the segments (t, t') covered by the zones that monaa prints are exactly those on which the signal is in the language of the expression: an atom is a segment of positive duration on which the signal has constantly that value, concatenation splits a segment into parts, | is union, & is intersection over the same segment, e%I bounds the duration of e's segment, and repetition joins one (or no) or more segments. Neighbouring parts of equal value are one constant piece whose duration is the sum. (Claimed where no bound on a longer part and no conjunction begins or ends inside such a piece, and where a repeated duration is neither a single point nor an open interval whose multiples leave out single points.) The reported set does not depend on memory layout or on how the log is delivered.",
 ["inputs", "schedules", "configurations"],
 "every such expression, every log and delivery of it, every memory layout of the translated automaton",
 "The tests compare the normal forms and automata of a few fixed expressions by structure; none matches a signal against a bounded expression.",
 ["monaa/intermediate_tre.cc", "monaa/intermediate_tre.hh", "libmonaa/interval.hh", "monaa/tre.cc", "monaa/main.cc", MON],
 [("normal form: neighbouring atoms merged, intervals intersected and added", "monaa/intermediate_tre.cc DNFTRE, AtomicTRE::toNormalForm, libmonaa/interval.hh"), ("translation to an automaton over constant pieces", "monaa/intermediate_tre.cc toSignalTA"), SKIP],
 ["standard output of monaa -S -e", "exit status"])

prop("I01", "The report does not depend on how the log is delivered",
 "The bytes monaa writes and its exit status are a function of the pattern and of the sequence of records in the log alone: they are the same however the log's bytes are split over reads or delayed, whether the log comes from standard input or a named file, as ASCII with any whitespace between fields, any decimal spelling of the timestamps (short or long) and any final newline, or in the binary format.",
 ["schedules", "inputs", "configurations"],
 "every log and pattern, every chunking and delay of the byte stream, both sources, both formats, every layout of whitespace",
 "Tests read small complete files from disk in one gulp; the binary format is tested by reading one file.",
 ["libmonaa/lazy_deque.hh", "libmonaa/word_container.hh", "monaa/main.cc"],
 [("record readers", "libmonaa/lazy_deque.hh getOne, getOneBinary"), WIN], ["standard output of monaa", "exit status"])

prop("S01", "A log cut off at any byte yields exactly its complete records",
 "If a log ends at any byte, in ASCII or binary, monaa reports exactly the matches of the records that are completely present up to there (an ASCII record needs its label and at least one digit of its timestamp), as if the log had ended after them; a trailing fragment of a record is never turned into an event, never changes, adds or suppresses a match, and never crashes or hangs the tool. The same holds for a log read into the library's in-memory container.",
 ["crash_points", "inputs"],
 "every log, every byte offset at which the producer dies, both formats, every division of the remaining bytes into deliveries",
 "No test truncates a log inside a record.",
 ["libmonaa/lazy_deque.hh", "libmonaa/word_container.hh", "monaa/main.cc"],
 [("record readers reject incomplete records", "libmonaa/lazy_deque.hh getOne, getOneBinary, LazyDeque::fetch")], ["standard output of monaa"])

prop("S02", "Corrupt or foreign log content cannot fabricate matches or crash",
 "Whatever bytes the log holds, monaa terminates without crashing; an event whose label does not occur in the pattern, including any byte value above 127, is an ordinary event that the pattern cannot read; in ASCII, when a record is malformed the tool reports exactly the matches decided by the records before it, as if the log had ended there, and exits with a non-zero status unless the input ended inside that record.",
 ["inputs", "fault_sequences"],
 "every sequence of corruptions (flipped, inserted, deleted, duplicated bytes, foreign labels) of every log in both formats",
 "Tests only use well-formed logs over the pattern's own alphabet.",
 ["libmonaa/lazy_deque.hh", "libmonaa/sunday_skip_value.hh", MON, "monaa/main.cc"],
 [("record readers", "libmonaa/lazy_deque.hh"), ("skip table lookup by label", "libmonaa/sunday_skip_value.hh operator[]")], ["standard output of monaa", "exit status", "signals"])

prop("S03", "A failing log read is never mistaken for the end of the log",
 "If reading the log fails at any point, monaa exits with a non-zero status, and everything it printed is correct for the records read before the failure; a run that exits 0 has processed every record of the log.",
 ["fault_sequences", "crash_points"],
 "every log and pattern, a read error or repeated interruptions at every byte, on standard input and on a named file, both formats",
 "No test makes a read fail.",
 ["monaa/main.cc", "libmonaa/lazy_deque.hh"], [("error check after matching", "monaa/main.cc")], ["exit status", "standard output"])

prop("O01", "Exit status 0 means the whole report was delivered",
 "If writing the report fails at any point, once or for good (disk full, I/O error, closed pipe), monaa exits with a non-zero status; if it fails from some byte on, or the process is killed at any point, the bytes that got through are a prefix of the report monaa would otherwise have written; exit status 0 implies that the full report, or with -q nothing, was delivered.",
 ["fault_sequences", "crash_points"],
 "every pattern and log, a write failure or short write at every byte of the report, every buffer size and every kill point",
 "No test makes a write fail or kills the tool.",
 ["monaa/main.cc", "libmonaa/ans_vec.hh"], [("printing of zones", "libmonaa/ans_vec.hh PrintContainer"), ("flush and error check", "monaa/main.cc")], ["bytes on standard output", "exit status"])

prop("L01", "Matches are reported online, without waiting for more log than needed",
 "Monitoring is online: when the log is a live stream, a match is handed to the result consumer before the tool waits for any byte beyond the event that completes the match and the events needed to decide the partial matches that began at earlier events. This holds however slowly and in whatever pieces the producer delivers.",
 ["schedules", "inputs"],
 "every pattern and log, every schedule of deliveries between producer and monitor, including pauses of any length after any byte, in both formats",
 "Tests only run on logs that are already complete, where a report that is late or only made at the end cannot be seen.",
 ["libmonaa/lazy_deque.hh", MON, "libmonaa/ans_vec.hh"],
 [("on-demand reading", "libmonaa/lazy_deque.hh LazyDeque::fetch"), ("record readers stop at the end of a record", "libmonaa/lazy_deque.hh getOne"), ("answers are emitted as they are found", "libmonaa/ans_vec.hh PrintContainer::push_back")],
 ["simulated time of each answer against each delivery"])

prop("L02", "Memory use does not grow with the length of the log",
 "While monaa reads a log from a stream, the memory it holds is bounded by the pattern and by the number of events that partial matches span; it does not grow with the length of the log or with the number of matches already reported.",
 ["inputs", "schedules"],
 "every pattern whose partial matches span a bounded number of events, logs of any length and composition, including long stretches that no match can start in",
 "Tests use logs of a few to a thousand events and never look at memory.",
 ["libmonaa/lazy_deque.hh", MON, "libmonaa/ans_vec.hh"],
 [("consumed events are dropped", "libmonaa/lazy_deque.hh LazyDeque::setFront"), ("answers are printed, not stored", "libmonaa/ans_vec.hh PrintContainer")],
 ["live bytes held by the process as simulated time advances"])

prop("D01", "The result does not depend on memory layout",
 "For the same pattern and log, monaa reports the same matches in the same order with the same exit status whatever addresses the allocator hands out, in whatever order memory is reused, and whatever stale bytes it contains; and it never reads or writes outside what it allocated.",
 ["schedules", "inputs", "configurations"],
 "every pattern (automaton or expression) and log, every allocation order, reuse policy and content of fresh memory",
 "Tests run under one allocator whose addresses happen to increase; states are kept by address in sorted vectors and hash tables.",
 ["monaa/tre.cc", "libmonaa/zone_automaton.hh", "libmonaa/kmp_skip_value.hh", MON, "monaa/timed_automaton_parser.hh"],
 [("states compared and sorted by address", "monaa/tre.cc TRE::toEventTA, libmonaa/kmp_skip_value.hh, libmonaa/monaa.hh")], ["standard output of monaa", "exit status", "guard bytes around allocations"])

prop("D02", "Each matching in a process is independent of those before it",
 "A program that runs several matchings, translations and parses one after another through the library gets from each of them exactly what a fresh process would, whatever ran before, whether earlier ones ended normally or were abandoned by an exception from the input or the output.",
 ["histories", "fault_sequences"],
 "every sequence of library operations over every mix of patterns with different numbers of clocks, logs and containers, including operations abandoned part-way",
 "Each unit test makes one or a few calls in an order fixed by the test runner.",
 [MON, "libmonaa/zone.hh", "libmonaa/ta2za.cc", "monaa/tre.cc", "libmonaa/ans_vec.hh"],
 [("no state survives a call", "libmonaa/zone.hh Zone::zero, libmonaa/monaa.hh InternalState, monaa/tre.cc")], ["answers of each operation compared with the same operation alone"])

prop("D03", "Matchings in different threads do not disturb each other",
 "When several threads of a program parse, translate and match at the same time, each with its own log and answer container, on patterns of their own or on one pattern that they only read, every one of them gets exactly the result it would get alone, under every interleaving, and no two of them touch the same memory without synchronisation, one of them writing.",
 ["schedules", "histories"],
 "every interleaving of two or more matchings over every mix of patterns and logs",
 "No test runs two matchings at once.",
 ["libmonaa/zone.hh", MON, "libmonaa/ta2za.cc", "libmonaa/zone_automaton.hh", "monaa/tre.cc"],
 [("no shared mutable state", "libmonaa/zone.hh Zone::zero, Zone::universal; monaa/tre.cc")], ["answers of each thread compared with the same operation alone"])

prop("F01", "Running out of memory never yields a wrong or silently partial report",
 "If any memory allocation fails, monaa terminates; unless it has delivered the full report it does so with a non-zero status, and what it printed is a prefix of the report it would have written with enough memory (where memory ran out in reading a record, of the report for the records before it). It never hangs, never accesses memory it does not own, and never prints a match that does not hold for the records it has read.",
 ["fault_sequences"],
 "every pattern and log, failure of any single allocation or of all allocations from any point on",
 "No test makes an allocation fail.",
 ["monaa/main.cc", MON, "libmonaa/lazy_deque.hh"], [("exceptions reach the top of main and stop the program", "monaa/main.cc; libmonaa/lazy_deque.hh LazyDeque::fetch")], ["exit status", "standard output"])

prop("F02", "A pattern or log that cannot be read stops the tool with an error",
 "If the automaton file or the log file cannot be opened, is cut off, is malformed or fails while being read, or the command line or expression is invalid, monaa and tre2ta print a diagnostic, report no match, and exit with a small non-zero status; they are never ended by a signal and never go on with a partial pattern.",
 ["fault_sequences", "inputs"],
 "every automaton file cut off or failing at every byte, every open failure, every invalid option or expression",
 "No test gives the tools a missing, truncated or unreadable file.",
 ["monaa/main.cc", "monaa/tre2ta.cc", "monaa/timed_automaton_parser.hh"], [("error handling at the top of main", "monaa/main.cc, monaa/tre2ta.cc"), ("DOT parsing", "monaa/timed_automaton_parser.hh")], ["exit status", "standard output", "standard error"])

prop("F03", "tre2ta exits 0 only if the whole automaton was written",
 "If the output of tre2ta, standard output or the file given with -o, cannot be opened or a write to it fails at any point, tre2ta exits with a non-zero status; exit status 0 implies that the complete automaton is there and nothing else, whatever the file held before, and the bytes delivered are always a prefix of it.",
 ["fault_sequences"],
 "every expression, an open failure or a write failure or short write at every byte, both destinations",
 "No test makes the output of tre2ta fail.",
 ["monaa/tre2ta.cc"], [("output and error check", "monaa/tre2ta.cc")], ["bytes delivered", "exit status"])

prop("C01", "The log converter writes exactly the events of the log",
 "utils/ascii2bin, which converts a log from the text format to the binary format that monaa -b reads, exits with status 0 only if what it wrote, to standard output or to the file given with -o, is exactly one record for each complete event of its input, in order and with the same label and timestamp, and nothing else, whatever the file held before; monaa -b then reports for it what monaa reports for the text. If the input or the output cannot be opened, a record is malformed, or reading or writing fails at any point, it exits with a non-zero status, and what was written is a prefix of these records.",
 ["inputs", "fault_sequences", "crash_points"],
 "every log, clean or corrupted, and an open, read, write or close failure, short write or kill at every byte or I/O event",
 "No test runs the converter.",
 ["utils/ascii2bin.c"], [("reading and writing of records", "utils/ascii2bin.c")], ["bytes written", "exit status", "standard output of monaa -b on them"])

prop("T01", "The automaton tre2ta writes means the same as the expression",
 "For an event-mode expression that ends in the end marker $ and needs at least one event before it, running monaa -f on the automaton written by tre2ta reports the same set of matches on every log as running monaa -e on the expression, whatever memory layout the two runs have.",
 ["inputs", "configurations", "schedules"],
 "every such expression and log, every memory layout of either tool",
 "No test feeds the output of tre2ta back to monaa.",
 ["monaa/tre2ta.cc", "monaa/tre.cc", "libmonaa/timed_automaton.hh", "monaa/timed_automaton_parser.hh"],
 [("DOT writer", "libmonaa/timed_automaton.hh operator<<"), ("DOT reader", "monaa/timed_automaton_parser.hh")], ["standard output of both runs"])

prop("W01", "The on-demand word container behaves as the log it reads",
 "Under every sequence of operations, the word container that reads on demand behaves as a window onto the log: fetch(n) is true exactly when the window has not moved past n and the log has an n-th record, a fetched record that the window has not moved past is returned unchanged, reads outside the fetched window throw out_of_range, moving the window never changes which record an index denotes, and once the end has been seen size() is the length of the log.",
 ["histories", "schedules", "fault_sequences"],
 "every history of fetch, at, operator[], setFront and size, every log in both formats, every delivery schedule and end point",
 "The unit tests follow one short history on one file.",
 ["libmonaa/lazy_deque.hh", "libmonaa/word_container.hh"], [WIN], ["return values and exceptions of the container"])

# --- listed, not claimed -------------------------------------------------------
prop("N01", "Grammar and precedence of timed regular expressions",
 "The parser accepts exactly the documented grammar and groups operators with the documented precedence.",
 ["inputs"], "every string", "Tests parse a few expressions.",
 ["monaa/tre_parser.yy", "monaa/tre_lexer.l"], [("grammar", "monaa/tre_parser.yy")], ["TREDriver::parse"])
prop("N02", "Interval arithmetic",
 "Intersection, sum and Kleene plus of interval sets denote the intersection, sum and iterated sums of the sets of durations.",
 ["inputs"], "every finite set of intervals", "Tests check a few intervals.",
 ["libmonaa/interval.hh"], [("interval operations", "libmonaa/interval.hh")], ["Interval, plus, land, operator+="])
prop("N03", "Admissibility of the skip tables on their own",
 "For every automaton, each entry of the Sunday and KMP tables is at most the distance to the next possible match.",
 ["inputs"], "every automaton", "Tests check the tables of a few automata.",
 ["libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh"], [("tables", "libmonaa/sunday_skip_value.hh, libmonaa/kmp_skip_value.hh")], ["SundaySkipValue, KMPSkipValue"])
prop("N04", "Signal-mode repetition of changing values reports exactly the matching segments",
 "With -S, also for expressions with repetition of a part in which several values occur, with bounds or conjunctions that cut a constant piece, and for logs that repeat a value, the zones reported cover exactly the segments whose piecewise-constant signal is in the language of the expression under the signal semantics.",
 ["inputs"], "every expression and signal", "Tests translate a few expressions to normal form.",
 ["monaa/intermediate_tre.cc", "monaa/intermediate_tre.hh", "monaa/tre.cc"], [("normal form and translation", "monaa/intermediate_tre.cc DNFTRE, monaa/tre.cc toSignalTA")], ["standard output of monaa -S -e"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
