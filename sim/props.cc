#include "props.hh"
#define DECL(id) Case gen##id(Rng &, uint64_t);
DECL(M01) DECL(M02) DECL(M03) DECL(M04) DECL(M05)
Verdict checkCli(const Case &, Stats &);
Verdict checkLib(const Case &, Stats &);
#define DECL2(id) Case gen##id(Rng &, uint64_t); Verdict check##id(const Case &, Stats &);
DECL2(I01) DECL2(S01) DECL2(S02) DECL2(S03) DECL2(O01) DECL2(F01) DECL2(F02) DECL2(F03) DECL2(L01) DECL2(L02) DECL2(D01) DECL2(T01) DECL2(W01) DECL2(D02) DECL2(D03) DECL2(C01)
static const char *CLI_REAL = "monaa's main(), command line, DOT and TRE parsers, TRE translation, skip tables, zone code, timed FJS loop, word container, answer printer; libstdc++, Boost, glibc stdio formatting";
static const char *CLI_STUB = "log producer, report consumer, file system (in memory), allocator, clocks, process exit observer";
static const char *T2_REAL = "tre2ta's main(), command line, TRE parser and translation, automaton printer; libstdc++ streams, glibc stdio";
static const char *LIB_REAL = "libmonaa: matching function, skip tables, zone code, word containers";
static const char *LIB_STUB = "log producer, answer container (recording), allocator, clocks";
static const std::vector<Prop> P = {
  {"M01", 14000, 1500000, genM01, checkCli, "random timed automaton (swarm of sizes, clocks, constants, topology), log steered by the automaton plus noise, now and then one piece repeated to 75000 events, random delivery and memory layout; non-trivial when the reference model finds at least one matching segment", "exploration", CLI_REAL, CLI_STUB},
  {"M02", 40000, 1500000, genM02, checkCli, "random expression ending in $, log sampled from it plus noise, random delivery and memory layout; non-trivial when the reference model finds at least one matching segment", "exploration", CLI_REAL, CLI_STUB},
  {"M03", 14000, 1500000, genM03, checkLib, "random marker-free automaton, steered log, either word container; non-trivial when the reference model finds at least one matching segment", "exploration", LIB_REAL, LIB_STUB},
  {"M04", 14000, 1500000, genM04, checkLib, "random automaton with ordinary and $ accepting transitions, steered log, either word container; non-trivial when the reference model finds at least one matching segment", "exploration", LIB_REAL, LIB_STUB},
  {"M05", 16000, 1200000, genM05, checkCli, "random expression of pieces with intervals joined by concatenation, disjunction, conjunction and repetition of single values, matched with -S against a steered log in which the value changes at every record, random delivery and memory layout; non-trivial when the reference model finds at least one matching segment", "exploration", CLI_REAL, CLI_STUB},
  {"I01", 4500, 700000, genI01, checkI01, "random pattern and log, four deliveries differing in source, encoding, chunking, delays and buffers; non-trivial when the report is not empty", "exploration", CLI_REAL, CLI_STUB},
  {"S01", 4500, 900000, genS01, checkS01, "random pattern and log, cut at one byte (or at every byte); non-trivial when something is reported", "exploration", CLI_REAL, CLI_STUB},
  {"S02", 10000, 900000, genS02, checkS02, "random pattern and log with bytes flipped, inserted, removed, duplicated or replaced; non-trivial when something is reported", "exploration", CLI_REAL, CLI_STUB},
  {"S03", 20000, 1200000, genS03, checkS03, "random pattern and log, a read error at one byte; non-trivial when the records before it have matches", "exploration", CLI_REAL, CLI_STUB},
  {"O01", 2500, 700000, genO01, checkO01, "random pattern and log, a write error or kill at one place (or at every byte or I/O event); non-trivial when the report is not empty", "exploration", CLI_REAL, CLI_STUB},
  {"F01", 2500, 600000, genF01, checkF01, "random pattern and log, one allocation (or all from one on) fails at random places; non-trivial when the fault-free report is not empty", "exploration", CLI_REAL, CLI_STUB},
  {"F02", 50000, 900000, genF02, checkF02, "open, read and truncation faults of the automaton and log files, corrupted automata, invalid command lines and expressions; every run that is in scope is non-trivial", "exploration", CLI_REAL, CLI_STUB},
  {"F03", 50000, 700000, genF03, checkF03, "random expression translated by tre2ta with a fault in opening, writing or closing its output or in an allocation; every run that is in scope is non-trivial", "exploration", T2_REAL, CLI_STUB},
  {"L01", 10000, 1000000, genL01, checkL01, "random automaton and steered log delivered record by record or in broken records; at each wait for the producer the due matches are compared with what was handed over; non-trivial when a match is due before the end of the log", "exploration", CLI_REAL, CLI_STUB},
  {"L02", 10000, 600000, genL02, checkL02, "streams of 2500 to 6000 events for acyclic patterns, or cyclic ones with events that end every attempt; live heap sampled at each wait for the producer; non-trivial when something is reported", "exploration", CLI_REAL, CLI_STUB},
  {"D01", 5000, 600000, genD01, checkD01, "random pattern and log under four memory layouts, one of them all zeros and in order, sometimes one with every block against an inaccessible page; non-trivial when something is reported", "exploration", CLI_REAL, CLI_STUB},
  {"T01", 18000, 700000, genT01, checkT01, "random expression and log; tre2ta then monaa -f against monaa -e; non-trivial when something is reported", "exploration", CLI_REAL, CLI_STUB},
  {"C01", 30000, 1500000, genC01, checkC01, "random log, clean or corrupted, converted with a fault in opening, reading, writing or closing, an allocation, or a kill, and matched before and after the conversion; every run that is in scope is non-trivial", "exploration", "ascii2bin's main(), glibc stdio; monaa's main() and what it runs", CLI_STUB},
  {"W01", 150000, 2000000, genW01, checkW01, "random log of up to 66500 records, delivery and read faults, 3 to 60 operations; non-trivial when the window is moved", "exploration", "libmonaa: on-demand word container and record readers; glibc stdio", LIB_STUB},
  {"D03", 1500, 200000, genD03, checkD03, "2 to 4 threads, each with an operation (build, parse, translate, match, abandon, fail), under a seeded schedule that switches at instrumented memory accesses, allocations and reads; non-trivial when a matching reports something and threads were switched", "exploration", "libmonaa and the parsers of monaa compiled with access instrumentation, in real threads of which one runs at a time", "thread scheduler (one thread runs at a time, switches decided by the seed), log producer, answer container (recording), allocator, clocks"},
  {"D02", 10000, 600000, genD02, checkD02, "2 to 6 operations (build, parse, translate, match, reuse, abandon, fail) in one process, each compared with a fresh process; non-trivial when some matching reports something", "exploration", "libmonaa and the parsers of monaa: DOT and TRE parsers, translation, matching functions, word containers", LIB_STUB},
};
const std::vector<Prop> &allProps() { return P; }
const Prop *findProp(const std::string &s) { for (auto &p : P) if (s == p.id) return &p; return nullptr; }
