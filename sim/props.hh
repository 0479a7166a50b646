#pragma once
#include "case.hh"
#include "gen.hh"
#include <algorithm>
#include <set>
// helpers shared by the property modules
inline Verdict viol(const std::string &cls, const std::string &msg) { Verdict v; v.kind = Verdict::VIOL; v.cls = cls; v.msg = msg; return v; }
inline Verdict skip() { Verdict v; v.kind = Verdict::SKIP; return v; }
inline Verdict tooBigSkip(Stats &st) { st.add("pattern_too_large"); return skip(); }
// the reference result of a job; false when it is out of scope or too large
bool refJob(const Job &, const Log &, RefResult &, uint64_t limit = 60000);
bool jobInScope(const Job &);
bool logOk(const Log &, bool strict = true); // strictly increasing (or simultaneous events), no $ events, exact
// stopped while still preparing the pattern: the zone automata of a pattern grow
// exponentially, and how long that takes is no claim of ours, except for small patterns
bool sameAnswers(const RunResult &a, int ta, const RunResult &b, int tb, std::string &why);
bool tooBig(const Job &, const RunResult &);
// what every execution must satisfy: "" or the description of a crash
std::string crashOf(const RunResult &);
// compare a report with the reference: "" or what is wrong
std::string compareFed(Fed got, Fed want, const char *what, std::string &cls, bool subsetOnly = false);
std::string checkReport(const RunResult &, const Fed &want, std::string &cls, bool subsetOnly = false);
Fed answersFed(const RunResult &, int tag, bool &exact);
inline void noteHash(Verdict &v, const RunResult &r) { v.hash = mix64(v.hash ^ r.evHash); }
bool emptyPatternExit(const RunResult &);
std::string corruptLog(Rng &, std::string, bool binary, const std::vector<size_t> &ends);
inline bool isPrefix(const std::string &a, const std::string &f) { return a.size() <= f.size() && f.compare(0, a.size(), a) == 0; }
// places to strike among n: a fraction (0..1000), or a distance from the end (negative), or log-uniform from the start (1001..)
long place(long code, uint64_t n);
long genPlace(Rng &);
