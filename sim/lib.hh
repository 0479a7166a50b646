// Matching through the library, inside a simulated execution.
#pragma once
#include "model.hh"
#include <cstdio>
#include <memory>
#include <stdexcept>

struct TimedAutomaton;
struct Zone;
struct Abandon : std::runtime_error { Abandon() : std::runtime_error("abandoned by the answer container") {} };
struct RecState { int tag = 0; long throwAt = -1; long count = 0; bool toText = false; std::string *text = nullptr; };
// The answer container handed to the library: records every zone as it is appended
class Recorder {
public:
  using value_type = Zone;
  RecState *st;
  explicit Recorder(RecState *s) : st(s) {}
  std::size_t size() const { return st->count; }
  void push_back(const Zone &z);
  void clear() {}
  void reserve(std::size_t) {}
};
void buildTA(const TA &, TimedAutomaton &);
void treToTA(const std::string &expr, TimedAutomaton &, bool signal = false); // throws std::invalid_argument when it does not parse
void dotToTA(const std::string &dot, TimedAutomaton &);
void matchMonaa(const TimedAutomaton &, FILE *, bool bin, bool vec, RecState &);
void matchDollar(const TimedAutomaton &, FILE *, bool bin, bool vec, RecState &);
void matchOptional(const TimedAutomaton &, FILE *, bool bin, bool vec, RecState &);
inline void matchMode(Mode m, const TimedAutomaton &a, FILE *f, bool bin, bool vec, RecState &r) {
  if (m == PLAIN || m == SIGNAL) matchMonaa(a, f, bin, vec, r);
  else if (m == DOLLAR) matchDollar(a, f, bin, vec, r);
  else matchOptional(a, f, bin, vec, r);
}
