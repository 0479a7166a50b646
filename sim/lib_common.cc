#include "ans_vec.hh"
#include "timed_automaton.hh"
#include "timed_automaton_parser.hh"
#include "tre_driver.hh"
#include "lib.hh"
#include "exec.hh"
#include <sstream>

void Recorder::push_back(const Zone &z) {
  double v[6] = {z.value(0, 1).first, z.value(1, 0).first, z.value(0, 2).first, z.value(2, 0).first, z.value(1, 2).first, z.value(2, 1).first};
  uint8_t s[6] = {(uint8_t)z.value(0, 1).second, (uint8_t)z.value(1, 0).second, (uint8_t)z.value(0, 2).second,
                  (uint8_t)z.value(2, 0).second, (uint8_t)z.value(1, 2).second, (uint8_t)z.value(2, 1).second};
  simin::answer(v, s, st->tag);
  if (++st->count == st->throwAt) throw Abandon();
}
void buildTA(const TA &a, TimedAutomaton &out) {
  out.states.clear(); out.initialStates.clear(); out.maxConstraints.clear();
  for (int i = 0; i < a.n(); i++) {
    out.states.push_back(std::make_shared<TAState>((bool)a.match[i]));
    if (a.init[i]) out.initialStates.push_back(out.states.back());
  }
  out.maxConstraints.assign(a.clocks(), 0);
  for (auto &e : a.edges) {
    TATransition t;
    t.target = out.states[e.dst].get();
    for (int x : e.resets) t.resetVars.push_back((ClockVariables)x);
    for (auto &g : e.guard) {
      static const Constraint::Order od[] = {Constraint::Order::lt, Constraint::Order::le, Constraint::Order::gt, Constraint::Order::ge};
      t.guard.push_back(Constraint{(ClockVariables)g.x, od[g.op], g.c});
      out.maxConstraints[g.x] = std::max(out.maxConstraints[g.x], g.c);
    }
    out.states[e.src]->next[(Alphabet)e.label].push_back(t);
  }
}
void treToTA(const std::string &expr, TimedAutomaton &out, bool signal) {
  TREDriver d;
  std::stringstream ss(expr); // not <<: the library prints containers, strings among them, with a << of its own
  if (!d.parse(ss)) throw std::invalid_argument("does not parse");
  if (signal) toSignalTA(d.getResult(), out);
  else d.getResult()->toEventTA(out);
}
void dotToTA(const std::string &dot, TimedAutomaton &out) {
  std::istringstream is(dot);
  BoostTimedAutomaton b;
  parseBoostTA(is, b);
  convBoostTA(b, out);
}
