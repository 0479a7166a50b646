// M01 M02 M03 M04: the reported segments are exactly the matching segments
#include "props.hh"
#include "lib.hh"
#include "lib_ta.hh"

static int logLen(Rng &r) {
  switch (r.below(12)) {
  case 0: return r.range(0, 3);
  case 1: return r.range(20, 60);
  default: return r.range(3, 20);
  }
}
// A log of one piece that is repeated many times: an index or a position that is
// large must be treated like a small one. The piece ends with an event that no
// pattern can read, so every match lies in one repetition, and the reference
// result of four repetitions says what to expect of any number of them.
static void genLong(Rng &r, Job &j) {
  genJobLog(r, j, r.range(4, 24));
  i64 t = j.log.empty() ? 0 : j.log.back().t;
  j.log.push_back({(unsigned char)'~', t + UNIT});
  long n = r.chance(1, 4) ? r.range(66000, 75000) : r.range(200, 5000);
  j.nums = {std::max(6L, n / (long)j.log.size())};
}
struct LongLog {
  Log piece, all;
  i64 period = 0;
  long reps = 0;
  std::vector<Fed> want;
  long at(const Zone3 &z) const { // the repetition in which the segments of a zone begin
    if (z.d[1][0] >= INF) return reps - 1;
    i64 v = z.d[1][0] >> 1, d = v - piece.back().t;
    return d <= 0 ? 0 : std::min(reps - 1, (long)((d + period - 1) / period));
  }
  bool make(const Job &j) {
    piece = j.log;
    reps = j.nums[0];
    if (reps < 6 || reps > 20000 || piece.size() < 2 || piece.size() > 200 || piece.back().label != '~' || !logOk(piece)) return false;
    period = piece.back().t - piece[0].t + UNIT;
    auto repeat = [&](long n) { Log w; for (long k = 0; k < n; k++) for (auto &e : piece) w.push_back({e.label, e.t + k * period}); return w; };
    RefResult R;
    if (!refJob(j, repeat(4), R)) return false;
    long P = piece.size();
    uint64_t one = 0;
    for (auto &m : R.matches) if (m.i / P == 1) one++;
    // an answer takes 200 bytes of the report, a step of a partial match some microseconds
    if (one) reps = std::min(reps, (long)(25000 / one));
    if (R.work > 4) reps = std::min(reps, (long)(4000000 / R.work));
    if (reps < 6) return false;
    all = repeat(reps);
    want.resize(reps);
    auto put = [&](Zone3 z, long shift) {
      i64 s = shift * period;
      for (int k = 1; k < 3; k++) { z.d[k][0] = addB(z.d[k][0], mkB(s, true)); z.d[0][k] = addB(z.d[0][k], mkB(-s, true)); }
      want[at(z)].push_back(z);
    };
    for (auto &m : R.matches) {
      if (m.i / P == 0) put(m.z, 0);
      else if (m.i / P == 1) for (long k = 1; k <= reps - 3; k++) put(m.z, k - 1);
      else put(m.z, reps - 4);
    }
    return true;
  }
  std::string compare(const Fed &gotAll, const char *what, std::string &cls) const {
    std::vector<Fed> got(reps);
    for (auto &z : gotAll) {
      Zone3 c = z;
      c.close();
      got[c.empty() ? 0 : at(c)].push_back(z);
    }
    auto near = [&](const std::vector<Fed> &f, long k) { Fed r; for (long q = std::max(0L, k - 1); q <= std::min(reps - 1, k + 1); q++) r.insert(r.end(), f[q].begin(), f[q].end()); return r; };
    for (long k = 0; k < reps; k++) {
      std::string m = compareFed(got[k], near(want, k), what, cls, true);
      Fed a = want[k], b = near(got, k);
      Zone3 w;
      bool gave = false;
      if (m.empty()) { restrictSegments(a); restrictSegments(b); if (!included(a, b, &w, &gave)) { cls = "missed"; m = fmt("%s: matching segments were not reported: %s", what, w.str().c_str()); } }
      if (!m.empty()) return fmt("in repetition %ld of %ld of %zu events: ", k + 1, reps, piece.size()) + m;
    }
    return "";
  }
};
static Verdict checkLong(const Case &c, Stats &st) {
  Job j = c.jobs[0];
  LongLog L;
  if (j.hasRaw || j.nums.size() != 1 || !L.make(j)) return skip();
  j.log = L.all;
  bool lib = j.mode == PLAIN || j.mode == OPTIONAL;
  Spec s = lib ? libSpec(j, j.plans[0]) : monaaSpec(j, j.plans[0]);
  s.maxAllocs = 40000000;
  RunResult r = simRun(s);
  st.noteRun(r);
  if (tooBig(j, r) || r.hang) return tooBigSkip(st);
  Verdict v;
  bool none = true, exact = true;
  for (auto &f : L.want) none = none && f.empty();
  std::string cls, m = crashOf(r), why;
  Fed got;
  if (!m.empty()) v = viol("crash", m);
  else if (!(r.code == 0 || (none && r.code == 10 && r.out.empty() && r.answers.empty()))) v = viol("status", "unexpected " + r.describe());
  else {
    if (lib) got = answersFed(r, -1, exact);
    if (!exact) v = viol("inexact", "a bound of an answer is not one of the values the log and the guards can produce");
    else if (!lib && !parseReport(r.out, got, why)) v = viol("malformed-report", "the report is malformed: " + why);
    else if (!(m = L.compare(got, lib ? "answers" : "report", cls)).empty()) v = viol(cls, m);
  }
  noteHash(v, r);
  v.nontrivial = !none;
  if (v.nontrivial) st.add("runs_with_matches");
  st.add("long_logs");
  st.add("long_log_events", j.log.size());
  if (j.log.size() > 65536) st.add("logs_over_65536_events");
  if (v.kind == Verdict::VIOL) v.trace = traceText(r);
  return v;
}
static Case genCli(Rng &r, int trePct) {
  Case c;
  Job j;
  j.mode = DOLLAR;
  genPattern(r, j, trePct);
  if (r.chance(1, 160)) genLong(r, j); else genJobLog(r, j, logLen(r));
  j.plans.push_back(genPlan(r, j));
  Plan &p = j.plans[0];
  if (!j.nums.empty()) { p.mem.guard = 0; if (p.inBuf < 64) p.inBuf = 4096; if (p.outBuf < 64) p.outBuf = 4096; }
  c.jobs.push_back(j);
  return c;
}
Case genM01(Rng &r, uint64_t) { return genCli(r, 0); }
Case genM02(Rng &r, uint64_t) { return genCli(r, 100); }
Case genM05(Rng &r, uint64_t) {
  Case c;
  Job j;
  genSignal(r, j);
  if (r.chance(1, 160)) genLong(r, j); else genJobLog(r, j, logLen(r));
  j.plans.push_back(genPlan(r, j));
  Plan &p = j.plans[0];
  if (!j.nums.empty()) { p.mem.guard = 0; if (p.inBuf < 64) p.inBuf = 4096; if (p.outBuf < 64) p.outBuf = 4096; }
  c.jobs.push_back(j);
  return c;
}
Verdict checkCli(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1) return skip();
  const Job &j = c.jobs[0];
  if (!j.nums.empty()) return j.mode == DOLLAR || j.mode == SIGNAL ? checkLong(c, st) : skip();
  RefResult R;
  if ((j.mode != DOLLAR && j.mode != SIGNAL) || !refJob(j, j.log, R)) return skip();
  RunResult r = simRun(monaaSpec(j, j.plans[0]));
  st.noteRun(r);
  if (tooBig(j, r)) return tooBigSkip(st);
  Verdict v;
  Fed want = R.fed();
  std::string cls, m = crashOf(r);
  if (!m.empty()) v = viol("crash", m);
  else if (!(r.code == 0 || (R.matches.empty() && emptyPatternExit(r)))) v = viol("status", "unexpected " + r.describe());
  else if (!(m = checkReport(r, want, cls)).empty()) v = viol(cls, m);
  noteHash(v, r);
  v.nontrivial = !R.matches.empty();
  if (v.nontrivial) st.add("runs_with_matches");
  st.add("expected_zones", R.matches.size());
  if (r.code == 10) st.add("empty_pattern_exits");
  if (v.kind == Verdict::VIOL) v.trace = traceText(r);
  return v;
}
static Case genLib(Rng &r, Mode m) {
  Case c;
  Job j;
  j.mode = m;
  genPattern(r, j, 0, m);
  if (r.chance(1, 160)) genLong(r, j); else genJobLog(r, j, logLen(r));
  j.vec = r.below(2);
  j.plans.push_back(genPlan(r, j));
  Plan &p = j.plans[0];
  if (!j.nums.empty()) { p.mem.guard = 0; if (p.inBuf < 64) p.inBuf = 4096; if (p.outBuf < 64) p.outBuf = 4096; }
  c.jobs.push_back(j);
  return c;
}
Case genM03(Rng &r, uint64_t) { return genLib(r, PLAIN); }
Case genM04(Rng &r, uint64_t) { return genLib(r, OPTIONAL); }
Verdict checkLib(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].hasTre) return skip();
  const Job &j = c.jobs[0];
  if (!j.nums.empty()) return j.mode == PLAIN || j.mode == OPTIONAL ? checkLong(c, st) : skip();
  RefResult R;
  if (!refJob(j, j.log, R)) return skip();
  Fed want = R.fed();
  Verdict v;
  RunResult r = simRun(libSpec(j, j.plans[0]));
  st.noteRun(r);
  if (tooBig(j, r)) return tooBigSkip(st);
  std::string cls, m = crashOf(r);
  bool exact = true;
  if (!m.empty()) v = viol("crash", m);
  else if (!(r.code == 0 || (R.matches.empty() && r.code == 10 && r.answers.empty()))) v = viol("status", "unexpected " + r.describe());
  else {
    Fed got = answersFed(r, -1, exact);
    if (!exact) v = viol("inexact", "a bound of an answer is not one of the values the log and the guards can produce");
    else if (!(m = compareFed(got, want, j.vec ? "in-memory container" : "on-demand container", cls)).empty()) v = viol(cls, m);
  }
  noteHash(v, r);
  v.nontrivial = !R.matches.empty();
  if (v.nontrivial) st.add("runs_with_matches");
  st.add("expected_zones", R.matches.size());
  st.add(j.vec ? "in_memory_container" : "on_demand_container");
  if (v.kind == Verdict::VIOL) v.trace = traceText(r);
  return v;
}
