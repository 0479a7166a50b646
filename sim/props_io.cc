// I01 S01 S02 S03 O01: the log stream and the report stream
#include "props.hh"
#include <cmath>
Spec readAllSpec(const Job &j, const Plan &p);

static void sized(Rng &r, Job &j, Plan &p) {
  genDelivery(r, p, logBytes(j, p).size());
  if (j.log.size() > 2000) { if (p.inBuf < 64) p.inBuf = 4096; if (p.outBuf < 64) p.outBuf = 4096; } // recording space
}
// logs with timestamps that are not on the grid
static void perturb(Rng &r, Log &w) {
  for (auto &e : w) if (e.t % 10 == 0) e.t += r.below(3) ? (i64)r.below(1000) : 0;
}
static void mergeHash(Verdict &v, const RunResult &r) { noteHash(v, r); }
static void bigLog(Rng &r, Job &j) { // beyond every buffer
  TaOpt o;
  o.letters = j.strs.empty() ? "AB" : j.strs[0];
  o.mode = DOLLAR;
  o.acyclic = true;
  o.maxStates = r.range(2, 3);
  o.maxClocks = r.below(2);
  o.maxConst = 3;
  j.hasTre = false;
  j.mode = DOLLAR;
  j.ta = genTA(r, o);
  genJobLog(r, j, r.chance(1, 5) ? r.range(6000, 12000) : r.range(400, 1200));
}
// ---------------------------------------------------------------- I01
Case genI01(Rng &r, uint64_t) {
  Case c;
  Job j;
  genCliPattern(r, j, 40);
  genJobLog(r, j, r.chance(1, 10) ? r.range(0, 2) : r.range(3, 30));
  if (r.chance(1, 25)) bigLog(r, j);
  if (r.chance(1, 2)) perturb(r, j.log);
  if (r.chance(1, 10)) for (auto &e : j.log) if (r.chance(1, 4)) e.label = 128 + r.below(128);
  if (r.chance(1, 20) && !j.log.empty()) { i64 off = (i64)r.below(1000000000) * UNIT; for (auto &e : j.log) e.t += off; }
  MemPlan mem = genMem(r);
  for (int k = 0; k < 4; k++) {
    Plan p = genPlan(r, j);
    p.mem = mem;
    if (k == 0) { p.enc.binary = 0; p.enc.style = 0; }
    if (k == 1) p.enc.binary = 1;
    sized(r, j, p);
    j.plans.push_back(p);
  }
  c.jobs.push_back(j);
  return c;
}
Verdict checkI01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() < 2) return skip();
  const Job &j = c.jobs[0];
  Verdict v;
  std::vector<RunResult> R;
  for (auto &p : j.plans) {
    R.push_back(simRun(monaaSpec(j, p)));
    st.noteRun(R.back());
    if (tooBig(j, R.back()) || R.back().hang) return tooBigSkip(st);
    mergeHash(v, R.back());
  }
  const RunResult &a = R[0];
  v.nontrivial = !a.out.empty();
  if (v.nontrivial) st.add("runs_with_matches");
  for (size_t k = 0; k < R.size(); k++) {
    const RunResult &b = R[k];
    std::string m = crashOf(b);
    if (!m.empty()) v = viol("crash", m);
    else if (a.signaled != b.signaled || a.code != b.code) v = viol("status", fmt("delivery 0: %s; delivery %zu: %s", a.describe().c_str(), k, b.describe().c_str()));
    else if (a.out != b.out) {
      size_t d = 0;
      while (d < a.out.size() && d < b.out.size() && a.out[d] == b.out[d]) d++;
      v = viol("report", fmt("the report of delivery %zu (%zu bytes) differs from that of delivery 0 (%zu bytes) at byte %zu", k, b.out.size(), a.out.size(), d));
    }
    if (v.kind == Verdict::VIOL) { noteHash(v, a); noteHash(v, b); v.nontrivial = !a.out.empty(); v.trace = "delivery 0:\n" + traceText(a) + fmt("delivery %zu:\n", k) + traceText(b); return v; }
  }
  return v;
}
// ---------------------------------------------------------------- S01
Case genS01(Rng &r, uint64_t) {
  Case c;
  Job j;
  genCliPattern(r, j, 30);
  bool every = r.chance(1, 16);
  genJobLog(r, j, every ? r.range(1, 5) : r.range(2, 16));
  if (!every && r.chance(1, 40)) bigLog(r, j);
  if (r.chance(1, 5)) perturb(r, j.log);
  Plan p = genPlan(r, j);
  if (every) p.inBuf = r.below(2) ? 0 : p.inBuf;
  sized(r, j, p);
  size_t n = logBytes(j, p).size();
  // favour the last bytes: what was read so far is the longest there
  j.nums = {every ? -1L : (long)(r.chance(1, 2) ? r.below(n + 1) : n - r.below(std::min<size_t>(n, 20) + 1))};
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
// Compare a run on raw bytes with the records the reference reader finds there.
static Verdict againstRecords(const Job &j, const Plan &p, const std::string &bytes, const RefLog &rl, Stats &st, const std::string &what, std::map<std::string, std::string> *cache = nullptr, uint64_t *cost = nullptr) {
  Job raw = j;
  raw.hasRaw = true;
  raw.raw = bytes;
  RunResult a = simRun(monaaSpec(raw, p));
  st.noteRun(a);
  if (tooBig(raw, a)) return tooBigSkip(st);
  Verdict v;
  noteHash(v, a);
  if (cost) *cost = a.nAllocs;
  std::string m = crashOf(a), cls;
  if (!m.empty()) { v = viol("crash", what + ": " + m); noteHash(v, a); v.trace = traceText(a); return v; }
  bool wantErr = rl.stop == 2;
  if (a.code == 10 && a.out.empty()) { st.add("empty_pattern_exits"); return v; } // the pattern is empty: nothing is read
  if (rl.inexact) { st.add("crash_only"); return v; }
  if (wantErr ? !(a.code >= 1 && a.code < 126) : a.code != 0) v = viol("status", what + fmt(": %zu records and %s, but ", rl.log.size(), wantErr ? "then a malformed one" : "the end of the log") + a.describe());
  // the same records, written cleanly
  if (v.kind != Verdict::VIOL) {
    Job clean = j;
    clean.log = rl.log;
    clean.hasRaw = false;
    Plan q = p;
    q.enc.style = 0;
    q.enc.finalNewline = 1;
    q.chunks.clear();
    bool lab = true; // labels that are white space cannot be written in ASCII, and cannot be read from it
    for (auto &e : rl.log) if (!q.enc.binary && (e.label == ' ' || (e.label >= 9 && e.label <= 13))) lab = false;
    std::string key = encodeLog(clean.log, q.enc);
    if (lab && cache && cache->count(key)) {
      if ((*cache)[key] != a.out) v = viol("report", what + fmt(": the report has %zu bytes, but %zu bytes for a log with exactly the %zu complete records", a.out.size(), (*cache)[key].size(), rl.log.size()));
    } else if (lab) {
      RunResult b = simRun(monaaSpec(clean, q));
      st.noteRun(b);
      if (tooBig(clean, b) || b.overflow) return tooBigSkip(st);
      noteHash(v, b);
      if (cache && crashOf(b).empty()) (*cache)[key] = b.out;
      if (b.out != a.out && !(m = crashOf(b)).size()) { v = viol("report", what + fmt(": the report has %zu bytes, but %zu bytes for a log with exactly the %zu complete records", a.out.size(), b.out.size(), rl.log.size())); noteHash(v, b); v.trace = traceText(b); }
    }
  }
  if (v.kind != Verdict::VIOL) { // the container that holds the whole log
    Job w = raw;
    w.vec = 1;
    RunResult b = simRun(readAllSpec(w, p));
    st.noteRun(b);
    if (b.overflow) return tooBigSkip(st);
    noteHash(v, b);
    st.add("read_into_memory");
    std::string want, got = b.libText;
    for (auto &e : rl.log) want += fmt("%d %a\n", e.label, (double)e.t / UNIT);
    if (!(m = crashOf(b)).empty() || b.code) v = viol("crash", what + ", read into WordVector: " + (m.empty() ? b.describe() : m));
    else if (got != want) v = viol("container", what + fmt(", read into WordVector: \"%s\" instead of \"%s\"", esc(got, 300).c_str(), esc(want, 300).c_str()));
    if (v.kind == Verdict::VIOL) { noteHash(v, b); v.trace = traceText(b); }
  }
  if (v.kind != Verdict::VIOL) {
    RefResult R;
    if (refJob(j, rl.log, R)) {
      st.add("checked_against_reference");
      if (!(m = checkReport(a, R.fed(), cls)).empty()) v = viol(cls, what + ": " + m);
      v.nontrivial = !R.matches.empty();
    }
  }
  if (!a.out.empty()) v.nontrivial = true;
  if (v.kind == Verdict::VIOL) { noteHash(v, a); v.trace += traceText(a); }
  return v;
}
Verdict checkS01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].nums.size() != 1 || c.jobs[0].hasRaw) return skip();
  const Job &j = c.jobs[0];
  const Plan &p = j.plans[0];
  std::string bytes = logBytes(j, p);
  long cut = j.nums[0];
  Verdict all;
  if (cut > (long)bytes.size()) return skip();
  std::map<std::string, std::string> cache;
  uint64_t cost = 0;
  for (long k = cut < 0 ? 0 : cut; k <= (cut < 0 ? (long)bytes.size() : cut); k += cost > 20000 ? 7 : 1) {
    std::string part = bytes.substr(0, k);
    Verdict v = againstRecords(j, p, part, refRead(part, p.enc.binary), st, fmt("log cut after byte %ld of %zu", k, bytes.size()), &cache, &cost);
    if (v.kind != Verdict::OK) return v;
    st.add("fault_truncation");
    all.hash = mix64(all.hash ^ v.hash);
    if (v.nontrivial) all.nontrivial = true;
  }
  return all;
}
// ---------------------------------------------------------------- S02
static std::string junk(Rng &r) {
  static const std::vector<std::string> J = {"x", "-", "+", ".", "1e", "1e+", "nan", "inf", "0x1p3", "--1", "A", "1.2.3", "1,5", "e5", "\"1\"", "#", "1e999", "-1e999", "1e-999", "999999999999999999999999", "-3",
                                             "0x", "infinityx", "\xc3\xa9", "1_0", "NaN(123)", "\xff", "0.0000001", "A 1", "1 A", ".5", "5.", "+.5e1", "$", "$ 3"};
  return J[r.below(J.size())];
}
std::string corruptLog(Rng &r, std::string s, bool binary, const std::vector<size_t> &ends) {
  int muts = r.chance(1, 6) ? 0 : r.chance(2, 3) ? 1 : r.range(2, 4);
  for (int k = 0; k < muts; k++) {
    size_t at = s.empty() ? 0 : r.below(s.size());
    switch (r.below(9)) {
    case 0: if (!s.empty()) s[at] = (char)r.below(256); break;
    case 1: if (!s.empty()) s[at] = (char)(s[at] ^ (1 << r.below(8))); break;
    case 2: s.insert(at, 1, (char)r.below(256)); break;
    case 3: s.insert(at, junk(r)); break;
    case 4: s.erase(at, 1 + r.below(6)); break;
    case 5: s.insert(at, s.substr(at, 1 + r.below(12))); break;
    case 6: { // replace a timestamp or a field
      if (binary) { if (s.size() >= 9) { size_t q = r.below(s.size() / 9) * 9 + 1; static const double D[] = {INFINITY, -INFINITY, NAN, -1, 0, 1e300, 5e-324, 2.5}; double d = D[r.below(8)]; memcpy(&s[q], &d, 8); } }
      else { size_t q = s.find_first_of("0123456789", at); if (q != std::string::npos) { size_t e = s.find_first_not_of("0123456789.+-e", q); s.replace(q, (e == std::string::npos ? s.size() : e) - q, junk(r)); } }
      break;
    }
    case 7: s.insert(at, " "); break;
    default: { size_t q = ends.empty() ? 0 : ends[r.below(ends.size())]; if (q > s.size()) q = s.size(); s.insert(q, junk(r) + (r.below(2) ? "\n" : " ")); }
    }
  }
  if (r.chance(1, 40)) { s.clear(); for (int k = r.range(1, 80); k > 0; k--) s += (char)r.below(256); }
  return s;
}
Case genS02(Rng &r, uint64_t) {
  Case c;
  Job j;
  genCliPattern(r, j, 30);
  genJobLog(r, j, r.range(2, 16));
  bool big = r.chance(1, 60);
  if (big) bigLog(r, j);
  Plan p = genPlan(r, j);
  p.enc.binary = r.chance(1, 4);
  // foreign labels
  if (r.chance(1, 3)) for (auto &e : j.log) if (r.chance(1, 3)) { e.label = 1 + r.below(255); if (e.label == ' ' || (e.label >= 9 && e.label <= 13)) e.label = 200; }
  std::vector<size_t> ends;
  std::string s = encodeLog(j.log, p.enc, &ends);
  s = corruptLog(r, s, p.enc.binary, ends);
  j.hasRaw = true;
  j.raw = s;
  j.log.clear();
  genDelivery(r, p, s.size());
  if (big) { if (p.inBuf < 64) p.inBuf = 4096; if (p.outBuf < 64) p.outBuf = 4096; }
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkS02(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || !c.jobs[0].hasRaw) return skip();
  const Job &j = c.jobs[0];
  RefLog rl = refRead(j.raw, j.plans[0].enc.binary);
  bool neg = false, back = false;
  for (size_t k = 0; k < rl.log.size(); k++) {
    if (rl.log[k].t < 0) neg = true;
    if (k && rl.log[k].t <= rl.log[k - 1].t) back = true;
  }
  if (neg) { rl.inexact = true; st.add("negative_timestamps"); }
  else if (back) st.add("timestamps_not_increasing");
  st.add(rl.stop == 2 ? "fault_malformed_record" : rl.stop == 1 ? "fault_incomplete_record" : "fault_foreign_events_only");
  return againstRecords(j, j.plans[0], j.raw, rl, st, "corrupted log");
}
// ---------------------------------------------------------------- S03
Case genS03(Rng &r, uint64_t) {
  Case c;
  Job j;
  genCliPattern(r, j, 30);
  genJobLog(r, j, r.range(0, 16));
  if (r.chance(1, 40)) bigLog(r, j);
  Plan p = genPlan(r, j);
  sized(r, j, p);
  size_t n = logBytes(j, p).size();
  p.rerrAt = r.chance(1, 6) ? (long)n : (long)r.below(n + 1);
  static const int E[] = {5, 4, 11, 9, 12, 110};
  p.rerrNo = E[r.below(6)];
  p.rerrTransient = r.chance(1, 3);
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkS03(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].hasRaw) return skip();
  const Job &j = c.jobs[0];
  const Plan &p = j.plans[0];
  if (p.rerrAt < 0 || !logOk(j.log)) return skip();
  std::vector<size_t> ends;
  std::string bytes = logBytes(j, p, &ends);
  if (p.rerrAt > (long)bytes.size()) return skip();
  RunResult a = simRun(monaaSpec(j, p));
  st.noteRun(a);
  if (tooBig(j, a)) return tooBigSkip(st);
  Verdict v;
  std::string m = crashOf(a), cls;
  if (!m.empty()) v = viol("crash", m);
  else if (a.code == 10 && a.out.empty()) st.add("empty_pattern_exits");
  else if (a.code < 1 || a.code > 125) v = viol("status", fmt("the log failed to be read at byte %ld of %zu, but ", p.rerrAt, bytes.size()) + a.describe());
  else {
    Log pre;
    for (size_t k = 0; k < j.log.size(); k++) if (ends[k] <= (size_t)p.rerrAt) pre.push_back(j.log[k]);
    RefResult R;
    // an ASCII record is complete once something ends its timestamp
    bool open = !p.enc.binary && !p.enc.finalNewline && pre.size() == j.log.size() && !pre.empty();
    if (refJob(j, pre, R)) {
      st.add("checked_against_reference");
      m = checkReport(a, R.fed(), cls, true);
      if (!m.empty() && open) { pre.pop_back(); if (refJob(j, pre, R)) m = checkReport(a, R.fed(), cls, true); else m.clear(); }
      if (!m.empty()) v = viol(cls, fmt("read failure at byte %ld, %zu records before it: ", p.rerrAt, pre.size()) + m);
      v.nontrivial = !R.matches.empty();
    }
  }
  noteHash(v, a);
  if (v.kind == Verdict::VIOL) v.trace = traceText(a);
  return v;
}
// ---------------------------------------------------------------- O01
// kind 0: one fault at a chosen place, kind 1: at every byte, kind 2: at every I/O event
Case genO01(Rng &r, uint64_t) {
  Case c;
  Job j;
  genCliPattern(r, j, 30);
  genJobLog(r, j, r.chance(1, 12) ? r.range(30, 80) : r.range(3, 20));
  Plan p = genPlan(r, j);
  if (r.chance(1, 15)) bigLog(r, j);
  sized(r, j, p);
  if (r.chance(1, 25)) p.quiet = true;
  static const int E[] = {28, 5, 32, 27, 122, 4};
  p.wErrNo = E[r.below(6)];
  j.kind = r.chance(1, 25) ? r.range(1, 2) : 0;
  bool kill = j.kind == 2 || (j.kind == 0 && r.chance(1, 5));
  p.wTransient = !kill && r.chance(1, 6);
  // position: a fraction of the length, or a distance from the end
  j.nums = {kill, r.chance(1, 4) ? -(long)r.below(8) - 1 : (long)r.below(1001)};
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkO01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].nums.size() != 2) return skip();
  const Job &j = c.jobs[0];
  Plan p = j.plans[0];
  bool kill = j.nums[0];
  RunResult f = simRun(monaaSpec(j, p));
  st.noteRun(f);
  if (tooBig(j, f) || f.hang) return tooBigSkip(st);
  Verdict v;
  noteHash(v, f);
  if (f.signaled) { v = viol("crash", "without any fault: " + f.describe()); v.trace = traceText(f); return v; }
  if (p.quiet && !f.out.empty()) { v = viol("quiet", "-q printed something"); v.trace = traceText(f); return v; }
  if (f.code == 10) { st.add("empty_pattern_exits"); return v; }
  size_t n = kill ? f.nIo : f.out.size();
  if (f.code != 0) { v = viol("status", "without any fault: " + f.describe()); v.trace = traceText(f); return v; }
  v.nontrivial = !f.out.empty();
  std::vector<long> at;
  if (j.kind == 0) {
    if (!kill && n == 0) return v;
    if (kill && n == 0) return v;
    long k = j.nums[1] < 0 ? (long)n + j.nums[1] : (long)(n * j.nums[1] / 1000);
    if (k < 0) k = 0;
    if (!kill && k >= (long)n) k = n - 1;
    at.push_back(kill ? std::min<long>(k + 1, n) : k);
  } else {
    size_t most = f.nAllocs > 20000 ? 20 : 300, step = n > most ? n / most + 1 : 1;
    for (size_t k = 0; k < n; k += step) at.push_back(kill ? k + 1 : k);
  }
  for (long k : at) {
    if (kill) p.killAt = k; else p.wLimit = k;
    RunResult a = simRun(monaaSpec(j, p));
    st.noteRun(a);
    noteHash(v, a);
    std::string what = kill ? fmt("killed at I/O event %ld of %zu", k, n) : fmt("writing the report failed at byte %ld of %zu%s", k, n, p.wTransient ? " (once)" : "");
    std::string m = crashOf(a);
    bool prefix = a.out.size() <= f.out.size() && f.out.compare(0, a.out.size(), a.out) == 0;
    Verdict w;
    if (!m.empty()) w = viol("crash", what + ": " + m);
    else if (!kill && (a.code < 1 || a.code > 125)) w = viol("status", what + ": " + a.describe());
    else if (!(p.wTransient && !kill) && !prefix) w = viol("prefix", what + fmt(": the %zu bytes delivered are not a prefix of the report", a.out.size()));
    else if (kill && !a.killed && a.out != f.out) w = viol("incomplete", what + ": the report is not complete");
    if (w.kind == Verdict::VIOL) { w.hash = v.hash; w.nontrivial = v.nontrivial; w.trace = traceText(a); return w; }
  }
  return v;
}
