// L01 L02: online reporting and bounded memory
#include "props.hh"
#include "lib_ta.hh"

// deliveries made of whole and broken records
static void recordChunks(Rng &r, Plan &p, const std::vector<size_t> &ends, size_t total, int perChunk) {
  p.chunks.clear();
  size_t at = 0, k = 0;
  int style = r.below(3);
  while (at < total && p.chunks.size() < 3000) {
    size_t to;
    k += perChunk > 1 ? 1 + r.below(perChunk) : 1;
    to = k <= ends.size() ? ends[k - 1] : total;
    if (style == 1 && r.chance(1, 3) && to > at + 1) { size_t mid = at + 1 + r.below(to - at - 1); p.chunks.push_back({(uint32_t)(mid - at), (uint32_t)r.below(1000000)}); at = mid; }
    if (to > at) { p.chunks.push_back({(uint32_t)(to - at), (uint32_t)r.below(1000000)}); at = to; }
    if (k > ends.size()) break;
  }
}
// ---------------------------------------------------------------- L01
Case genL01(Rng &r, uint64_t) {
  Case c;
  Job j;
  j.kind = r.chance(2, 3) ? 0 : 1; // command line, library
  j.mode = j.kind == 0 ? DOLLAR : r.below(3);
  genPattern(r, j, 0, (Mode)j.mode);
  genJobLog(r, j, r.chance(1, 15) ? r.range(30, 60) : r.range(4, 24));
  Plan p = genPlan(r, j);
  p.outBuf = r.chance(1, 4) ? 0 : -1; // as on a terminal
  std::vector<size_t> ends;
  size_t n = logBytes(j, p, &ends).size();
  recordChunks(r, p, ends, n, r.chance(1, 4) ? 3 : 1);
  if (r.chance(1, 10)) genDelivery(r, p, n), p.outBuf = -1;
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkL01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].hasTre || c.jobs[0].vec || c.jobs[0].hasRaw) return skip();
  const Job &j = c.jobs[0];
  const Plan &p = j.plans[0];
  if (j.kind == 0 && (j.mode != DOLLAR || p.outBuf > 0)) return skip();
  RefResult R;
  if (!refJob(j, j.log, R)) return skip();
  RunResult a = simRun(j.kind == 0 ? monaaSpec(j, p) : libSpec(j, p));
  st.noteRun(a);
  if (tooBig(j, a)) return tooBigSkip(st);
  Verdict v;
  std::string m = crashOf(a);
  if (!m.empty()) { v = viol("crash", m); noteHash(v, a); v.trace = traceText(a); return v; }
  noteHash(v, a);
  if (a.code == 10) { if (!R.matches.empty()) v = viol("status", a.describe()); return v; }
  std::vector<size_t> ends;
  logBytes(j, p, &ends);
  // when is a match due: its last event, and the events that decide the attempts from earlier starts
  // (what decides the attempt it belongs to comes after it)
  int n = (int)j.log.size();
  std::vector<int> dead(n + 1, -1);
  for (int i = 0, d = -1; i < n; i++) { d = std::max(d, R.death[i]); dead[i] = d; }
  bool cli = j.kind == 0;
  Fed ans;
  bool exact = true;
  if (!cli) ans = answersFed(a, -1, exact);
  if (!exact) return v;
  size_t doneDue = 0;
  int looked = 0;
  for (auto &e : a.events) {
    if (e.type != EV_BLOCK) continue;
    size_t r = 0; // records delivered
    while (r < ends.size() && ends[r] <= e.b) r++;
    if (!p.enc.binary && !p.enc.finalNewline && r == ends.size() && r) r--;
    Fed due;
    for (auto &x : R.matches) if (std::max(x.j, x.i ? dead[x.i - 1] : -1) < (int)r) due.push_back(x.z);
    if (due.size() == doneDue) continue;
    doneDue = due.size();
    if (++looked > 40) break;
    v.nontrivial = true;
    Fed got;
    if (cli) { std::string why; if (!parseReport(a.out.substr(0, e.out), got, why, true)) { v = viol("malformed-report", why); noteHash(v, a); v.trace = traceText(a); return v; } }
    else got.assign(ans.begin(), ans.begin() + std::min<size_t>(e.ans, ans.size()));
    restrictSegments(got);
    restrictSegments(due);
    Zone3 w;
    bool gave = false;
    if (!included(due, got, &w, &gave)) {
      v = viol("late", fmt("waiting for more of the log after %zu records although %s, which is decided by them, was not yet %s", r, w.str().c_str(), cli ? "printed" : "handed over"));
      noteHash(v, a);
      v.nontrivial = true;
      v.trace = traceText(a);
      return v;
    }
  }
  st.add("waits_checked", looked);
  if (looked) st.add("runs_with_due_matches");
  return v;
}
// ---------------------------------------------------------------- L02
Case genL02(Rng &r, uint64_t) {
  Case c;
  Job j;
  j.kind = r.chance(3, 5) ? 0 : 1;
  j.mode = j.kind == 0 ? DOLLAR : r.below(3);
  int len = r.range(2500, 6000);
  bool cyc = r.chance(1, 3);
  if (j.kind == 0 && r.chance(1, 4)) {
    TreOpt o;
    o.letters = genLetters(r);
    o.size = r.range(2, 5);
    o.maxConst = 3;
    o.bounded = true;
    j.hasTre = true;
    j.tre = genTre(r, o);
    j.strs = {o.letters};
  } else {
    TaOpt o;
    o.mode = (Mode)j.mode;
    o.letters = genLetters(r);
    o.acyclic = !cyc;
    o.maxStates = r.range(2, 4);
    o.maxClocks = r.below(3);
    o.maxConst = cyc || o.maxClocks == 2 ? 1 : r.range(1, 3);
    j.ta = genTA(r, o);
    j.strs = {o.letters};
  }
  // one piece of steered log, repeated: what is held must repeat as well.
  // In a cyclic pattern an event it cannot read ends every attempt now and then
  i64 off = 0;
  Log all;
  int piece = r.range(40, 300);
  while ((int)all.size() < piece) {
    genJobLog(r, j, cyc ? r.range(4, 9) : r.range(30, 100));
    if (cyc || r.chance(1, 2)) j.log.push_back({(unsigned char)'~', (j.log.empty() ? 0 : j.log.back().t) + UNIT});
    i64 base = j.log.empty() ? 0 : j.log[0].t;
    for (auto &e : j.log) { e.t = e.t - base + off + UNIT; all.push_back(e); }
    if (!all.empty()) off = all.back().t;
  }
  j.log.swap(all);
  j.nums = {len / (long)j.log.size() + 8, (long)(r.next() >> 2)};
  Plan p = genPlan(r, j);
  p.outBuf = r.chance(1, 2) ? -1 : 4096;
  p.enc.style = 0; // reading a very long number takes memory for a moment
  p.mem.guard = 0;
  p.chunks.clear();
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkL02(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].vec || c.jobs[0].hasRaw) return skip();
  Job j = c.jobs[0];
  if (j.plans[0].enc.style) return skip();
  if (j.nums.size() != 2 || j.nums[0] < 8 || j.nums[0] > 1000 || j.log.empty() || j.log.size() > 1000 || !logOk(j.log)) return skip();
  Log piece = j.log;
  i64 period = piece.back().t - piece[0].t + UNIT;
  j.log.clear();
  for (long k = 0; k < j.nums[0]; k++) for (auto &e : piece) j.log.push_back({e.label, e.t + k * period});
  {
    std::vector<size_t> ends;
    size_t n = logBytes(j, j.plans[0], &ends).size();
    // one record at a time, so that every repetition is sampled alike
    auto &ch = j.plans[0].chunks;
    ch.clear();
    for (size_t k = 0, at = 0; k < ends.size(); at = ends[k++]) ch.push_back({(uint32_t)(ends[k] - at), (uint32_t)(j.nums[1] % 1000)});
    (void)n;
  }
  Spec s = j.kind == 0 ? monaaSpec(j, j.plans[0]) : libSpec(j, j.plans[0]);
  s.maxAllocs = 20000000;
  RunResult a = simRun(s);
  st.noteRun(a);
  if (tooBig(j, a) || a.hang) return tooBigSkip(st);
  Verdict v;
  std::string m = crashOf(a);
  noteHash(v, a);
  if (!m.empty()) v = viol("crash", m);
  else if (a.code == 10) return v;
  else {
    std::vector<const Event *> b;
    for (auto &e : a.events) if (e.type == EV_BLOCK) b.push_back(&e);
    if (b.size() < 40) return skip();
    uint64_t early = 0, late = 0, base = b[0]->live;
    size_t quarter = b.size() / 4;
    for (size_t k = 0; k < b.size(); k++) {
      uint64_t g = b[k]->live > base ? b[k]->live - base : 0;
      if (k < quarter) early = std::max(early, g); else if (k >= 3 * quarter) late = std::max(late, g);
    }
    v.nontrivial = !a.out.empty() || !a.answers.empty();
    st.add("events_streamed", j.log.size());
    st.add("repetitions", j.nums[0]);
    if (late > early + early / 4 + 3072)
      v = viol("growth", fmt("memory held beyond the pattern's tables while the same %zu events repeat %ld times: at most %llu bytes in the first quarter, %llu bytes in the last", piece.size(), j.nums[0], (unsigned long long)early, (unsigned long long)late));
  }
  if (v.kind == Verdict::VIOL) { noteHash(v, a); v.trace = traceText(a); }
  return v;
}
