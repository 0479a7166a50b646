// W01 D02: histories of operations within one process
#include "props.hh"
#include "lib_ta.hh"
#include <sstream>

// ---------------------------------------------------------------- W01
// operations: code%4: 0 fetch, 1 at, 2 setFront, 3 size; code/4: the index
// the log of a job, kind times over: positions that are large are like small ones
static void repeatLog(Job &j) {
  Log w;
  for (int k = 0; k < j.kind; k++) for (auto &e : j.log) w.push_back({e.label, e.t + k * UNIT});
  if (j.kind) j.log.swap(w);
}
Case genW01(Rng &r, uint64_t) {
  Case c;
  Job j;
  int len = r.chance(1, 20) ? r.range(200, 900) : r.chance(1, 6) ? r.range(0, 2) : r.range(3, 25);
  i64 t = 0;
  for (int k = 0; k < len; k++) {
    t += r.chance(1, 5) ? (i64)r.below(5000000) - 1000000 : (i64)r.below(5 * UNIT);
    if (t < 0) t = 0;
    j.log.push_back({(unsigned char)(r.chance(1, 6) ? 1 + r.below(255) : 'a' + r.below(4)), t});
    if (j.log.back().label == ' ' || (j.log.back().label >= 9 && j.log.back().label <= 13)) j.log.back().label = 0xc3;
  }
  if (len > 2 && r.chance(1, 500)) j.kind = (r.chance(1, 3) ? 66500 : 33500) / len + 1;
  Plan p = genPlan(r, j);
  Job all = j;
  repeatLog(all);
  if (j.kind) { p.mem.guard = 0; len = all.log.size(); }
  size_t n = logBytes(all, p).size();
  genDelivery(r, p, n);
  if (j.kind && p.inBuf < 64) p.inBuf = 4096;
  if (r.chance(1, 6)) { p.rerrAt = (long)r.below(n + 1); p.rerrTransient = r.below(2); }
  long front = 0, seen = 0;
  int ops = r.range(3, 60);
  for (int k = 0; k < ops; k++) {
    long at;
    switch (r.below(6)) {
    case 0: at = r.below(len + 4); break;
    case 1: at = seen; break;
    case 2: at = front; break;
    case 3: at = std::max(0L, front - 1 - (long)r.below(3)); break;
    default: at = front + r.below(8);
    }
    if (j.kind && r.chance(1, 3)) { static const long far[] = {255, 4095, 32767, 65535}; at = far[r.below(4)] + r.range(-3, 6); }
    int op = r.chance(2, 5) ? 0 : r.chance(1, 2) ? 1 : r.chance(2, 3) ? 2 : 3;
    if (op == 2) { if (at > front + 6 && r.chance(2, 3)) at = front + 1; front = std::max(front, at); }
    if (op == 0) seen = std::max(seen, at + 1);
    c.nums.push_back(at * 4 + op);
  }
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Spec wordSpecOf(const Job &j, const Plan &p);
Verdict checkW01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].hasRaw) return skip();
  Job j = c.jobs[0];
  if (j.kind < 0 || j.kind * j.log.size() > 200000) return skip();
  if (j.kind) st.add("long_logs");
  repeatLog(j);
  const Plan &p = j.plans[0];
  std::vector<size_t> ends;
  std::string bytes = logBytes(j, p, &ends);
  if (p.rerrAt > (long)bytes.size()) return skip();
  j.nums = c.nums;
  for (long x : j.nums) if (x < 0 || x / 4 > 100000) return skip();
  // the records that can be read: those before a read failure
  long N = 0, alt;
  while (N < (long)j.log.size() && (p.rerrAt < 0 || (long)ends[N] <= p.rerrAt)) N++;
  alt = N;
  if (p.rerrAt >= 0 && !p.enc.binary && !p.enc.finalNewline && N == (long)j.log.size() && N) alt = N - 1; // not terminated
  RunResult a = simRun(wordSpecOf(j, p));
  st.noteRun(a);
  if (a.overflow) return skip();
  Verdict v;
  noteHash(v, a);
  std::string m = crashOf(a);
  if (m.empty() && a.code != 0) m = a.describe();
  if (!m.empty()) { v = viol("crash", m); noteHash(v, a); v.trace = traceText(a); return v; }
  auto model = [&](long N) -> std::string {
    std::istringstream is(a.libText);
    long front = 0, win = 0; // fetched: [front, win)
    bool ended = false;
    for (size_t k = 0; k < c.nums.size(); k++) {
      long n = c.nums[k] / 4;
      std::string got, want, l;
      if (!std::getline(is, l)) return fmt("operation %zu gave no answer", k);
      got = l;
      switch (c.nums[k] % 4) {
      case 0: {
        bool ok = n >= front && n < N;
        if (n >= front && n >= N) { ended = true; win = std::max(win, N); }
        if (ok) win = std::max(win, n + 1);
        want = fmt("fetch %ld %d", n, ok);
        break;
      }
      case 1:
        if (n >= front && n < win) { double t = (double)j.log[n].t / UNIT; want = fmt("at %ld %d %a", n, j.log[n].label, t); }
        else want = fmt("at %ld out_of_range", n);
        break;
      case 2:
        if (n < front) want = fmt("setFront %ld out_of_range", n);
        else {
          want = fmt("setFront %ld ok", n);
          if (n > win && n > N) ended = true;
          front = n;
          win = std::max(win, front);
        }
        break;
      default:
        want = fmt("size %ld", N);
        if (!ended && got == "size unknown") want = got;
      }
      if (got != want) return fmt("operation %zu of a log of %ld records, window [%ld, %ld): expected \"%s\", got \"%s\"", k, N, front, win, want.c_str(), got.c_str());
    }
    return "";
  };
  m = model(N);
  if (!m.empty() && alt != N) m = model(alt);
  if (!m.empty()) { v = viol("container", m); noteHash(v, a); v.trace = traceText(a) + a.libText; }
  for (long x : c.nums) if (x % 4 == 2) v.nontrivial = true;
  st.add("operations", c.nums.size());
  return v;
}
// ---------------------------------------------------------------- D02
// job.kind: 0 match an automaton built in memory, 1 parse its text and match, 2 translate an expression and match,
// 3 translate an expression and print the automaton, 4 an expression that does not parse, 5 a graph that does not parse
// job.nums[0]: reuse the automaton object of that earlier job (or -1); nums[1]: the answer at which the container throws (or -1)
Spec histSpec(const std::vector<const Job *> &jobs, const Plan &base, uint64_t perJob = 400000);
// an automaton of the same shape: the objects of a later operation may take the places of those of an earlier one
static TA sibling(Rng &r, TA t) {
  for (int k = r.range(1, 3); k > 0 && !t.edges.empty(); k--) {
    auto &e = t.edges[r.below(t.edges.size())];
    switch (r.below(5)) {
    case 0: e.label = t.edges[r.below(t.edges.size())].label; break;
    case 1: std::swap(e.label, t.edges[r.below(t.edges.size())].label); break;
    case 2: e.guard.clear(); break;
    case 3: if (!e.guard.empty()) { auto &g = e.guard[r.below(e.guard.size())]; g.c = std::max(0, g.c + (r.below(2) ? 1 : -1)); } break;
    default: e.resets = t.edges[r.below(t.edges.size())].resets;
    }
  }
  return t;
}
Job genHistJob(Rng &r, const std::vector<Job> &before) {
  Job j;
  static const int K[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5};
  j.kind = K[r.below(11)];
  j.nums = {-1, -1};
  j.mode = j.kind == 2 ? DOLLAR : r.below(3);
  long ref = before.empty() ? -1 : (long)r.below(before.size());
  if (ref >= 0 && before[ref].kind <= 2 && j.kind <= 2 && r.chance(1, 2)) { // the same automaton object again
    long keep = before[ref].nums[0] >= 0 ? before[ref].nums[0] : ref;
    const Job &b = before[ref];
    j.kind = b.kind; j.hasTre = b.hasTre; j.tre = b.tre; j.treStyle = b.treStyle; j.ta = b.ta; j.strs = b.strs; j.mode = r.chance(2, 3) ? b.mode : j.mode;
    if (b.hasTre) j.mode = b.mode;
    j.nums[0] = keep;
  } else if (j.kind == 4) { j.strs = {std::vector<std::string>{"(A$", "A)$", "A%(1,", "|A$", "A$%", "A|", "A%(2)$", "((A)"}[r.below(8)]}; return j; }
  else {
    if ((j.kind == 2 || j.kind == 3) && r.chance(1, 3)) genSignal(r, j);
    else genPattern(r, j, j.kind == 2 || j.kind == 3 ? 100 : 0, (Mode)j.mode);
    if (j.kind == 5) { std::string d = j.ta.dot(); j.strs = {d.substr(0, r.below(d.rfind('}') + 1))}; return j; }
    if (j.kind == 3) return j;
  }
  if (j.nums[0] < 0 && j.kind <= 1 && ref >= 0 && before[ref].kind <= 1 && r.chance(1, 2)) { j.ta = sibling(r, before[ref].ta); j.strs = before[ref].strs; }
  j.vec = r.chance(1, 4);
  genJobLog(r, j, r.range(2, 14));
  if (r.chance(1, 3)) j.nums[1] = 1 + (long)r.below(r.chance(1, 2) ? 3 : 12);
  Plan p = genPlan(r, j);
  size_t n = logBytes(j, p).size();
  genDelivery(r, p, n);
  if (r.chance(1, 8)) p.rerrAt = (long)r.below(n + 1);
  j.plans.push_back(p);
  return j;
}
Case genD02(Rng &r, uint64_t) {
  Case c;
  int n = r.range(2, 6);
  for (int k = 0; k < n; k++) c.jobs.push_back(genHistJob(r, c.jobs));
  for (auto &j : c.jobs) if (j.plans.empty()) j.plans.push_back(Plan());
  c.jobs[0].plans[0].mem = genMem(r, false);
  return c;
}
bool sameAnswers(const RunResult &a, int ta, const RunResult &b, int tb, std::string &why) {
  std::vector<const Answer *> x, y;
  for (auto &q : a.answers) if (ta < 0 || q.tag == ta) x.push_back(&q);
  for (auto &q : b.answers) if (tb < 0 || q.tag == tb) y.push_back(&q);
  if (x.size() == y.size()) {
    size_t k = 0;
    while (k < x.size() && !memcmp(x[k]->v, y[k]->v, sizeof x[k]->v) && !memcmp(x[k]->s, y[k]->s, sizeof x[k]->s)) k++;
    if (k == x.size()) return true;
    why = fmt("answer %zu of %zu differs", k, x.size());
  } else why = fmt("%zu answers instead of %zu", x.size(), y.size());
  return false;
}
// the lines of the text that belong to operation k
std::string textOf(const RunResult &r, int k) {
  std::istringstream is(r.libText);
  std::string l, o, tag = fmt("%d|", k);
  while (std::getline(is, l)) if (l.compare(0, tag.size(), tag) == 0) o += l.substr(tag.size()) + "\n";
  return o;
}
// drops references to jobs that are gone
bool checkHistJobs(Case &d) {
  for (size_t k = 0; k < d.jobs.size(); k++) {
    Job &j = d.jobs[k];
    if (j.nums.size() != 2 || j.plans.size() != 1) return false;
    if (j.nums[0] >= (long)k || (j.nums[0] >= 0 && (d.jobs[j.nums[0]].kind != j.kind || (d.jobs[j.nums[0]].mode == SIGNAL) != (j.mode == SIGNAL) || j.kind > 2 || d.jobs[j.nums[0]].ta.ser() != j.ta.ser() || (j.tre && (!d.jobs[j.nums[0]].tre || treSer(d.jobs[j.nums[0]].tre) != treSer(j.tre)))))) j.nums[0] = -1;
    if (j.kind == 2 || j.kind == 3) { if (!j.tre) return false; }
    else if (j.kind <= 1 && j.ta.n() == 0) return false;
    else if (j.kind >= 4 && j.strs.empty()) return false;
  }
  return true;
}
Verdict checkD02(const Case &c, Stats &st) {
  if (c.jobs.empty() || c.jobs[0].plans.empty()) return skip();
  Case d = c;
  if (!checkHistJobs(d)) return skip();
  Plan base = d.jobs[0].plans[0];
  Verdict v;
  std::vector<RunResult> alone;
  for (size_t k = 0; k < d.jobs.size();) {
    RunResult a = simRun(histSpec({&d.jobs[k]}, base));
    st.noteRun(a);
    if (a.hang || a.overflow) return tooBigSkip(st);
    if (!a.signaled && a.code == 10) { // the library ends the process for a pattern that cannot match: no part of a history
      st.add("empty_pattern_exits");
      for (size_t q = k + 1; q < d.jobs.size(); q++) { long &ref = d.jobs[q].nums[0]; if (ref == (long)k) ref = -1; else if (ref > (long)k) ref--; }
      d.jobs.erase(d.jobs.begin() + k);
      continue;
    }
    noteHash(v, a);
    alone.push_back(a);
    k++;
  }
  if (d.jobs.size() < 2 || !checkHistJobs(d)) return skip();
  std::vector<const Job *> all;
  for (auto &j : d.jobs) all.push_back(&j);
  RunResult h = simRun(histSpec(all, base));
  st.noteRun(h);
  if (h.hang || h.overflow) return tooBigSkip(st);
  noteHash(v, h);
  std::string m = crashOf(h);
  if (m.empty() && h.code) m = h.describe();
  for (size_t k = 0; k < all.size(); k++) {
    const RunResult &a = alone[k];
    std::string why;
    Verdict w;
    if (a.signaled || a.code) w = viol("crash", fmt("operation %zu alone: ", k) + a.describe());
    else if (!m.empty()) continue;
    else if (!sameAnswers(h, (int)k, a, 0, why)) w = viol("answers", fmt("operation %zu (kind %d) after the others: ", k, all[k]->kind) + why);
    else if (textOf(h, (int)k) != textOf(a, 0)) w = viol("text", fmt("operation %zu (kind %d) after the others: \"%s\" instead of \"%s\"", k, all[k]->kind, esc(textOf(h, (int)k), 300).c_str(), esc(textOf(a, 0), 300).c_str()));
    if (w.kind == Verdict::VIOL) { w.hash = v.hash; w.nontrivial = true; w.trace = traceText(h) + "alone:\n" + traceText(a); return w; }
  }
  if (!m.empty()) { Verdict w = viol("crash", "history: " + m); w.hash = v.hash; w.trace = traceText(h); return w; }
  v.nontrivial = !h.answers.empty();
  st.add("operations", all.size());
  for (auto *j : all) { if (j->nums[1] > 0) st.add("abandonments_armed"); if (j->nums[0] >= 0) st.add("automaton_objects_reused"); if (j->plans[0].rerrAt >= 0) st.add("read_failures_armed"); }
  st.add("abandonments", [&] { size_t n = 0, p = 0; while ((p = h.libText.find("abandoned", p)) != std::string::npos) { n++; p++; } return n; }());
  return v;
}
