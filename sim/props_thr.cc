// D03: operations of several threads. jobs as in D02; the schedule is the string
// "sched:..." among the strs of the first job.
#include "props.hh"
#include "sched.hh"
#include <sstream>
Spec histSpec(const std::vector<const Job *> &jobs, const Plan &base, uint64_t perJob = 400000);
Spec threadSpec(const std::vector<const Job *> &jobs, const Plan &base, const SchedPlan &sp, uint64_t perJob);
bool sameAnswers(const RunResult &a, int ta, const RunResult &b, int tb, std::string &why);
std::string textOf(const RunResult &r, int k);
bool checkHistJobs(Case &d);
Job genHistJob(Rng &r, const std::vector<Job> &before);

Case genD03(Rng &r, uint64_t) {
  Case c;
  int n = r.chance(1, 2) ? 2 : r.range(2, 4);
  bool same = r.chance(1, 4);
  for (int k = 0; k < n; k++) {
    Job j = genHistJob(r, c.jobs);
    if (j.kind <= 3 && j.log.size() > 10) j.log.resize(10);
    if (same && k && r.chance(1, 2)) { j = c.jobs[0]; j.nums[0] = -1; }
    if (r.chance(1, 2) && j.nums[0] >= 0) j.nums[0] = -1;
    c.jobs.push_back(j);
  }
  for (auto &j : c.jobs) if (j.plans.empty()) j.plans.push_back(Plan());
  c.jobs[0].plans[0].mem = genMem(r, false);
  static const unsigned Q[] = {3, 20, 100, 500, 3000, 20000};
  c.jobs[0].strs.push_back(fmt("sched:seed %llu %u %u %u", (unsigned long long)r.next() >> 1, Q[r.below(6)], r.chance(1, 2) ? 0 : (unsigned)r.range(1, 20), r.chance(1, 2) ? 300 : 3000));
  return c;
}
static bool parseSched(const Job &j, SchedPlan &p) {
  for (auto &s : j.strs)
    if (s.compare(0, 6, "sched:") == 0) {
      std::istringstream is(s.substr(6));
      std::string k;
      is >> k;
      if (k == "seed") { is >> p.seed >> p.quantum >> p.globals >> p.maxSwitches; return (bool)is && p.quantum > 0; }
      if (k == "list") { p.list = true; return true; }
    }
  return false;
}
Verdict checkD03(const Case &c, Stats &st) {
  if (!schedAvailable()) { fprintf(stderr, "sim: D03 needs the tsan build\n"); _exit(2); }
  if (c.jobs.size() < 2 || c.jobs.size() > 4 || c.jobs[0].plans.empty()) return skip();
  SchedPlan sp;
  if (!parseSched(c.jobs[0], sp)) return skip();
  sp.switches = c.nums;
  for (size_t k = 0; k < sp.switches.size(); k++) if (sp.switches[k] < 0 || (k && sp.switches[k] <= sp.switches[k - 1])) return skip();
  Case d = c;
  if (!checkHistJobs(d)) return skip();
  Plan base = d.jobs[0].plans[0];
  Verdict v;
  std::vector<RunResult> alone;
  std::vector<const Job *> all;
  for (auto &j : d.jobs) {
    RunResult a = simRun(histSpec({&j}, base, 60000));
    st.noteRun(a);
    if (a.hang || a.overflow) return tooBigSkip(st);
    if (!a.signaled && a.code == 10) { st.add("empty_pattern_exits"); return skip(); }
    noteHash(v, a);
    if (a.signaled || a.code) return skip(); // D02's business
    alone.push_back(a);
    all.push_back(&j);
  }
  RunResult h = simRun(threadSpec(all, base, sp, 90000));
  st.noteRun(h);
  if (h.hang || h.overflow) return tooBigSkip(st);
  noteHash(v, h);
  std::string m = crashOf(h), cls = "crash";
  if (m.empty() && h.code) m = h.describe();
  size_t p = h.libText.find("!race ");
  if (m.empty())
    for (size_t k = 0; k < all.size() && m.empty(); k++) {
      std::string why;
      if (!sameAnswers(h, (int)k, alone[k], 0, why)) { cls = "answers"; m = fmt("thread %zu (kind %d): ", k, all[k]->kind) + why; }
      else if (textOf(h, (int)k) != textOf(alone[k], 0)) { cls = "text"; m = fmt("thread %zu (kind %d): \"%s\" instead of \"%s\"", k, all[k]->kind, esc(textOf(h, (int)k), 300).c_str(), esc(textOf(alone[k], 0), 300).c_str()); }
    }
  if (m.empty() && p != std::string::npos) { cls = "race"; m = h.libText.substr(p + 1, h.libText.find('\n', p) - p - 1); }
  v.nontrivial = !h.answers.empty() && h.switches > 1;
  st.add("threads", all.size());
  for (auto *j : all) { if (j->nums[1] > 0) st.add("abandonments_armed"); if (j->nums[0] >= 0) st.add("automaton_objects_shared"); if (j->plans[0].rerrAt >= 0) st.add("read_failures_armed"); }
  if (m.empty()) return v;
  Verdict w = viol(cls, m);
  w.hash = v.hash;
  w.nontrivial = true;
  std::string tr;
  std::vector<long> sw;
  size_t shown = 0;
  for (auto &e : h.events)
    if (e.type == EV_SWITCH) {
      sw.push_back((long)e.b * 8 + (e.a & 255));
      if (shown++ < 200) tr += fmt("  at point %llu thread %u -> %u\n", (unsigned long long)e.b, e.a >> 8, e.a & 255);
    }
  w.trace = fmt("%zu switches\n", sw.size()) + tr + traceText(h);
  if (!sp.list) {
    w.concrete = std::make_shared<Case>(c);
    for (auto &s : w.concrete->jobs[0].strs) if (s.compare(0, 6, "sched:") == 0) s = "sched:list";
    w.concrete->nums = sw;
  }
  return w;
}
