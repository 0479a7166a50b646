#include "props.hh"
#include <cmath>
bool logOk(const Log &w, bool strict) {
  i64 p = -1;
  for (auto &e : w) {
    if ((strict ? e.t <= p : e.t < p) || e.label == '$' || e.label == 0) return false;
    p = e.t;
  }
  return true;
}
bool jobInScope(const Job &j) {
  if (j.mode == SIGNAL) return j.hasTre && sigInScope(j.tre);
  if (j.hasTre) return treInScope(j.tre);
  return taInScope(j.ta, (Mode)j.mode);
}
bool refJob(const Job &j, const Log &w, RefResult &R, uint64_t limit) {
  if (!logOk(w) || !jobInScope(j)) return false;
  if (j.mode == SIGNAL) { if (!sigLogOk(w)) return false; R = refTA(sigTA(j.tre), w, PLAIN, limit); }
  else R = j.hasTre ? refTRE(j.tre, w, limit) : refTA(j.ta, w, (Mode)j.mode, limit);
  if (R.exploded || R.matches.size() > 4000) return false;
  std::vector<Match> m; // only the segments with t < t'
  for (auto &x : R.matches) {
    Zone3 z = x.z;
    z.tight(0, 1, mkB(0, true));
    z.tight(1, 2, mkB(0, false));
    z.close();
    if (!z.empty()) { x.z = z; m.push_back(x); }
  }
  R.matches.swap(m);
  return true;
}
bool tooBig(const Job &j, const RunResult &r) {
  if (r.overflow) return true;
  if (!r.hang) return false;
  // partial matches that stand at the same place are kept apart: patterns with
  // several ways to read the same events need exponential work. A run that does
  // not end because it goes in circles holds no more and more partial matches.
  if (r.peakLive > (2u << 20) || r.out.size() > (256u << 10) || r.answers.size() > 3000) return true;
  if (!j.vec)
    for (auto &e : r.events) if (e.type == EV_BLOCK || e.type == EV_READ || e.type == EV_RERR) return false;
  if (getenv("SIM_SLOW") && !j.hasTre) {
    int mc = 0;
    for (auto &e : j.ta.edges) for (auto &g : e.guard) mc = std::max(mc, g.c);
    fprintf(stderr, "toobig clocks %d const %d states %d edges %zu\n", j.ta.clocks(), mc, j.ta.n(), j.ta.edges.size());
  }
  return !smallPattern(j);
}
std::string crashOf(const RunResult &r) {
  if (r.hang) return "the run did not terminate";
  if (r.signaled && !r.killed) return fmt("the run was ended by signal %d; stderr \"%s\"", r.sig, esc(r.err, 300).c_str());
  if (r.heapBad) return "memory misuse: " + r.heapMsg;
  return "";
}
std::string compareFed(Fed got, Fed want, const char *what, std::string &cls, bool subsetOnly) {
  for (auto &z : got) {
    Zone3 c = z;
    c.close();
    if (c.empty()) { cls = "empty-zone"; return fmt("%s: an empty zone was reported: %s", what, z.str().c_str()); }
  }
  restrictSegments(got);
  restrictSegments(want);
  Zone3 w;
  bool gave = false;
  if (!included(got, want, &w, &gave)) { cls = "invented"; return fmt("%s: reported segments that do not match: %s", what, w.str().c_str()); }
  if (!subsetOnly && !included(want, got, &w, &gave)) { cls = "missed"; return fmt("%s: matching segments were not reported: %s", what, w.str().c_str()); }
  return "";
}
bool emptyPatternExit(const RunResult &r) { return r.code == 10 && r.out.empty(); }
std::string checkReport(const RunResult &r, const Fed &want, std::string &cls, bool subsetOnly) {
  Fed got;
  std::string why;
  if (!parseReport(r.out, got, why, subsetOnly)) { cls = "malformed-report"; return "the report is malformed: " + why; }
  return compareFed(got, want, "report", cls, subsetOnly);
}
Fed answersFed(const RunResult &r, int tag, bool &exact) {
  Fed f;
  exact = true;
  auto conv = [&](double v, int s) -> i64 {
    if (v == INFINITY) return INF;
    if (v == -INFINITY) return mkB(-INF / 8, false);
    double m = v * UNIT;
    if (!(std::fabs(m) < 4e15) || m != std::floor(m)) { exact = false; return 0; }
    return mkB((i64)m, s);
  };
  for (auto &a : r.answers) {
    if (tag >= 0 && a.tag != tag) continue;
    Zone3 z;
    z.d[0][1] = conv(a.v[0], a.s[0]); z.d[1][0] = conv(a.v[1], a.s[1]);
    z.d[0][2] = conv(a.v[2], a.s[2]); z.d[2][0] = conv(a.v[3], a.s[3]);
    z.d[1][2] = conv(a.v[4], a.s[4]); z.d[2][1] = conv(a.v[5], a.s[5]);
    f.push_back(z);
  }
  return f;
}
