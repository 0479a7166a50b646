// D01 T01: memory layouts, and the automaton written by tre2ta
#include "props.hh"
#include "lib_ta.hh"

static bool sameSets(Fed a, Fed b, std::string &why) {
  restrictSegments(a);
  restrictSegments(b);
  Zone3 w;
  bool gave = false;
  if (!included(a, b, &w, &gave)) { why = "only the first reports " + w.str(); return false; }
  if (!included(b, a, &w, &gave)) { why = "only the second reports " + w.str(); return false; }
  return true;
}
// ---------------------------------------------------------------- D01
Case genD01(Rng &r, uint64_t) {
  Case c;
  Job j;
  j.kind = r.chance(3, 5) ? 0 : 1; // command line, library
  j.mode = j.kind == 0 ? DOLLAR : r.below(3);
  if (j.kind == 0) genCliPattern(r, j, 40); else genPattern(r, j, 0, (Mode)j.mode);
  genJobLog(r, j, r.chance(1, 15) ? r.range(30, 80) : r.range(2, 18));
  j.vec = j.kind == 1 && r.below(2);
  // patterns outside the scope of the matching properties have a result as well
  if (!j.hasTre && r.chance(1, 10)) { int s = r.below(j.ta.n()); j.ta.match[s] ^= 1; }
  if (!j.hasTre && r.chance(1, 12)) { int s = r.below(j.ta.n()); j.ta.init[s] ^= 1; }
  if (r.chance(1, 10)) for (auto &e : j.log) if (r.chance(1, 4)) e.label = 128 + r.below(128);
  Plan p = genPlan(r, j);
  genDelivery(r, p, logBytes(j, p).size());
  p.mem = MemPlan();
  p.mem.fill = 1;
  j.plans.push_back(p);
  for (int k = 0; k < 3; k++) {
    p.mem = genMem(r, false);
    if (k == 0) { p.mem.fill = 2 + r.below(3); p.mem.freeFill = 1; }
    if (k == 2 && r.chance(1, 3)) p.mem.guard = 1;
    j.plans.push_back(p);
  }
  c.jobs.push_back(j);
  return c;
}
Verdict checkD01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.empty()) return skip();
  const Job &j = c.jobs[0];
  if (j.kind == 0 && j.mode != DOLLAR && j.mode != SIGNAL) return skip();
  Verdict v;
  RunResult a;
  Fed fa;
  for (size_t k = 0; k < j.plans.size(); k++) {
    RunResult b = simRun(j.kind == 0 ? monaaSpec(j, j.plans[k]) : libSpec(j, j.plans[k]));
    st.noteRun(b);
    if (tooBig(j, b) || b.hang) return tooBigSkip(st);
    noteHash(v, b);
    Verdict w;
    std::string m;
    // whether a pattern is out of the program's scope does not depend on memory either
    if (b.heapBad) w = viol("memory", "memory misuse: " + b.heapMsg);
    else if (b.signaled && b.sig != 6) w = viol("crash", b.describe());
    else {
      Fed fb;
      bool exact = true;
      if (j.kind == 0) { if (!b.signaled && !parseReport(b.out, fb, m)) w = viol("malformed-report", m); }
      else fb = answersFed(b, -1, exact);
      if (w.kind != Verdict::VIOL) {
        if (k == 0) { a = b; fa = fb; v.nontrivial = !fa.empty(); continue; }
        if (a.signaled != b.signaled || a.code != b.code) w = viol("status", fmt("layout 0: %s; layout %zu: %s", a.describe().c_str(), k, b.describe().c_str()));
        else if (exact && !b.signaled && !sameSets(fa, fb, m)) w = viol("report", fmt("layouts 0 and %zu report different segments: ", k) + m);
        else if (!b.signaled && (a.out != b.out || !sameAnswers(a, -1, b, -1, m))) w = viol("order", fmt("layouts 0 and %zu report the same segments differently: ", k) + m);
      }
    }
    if (w.kind == Verdict::VIOL) { noteHash(w, a); noteHash(w, b); w.nontrivial = v.nontrivial; w.trace = "layout 0:\n" + (k ? traceText(a) : std::string()) + fmt("layout %zu:\n", k) + traceText(b); return w; }
  }
  return v;
}
// ---------------------------------------------------------------- T01
Spec tre2taSpec(const Job &j, const Plan &p, bool toFile);
Case genT01(Rng &r, uint64_t) {
  Case c;
  Job j;
  genPattern(r, j, 100);
  genJobLog(r, j, r.range(2, 20), r.chance(1, 4));
  for (int k = 0; k < 3; k++) {
    Plan p = genPlan(r, j);
    p.enc.finalNewline = 1;
    genDelivery(r, p, logBytes(j, p).size());
    j.plans.push_back(p);
  }
  c.jobs.push_back(j);
  return c;
}
Verdict checkT01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 3 || !c.jobs[0].hasTre) return skip();
  const Job &j = c.jobs[0];
  if (!treInScope(j.tre) || !logOk(j.log, false)) return skip();
  Verdict v;
  RunResult e = simRun(monaaSpec(j, j.plans[0]));
  st.noteRun(e);
  if (tooBig(j, e) || e.hang) return tooBigSkip(st);
  noteHash(v, e);
  Plan tp = j.plans[1];
  RunResult t = simRun(tre2taSpec(j, tp, tp.argStyle & 8));
  st.noteRun(t);
  if (t.hang) return tooBigSkip(st);
  noteHash(v, t);
  std::string m = crashOf(e), what = "monaa -e";
  const RunResult *bad = &e;
  if (m.empty()) { m = crashOf(t); what = "tre2ta"; bad = &t; }
  if (m.empty() && t.code != 0) m = t.describe();
  if (!m.empty()) { Verdict w = viol("crash", what + ": " + m); w.hash = v.hash; w.trace = traceText(*bad); return w; }
  Spec s = monaaSpec(j, j.plans[2]);
  s.argv.clear();
  if (j.plans[2].enc.binary) s.argv.push_back("-b");
  s.argv.push_back("-f");
  s.argv.push_back("pattern.dot");
  if (j.plans[2].named) { s.argv.push_back("-i"); s.argv.push_back("log.txt"); }
  VFile f;
  f.content = (tp.argStyle & 8) ? t.written.at("out.dot") : t.out;
  f.readChunks = tp.wChunks;
  s.files["pattern.dot"] = f;
  RunResult g = simRun(s);
  st.noteRun(g);
  if (tooBig(j, g) || g.hang) return tooBigSkip(st);
  noteHash(v, g);
  Verdict w;
  m = crashOf(g);
  Fed fe, fg;
  std::string why;
  if (!m.empty()) w = viol("crash", "monaa -f: " + m);
  else if (!parseReport(e.out, fe, why) || !parseReport(g.out, fg, why)) w = viol("malformed-report", why);
  else if (!(e.code == 0 || (e.code == 10 && fe.empty())) || !(g.code == 0 || (g.code == 10 && fg.empty()))) w = viol("status", "-e: " + e.describe() + "; -f: " + g.describe());
  else if (!sameSets(fe, fg, m)) w = viol("report", "-e and -f report different segments: " + m);
  if (w.kind == Verdict::VIOL) { w.hash = v.hash; w.trace = traceText(e) + traceText(g) + f.content; return w; }
  v.nontrivial = !fe.empty();
  return v;
}
