// F01 F02 F03: allocation failure, unreadable patterns and logs, undeliverable automata
#include "props.hh"

long place(long code, uint64_t n) {
  if (n == 0) return 0;
  long k = code < 0 ? (long)n + code : code <= 1000 ? (long)(n * code / 1000) : (code - 1001) % (long)n;
  return k < 0 ? 0 : k >= (long)n ? (long)n - 1 : k;
}
long genPlace(Rng &r) {
  switch (r.below(4)) {
  case 0: return -(long)r.below(12) - 1;
  case 1: return 1001 + (long)r.logUpTo(3000);
  default: return (long)r.below(1001);
  }
}
// ---------------------------------------------------------------- F01
// how an execution under allocation failure may end
static std::string oomOutcome(const RunResult &a, const std::string &got, const std::string &full, std::string &cls) {
  cls = "crash";
  if (a.hang) return "the run did not terminate";
  if (a.heapBad) return "memory misuse: " + a.heapMsg;
  if (a.signaled && a.sig != 6) return fmt("ended by signal %d", a.sig);
  cls = "prefix";
  if (!isPrefix(got, full)) return fmt("the %zu bytes delivered are not a prefix of the %zu that are due", got.size(), full.size());
  cls = "status";
  if (!a.signaled && a.code == 0 && got != full) return fmt("exit status 0 although only %zu of %zu bytes were delivered", got.size(), full.size());
  return "";
}
Case genF01(Rng &r, uint64_t) {
  Case c;
  Job j;
  genCliPattern(r, j, 35);
  genJobLog(r, j, r.chance(1, 12) ? r.range(30, 60) : r.range(2, 16));
  Plan p = genPlan(r, j);
  p.mem.guard = 0;
  if (r.chance(1, 8)) p.mem.guard = 1;
  genDelivery(r, p, logBytes(j, p).size());
  p.mem.failPersist = r.chance(1, 2);
  if (r.chance(1, 30)) p.quiet = true;
  j.nums = {genPlace(r), genPlace(r)};
  if (r.chance(1, 40)) { j.nums.clear(); for (int k = 0; k < 150; k++) j.nums.push_back(k < 50 ? -1 - k : 1001 + (long)r.logUpTo(100000)); }
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkF01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].nums.empty()) return skip();
  const Job &j = c.jobs[0];
  Plan p = j.plans[0];
  p.mem.failAt = -1;
  RunResult f = simRun(monaaSpec(j, p));
  st.noteRun(f);
  if (tooBig(j, f) || f.hang) return tooBigSkip(st);
  if (f.signaled || (f.code != 0 && f.code != 10)) { Verdict v = viol("crash", "without any fault: " + f.describe()); noteHash(v, f); v.trace = traceText(f); return v; }
  Verdict v;
  noteHash(v, f);
  v.nontrivial = !f.out.empty();
  for (long code : j.nums) {
    p.mem.failAt = place(code, f.nAllocs) + 1;
    RunResult a = simRun(monaaSpec(j, p));
    st.noteRun(a);
    noteHash(v, a);
    if (a.overflow) continue;
    if (a.signaled && !a.hang) st.add("ended_by_abort");
    std::string cls, m = oomOutcome(a, a.out, f.out, cls);
    // reading a long number takes memory: then the log ends before its record, and the exit status says so
    if (cls == "prefix" && !m.empty() && !a.signaled && a.code >= 1 && a.code <= 125)
      for (size_t k = j.log.size(); k-- > 0 && !m.empty();) {
        Job cut = j;
        cut.log.resize(k);
        Plan clean = p;
        clean.mem.failAt = -1;
        RunResult g = simRun(monaaSpec(cut, clean));
        st.noteRun(g);
        if (!tooBig(cut, g) && !g.hang && !g.signaled && isPrefix(a.out, g.out)) { m.clear(); st.add("logs_cut_by_allocation_failure"); }
      }
    if (!m.empty()) {
      Verdict w = viol(cls, fmt("allocation %ld of %llu failed%s: ", p.mem.failAt, (unsigned long long)f.nAllocs, p.mem.failPersist ? " and all later ones" : "") + m);
      w.hash = v.hash; w.nontrivial = v.nontrivial; w.trace = traceText(a);
      return w;
    }
  }
  return v;
}
// ---------------------------------------------------------------- F02
enum { TA_OPEN = 0, TA_READ, TA_CUT, LOG_OPEN, CMDLINE, BAD_TRE, T2_CMDLINE, T2_BAD_TRE, TA_CORRUPT, TA_INVALID };
static std::vector<std::string> badCommand(Rng &r, bool tre2ta) {
  static const std::vector<std::vector<std::string>> M = {
    {"--no-such-option", "-e", "A$"}, {"-z", "-e", "A$"}, {"-e"}, {"-f"}, {"-e", "A$", "-i"}, {"-a", "-b", "-e", "A$"}, {"-S", "-E", "-e", "A$"}, {"-S", "-f", "pattern.dot"},
    {"-e", "A$", "-f", "pattern.dot"}, {"-f", "pattern.dot", "-e", "A$", "log.txt"}, {"--binary", "--ascii", "-f", "pattern.dot"}, {"-f", "missing.dot"}, {"-f", ""  "no/such/dir/x.dot", "log.txt"},
    {"-e", "A$", "-i", "missing.log"}, {"-e", "A$", "missing.log"}, {"A$", "missing.log"}, {"-e", "A$", "-e", "B$"}, {"--expression"}, {"--automaton=pattern.dot", "--expression=A$"}, {"--binary=1", "-e", "A$"},
    {"-q", "-f", "missing.dot"}, {"-b", "-a", "A$"}};
  static const std::vector<std::vector<std::string>> T = {{"--no-such-option"}, {"-z", "A$"}, {"-e"}, {"-o"}, {"-e", "A$", "-o"}, {"-e", "A$", "-e", "B$"}, {"-o", "a", "-o", "b", "-e", "A$"}, {"--output"}, {"-e", "A$", "-o", "no/such/dir/x.dot"}};
  return tre2ta ? r.pick(T) : r.pick(M);
}
static std::string badTre(Rng &r) {
  TreOpt o;
  o.letters = genLetters(r);
  o.size = r.range(1, 6);
  TreP t = genTre(r, o);
  std::string s = treStr(t, 0);
  auto strip = [&](const std::string &set) { // remove one character of the set
    std::vector<size_t> at;
    for (size_t i = 0; i < s.size(); i++) if (set.find(s[i]) != std::string::npos) at.push_back(i);
    if (at.empty()) return false;
    s.erase(at[r.below(at.size())], 1);
    return true;
  };
  switch (r.below(9)) {
  case 0: if (strip("()")) return s; return s + ")";
  case 1: return s + ")";
  case 2: return "(" + s;
  case 3: return s + "|";
  case 4: return "|" + s;
  case 5: return s + "%";
  case 6: return s + "%(1,";
  case 7: { static const std::vector<std::string> X = {"", "#", "A#$", "()", "A%()", "A%(1 2)$", "A%(1,2", "A%1,2)$", "*A$", "+A$", "A$%", "A$(", "A&&B$", "A||B$", "&", "%(1,2)", "A\xc3\xa9$", "A$;", "A%(,2)$", "A%(a,2)$", "1A$", "A%(1;2)$"};
            std::string x = r.pick(X); return x.empty() ? "(" : x; }
  default: return s + "&";
  }
}
static std::string mutateDot(Rng &r, std::string s) {
  static const std::vector<std::string> J = {"{", "}", "[", "]", ";", "\"", "->", "x", "x0", "<", ">=", ",", "guard", "label=\"", "0", "9", "-1", "2147483647", "99999999999", "x1000 < 1", "init=2", "match=1", "$", "\\", "/*", "//", "\n", "subgraph a {", "digraph", "\xff", "A", "AB", " "};
  int n = r.range(1, 3);
  for (int k = 0; k < n; k++) {
    size_t at = s.empty() ? 0 : r.below(s.size());
    switch (r.below(6)) {
    case 0: if (!s.empty()) s[at] = (char)r.below(256); break;
    case 1: s.erase(at, 1 + r.below(5)); break;
    case 2: s.insert(at, r.pick(J)); break;
    case 3: s.insert(at, s.substr(at, 1 + r.below(30))); break;
    case 4: { size_t q = s.find_first_of("0123456789", at); if (q != std::string::npos) s[q] = '0' + r.below(10); break; }
    default: { size_t a = s.find('\n', at); if (a != std::string::npos) { size_t b = s.find('\n', a + 1); if (b != std::string::npos) s.erase(a, b - a); } }
    }
  }
  return s;
}
// an automaton with one attribute whose value is outside the format
static std::string invalidDot(Rng &r, std::string s) {
  static const std::vector<std::string> OP = {"=<", "=>", "==", "=", "<>", "!=", "><", "!", "<<", ">>", "<-", ">-", "\xe2\x89\xa4", "lt", "~", "<==", ">=="};
  static const std::vector<std::string> G = {"{x0 < }", "{x0 < a}", "{x0 < 1", "x0 < 1", "{y0 < 1}", "{x < 1}", "{x0 < 1,, x0 > 0}", "{x0 < 99999999999}", "{x256 < 1}", "{x300 <= 9}", "{x-1 < 2}", "{x0 < 1.5}", "{x0 < 1 x0 > 0}", "{x0 < 1} 1", "{1 < x0}", "{x0 < 1; x0 > 0}", "{x0 < 1}}", "{{x0 < 1}", "true", "{x0 < x1}", "{x0 < 2147483648}"};
  static const std::vector<std::string> R = {"{a}", "{0", "0", "{0;1}", "{0,,1}", "{256}", "{-1}", "{1000}", "{0} 1", "{x0}", "{0, }", "{0.5}", "0, 1", "{0 1}", "{99999999999}"};
  static const std::vector<std::string> L = {"AB", "", "\xc3\xa9", "\xff", "\x80", "A1", "x0"};
  static const std::vector<std::string> B = {"2", "yes", "true", "x", "10", "false"};
  static const char *A[] = {"guard", "guard", "guard", "reset", "label", "init", "match"};
  std::string attr = A[r.below(7)], val;
  if (attr == "guard") val = r.chance(1, 2) ? r.pick(G) : fmt("{%sx%d %s %d}", r.chance(1, 3) ? "x0 < 9, " : "", (int)r.below(2), r.pick(OP).c_str(), (int)r.below(5));
  else val = r.pick(attr == "reset" ? R : attr == "label" ? L : B);
  bool edge = attr != "init" && attr != "match";
  std::vector<size_t> at; // statements of the right sort
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) break;
    size_t b = s.find('[', i);
    if (b < e && (s.find("->", i) < e) == edge && s.find("/*", i) >= e && s.find("//", i) >= e) at.push_back(i);
    i = e + 1;
  }
  if (at.empty()) return "";
  size_t i = r.pick(at), e = s.find('\n', i), p = s.find(attr + "=", i);
  std::string put = attr + "=\"" + val + "\"";
  if (p < e) { // in place of the value that is there
    size_t q = p + attr.size() + 1;
    if (s[q] == '"') q = s.find('"', q + 1) + 1;
    else q = s.find_first_of(",] ", q);
    s.replace(p, q - p, put);
  } else { size_t b = s.find('[', i); s.insert(b + 1, put + ", "); }
  return s;
}
Case genF02(Rng &r, uint64_t) {
  Case c;
  Job j;
  static const int K[] = {TA_OPEN, TA_READ, TA_READ, TA_READ, TA_CUT, TA_CUT, TA_CUT, TA_CUT, LOG_OPEN, CMDLINE, BAD_TRE, BAD_TRE, T2_CMDLINE, T2_BAD_TRE, TA_CORRUPT, TA_CORRUPT, TA_CORRUPT, TA_CORRUPT, TA_INVALID, TA_INVALID, TA_INVALID, TA_INVALID};
  j.kind = K[r.below(22)];
  genPattern(r, j, j.kind == LOG_OPEN ? 50 : 0);
  genJobLog(r, j, r.range(1, 8));
  Plan p = genPlan(r, j);
  genDelivery(r, p, logBytes(j, p).size());
  static const int E[] = {2, 13, 24, 23, 20, 40, 5, 36};
  std::string dot = j.hasTre ? "" : j.ta.dot(j.treStyle);
  switch (j.kind) {
  case TA_OPEN: p.taOpenErr = E[r.below(8)]; break;
  case TA_READ: p.taErrAt = r.chance(1, 6) ? (long)dot.size() : (long)r.below(dot.size() + 1); if (r.chance(1, 2)) for (int k = r.range(1, 4); k > 0; k--) p.taChunks.push_back(1 + r.below(60)); break;
  case TA_CUT: j.nums = {(long)r.below(dot.rfind('}') + 1)}; break;
  case LOG_OPEN: p.named = true; p.logOpenErr = E[r.below(8)]; break;
  case CMDLINE: j.strs = badCommand(r, false); break;
  case T2_CMDLINE: j.strs = badCommand(r, true); break;
  case BAD_TRE: case T2_BAD_TRE: j.strs = {badTre(r)}; break;
  case TA_CORRUPT: j.strs = {mutateDot(r, dot)}; break;
  case TA_INVALID: { std::string s = invalidDot(r, dot); if (s.empty()) { j.kind = TA_CORRUPT; s = mutateDot(r, dot); } j.strs = {s}; break; }
  }
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkF02(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1) return skip();
  const Job &j = c.jobs[0];
  const Plan &p = j.plans[0];
  Spec s = monaaSpec(j, p);
  std::string what;
  bool must = true;
  switch (j.kind) {
  case TA_OPEN: if (j.hasTre || !p.taOpenErr) return skip(); what = fmt("opening the automaton failed with errno %d", p.taOpenErr); break;
  case TA_READ: if (j.hasTre || p.taErrAt < 0 || p.taErrAt > (long)j.ta.dot(j.treStyle).size()) return skip(); what = fmt("reading the automaton failed at byte %ld", p.taErrAt); break;
  case TA_CUT: {
    if (j.hasTre || j.nums.size() != 1) return skip();
    std::string d = j.ta.dot(j.treStyle);
    if (j.nums[0] > (long)d.rfind('}')) return skip();
    s.files["pattern.dot"].content = d.substr(0, j.nums[0]);
    what = fmt("the automaton is cut off after byte %ld", j.nums[0]);
    break;
  }
  case LOG_OPEN: if (!p.named || !p.logOpenErr) return skip(); what = fmt("opening the log failed with errno %d", p.logOpenErr); break;
  case CMDLINE: s.argv = j.strs; what = "invalid command line"; if (j.strs.empty()) return skip(); break;
  case T2_CMDLINE: s.prog = Prog::Tre2ta; s.argv = j.strs; what = "invalid command line of tre2ta"; if (j.strs.empty()) return skip(); break;
  case BAD_TRE: case T2_BAD_TRE:
    if (j.strs.size() != 1) return skip();
    what = "invalid expression \"" + esc(j.strs[0]) + "\"";
    if (j.kind == T2_BAD_TRE) s.prog = Prog::Tre2ta;
    s.argv = {"-e", j.strs[0]};
    break;
  default:
    if (j.strs.size() != 1 || j.hasTre) return skip();
    s.files["pattern.dot"].content = j.strs[0];
    must = j.kind == TA_INVALID;
    what = must ? "invalid automaton" : "corrupted automaton";
  }
  s.maxPatternAllocs = 250000;
  s.maxAllocs = 600000;
  RunResult a = simRun(s);
  st.noteRun(a);
  if (!must && (a.hang || a.overflow)) return tooBigSkip(st); // a corrupted automaton may be a large pattern
  if (j.kind == LOG_OPEN && a.hang) return tooBigSkip(st);
  if (j.kind == LOG_OPEN && emptyPatternExit(a)) return skip();
  static const char *KN[] = {"fault_automaton_open", "fault_automaton_read", "fault_automaton_cut", "fault_log_open", "fault_command_line", "fault_invalid_expression", "fault_command_line_tre2ta", "fault_invalid_expression_tre2ta", "fault_automaton_corrupted", "fault_automaton_invalid"};
  st.add(KN[j.kind]);
  Verdict v;
  v.nontrivial = true;
  std::string m = crashOf(a);
  if (!m.empty()) v = viol("crash", what + ": " + m);
  else if (must && (a.code < 1 || a.code > 125)) v = viol("status", what + ": " + a.describe());
  else if ((must || (a.code != 0 && a.code != 10)) && !a.out.empty()) v = viol("output", what + ": something was reported: " + a.describe());
  else if ((must || (a.code != 0 && a.code != 10)) && a.err.empty()) v = viol("silent", what + ": no diagnostic: " + a.describe());
  noteHash(v, a);
  if (v.kind == Verdict::VIOL) { v.nontrivial = true; v.trace = traceText(a); }
  return v;
}
// ---------------------------------------------------------------- F03
// kind: 0 stdout fails, 1 file fails, 2 file cannot be opened, 3 close fails, 4 allocation failure, 5 short writes only
Spec tre2taSpec(const Job &j, const Plan &p, bool toFile) {
  Spec s;
  s.prog = Prog::Tre2ta;
  s.maxPatternAllocs = s.maxAllocs = 3000000;
  std::string pat = treStr(j.tre, j.treStyle);
  if (toFile) {
    s.argv = {p.argStyle & 4 ? "--output-file" : "-o", "out.dot"};
    VFile f;
    f.writable = true;
    f.exists = j.strs.size() == 2 && j.strs[0] == "old"; // what the file held before
    if (f.exists) f.content = j.strs[1];
    f.wLimit = p.wLimit;
    f.wErrNo = p.wErrNo;
    f.writeChunks = p.wChunks;
    f.closeErr = p.closeErr;
    f.openErr = p.taOpenErr;
    s.files["out.dot"] = f;
  } else {
    s.out.limit = p.wLimit;
    s.out.errNo = p.wErrNo;
    s.out.transient = p.wTransient;
  }
  if (p.argStyle & 2) s.argv.push_back(pat);
  else { s.argv.push_back("-e"); s.argv.push_back(pat); }
  s.mem = p.mem;
  s.outBuf = p.outBuf;
  s.killAt = p.killAt;
  return s;
}
Case genF03(Rng &r, uint64_t) {
  Case c;
  Job j;
  genPattern(r, j, 100);
  j.strs.clear();
  if (r.chance(1, 2)) {
    std::string old;
    for (int n = r.chance(1, 5) ? 0 : r.chance(1, 2) ? r.range(1, 200) : r.range(1000, 20000); n > 0; n--) old += r.chance(1, 30) ? '\n' : (char)r.range(32, 126);
    j.strs = {"old", old};
  }
  Plan p = genPlan(r, j);
  p.named = false; p.chunks.clear();
  static const int K[] = {0, 0, 0, 0, 1, 1, 1, 1, 2, 3, 4, 4, 5, 6};
  j.kind = K[r.below(14)];
  static const int E[] = {28, 5, 32, 27, 122, 30, 13, 24};
  p.wErrNo = E[r.below(6)];
  p.taOpenErr = 0;
  if (j.kind == 2) p.taOpenErr = E[r.below(8)];
  if (j.kind == 3) p.closeErr = E[r.below(6)];
  if (r.chance(1, 2) || j.kind == 5) for (int k = r.range(1, 4); k > 0; k--) p.wChunks.push_back(1 + r.below(100));
  p.mem.failPersist = r.below(2);
  j.nums = {genPlace(r), (long)r.below(2)};
  if (r.chance(1, 30)) for (int k = 0; k < 60; k++) j.nums.push_back(genPlace(r));
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkF03(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].nums.size() < 2 || !c.jobs[0].hasTre) return skip();
  const Job &j = c.jobs[0];
  Plan p = j.plans[0];
  bool toFile = j.kind == 0 ? false : j.kind >= 4 ? j.nums[1] : true;
  Plan clean = p;
  clean.wLimit = clean.killAt = clean.mem.failAt = -1;
  clean.closeErr = clean.taOpenErr = 0;
  clean.wChunks.clear();
  auto text = [&](const RunResult &r) { return toFile ? r.written.at("out.dot") : r.out; };
  RunResult f = simRun(tre2taSpec(j, clean, toFile));
  st.noteRun(f);
  if (f.hang || f.overflow) return tooBigSkip(st);
  Verdict v;
  noteHash(v, f);
  if (f.signaled || f.code || text(f).empty()) { v = viol("crash", "without any fault: " + f.describe()); v.trace = traceText(f); return v; }
  v.nontrivial = true;
  std::string full = text(f);
  bool old = toFile && j.strs.size() == 2 && j.strs[0] == "old";
  if (old) {
    st.add("output_file_existed");
    RunResult o = simRun(tre2taSpec(j, clean, false));
    st.noteRun(o);
    noteHash(v, o);
    if (o.out != full) { Verdict w = viol("content", fmt("the file that existed before has %zu bytes that differ from the %zu bytes on standard output", full.size(), o.out.size())); w.hash = v.hash; w.trace = traceText(f); return w; }
  }
  for (size_t q = 0; q < j.nums.size(); q++) {
    if (q == 1) continue;
    long code = j.nums[q];
    Plan d = p;
    std::string what = toFile ? "output file: " : "standard output: ";
    bool must = true;
    switch (j.kind) {
    case 0: case 1: d.wLimit = place(code, full.size()); what += fmt("writing failed at byte %ld of %zu", d.wLimit, full.size()); break;
    case 2: if (!d.taOpenErr) return skip(); what += "it could not be opened"; break;
    case 3: if (!d.closeErr) return skip(); what += "closing failed"; break;
    case 4: d.mem.failAt = place(code, f.nAllocs) + 1; must = false; what += fmt("allocation %ld of %llu failed", d.mem.failAt, (unsigned long long)f.nAllocs); break;
    case 6: d.killAt = place(code, f.nIo ? f.nIo : 1) + 1; must = false; what += fmt("killed at I/O event %ld", d.killAt); break;
    default: must = false; what += "short writes"; break;
    }
    RunResult a = simRun(tre2taSpec(j, d, toFile));
    st.noteRun(a);
    noteHash(v, a);
    std::string got = text(a), cls;
    if (old && got == j.strs[1] && got != full) got.clear(); // it was not opened: nothing was delivered
    std::string m = oomOutcome(a, got, full, cls);
    if (a.killed && a.signaled) m = isPrefix(got, full) ? "" : "what was delivered is not a prefix of the automaton";
    else if (m.empty() && j.kind != 4 && a.signaled) { cls = "crash"; m = a.describe(); }
    else if (m.empty() && must && (a.code < 1 || a.code > 125)) { cls = "status"; m = a.describe(); }
    else if (m.empty() && j.kind == 5 && (a.code || got != full)) { cls = "short"; m = a.describe(); }
    if (!m.empty()) {
      Verdict w = viol(cls, what + ": " + m);
      w.hash = v.hash; w.nontrivial = true; w.trace = traceText(a);
      return w;
    }
    if (j.kind == 2 || j.kind == 3 || j.kind == 5) break;
  }
  return v;
}
