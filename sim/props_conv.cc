// C01: the converter of logs from text to binary
#include "props.hh"
#include <cstring>

enum { NONE, READ_ERR, WRITE_ERR, OPEN_IN, OPEN_OUT, CLOSE_ERR, KILL, ALLOC, SHORT };
static Spec convSpec(const Job &j, const Plan &p, bool toFile) {
  Spec s;
  s.prog = Prog::Ascii2bin;
  s.maxPatternAllocs = s.maxAllocs = 1000000;
  if (toFile && (p.argStyle & 1)) s.argv = {"-o", "out.bin"};
  if (p.named) {
    s.logName = "log.txt";
    s.logOpenErr = p.logOpenErr;
    if (p.argStyle & 8) s.argv.push_back("-ilog.txt");
    else { s.argv.push_back("-i"); s.argv.push_back("log.txt"); }
  }
  if (toFile && !(p.argStyle & 1)) { s.argv.push_back("-o"); s.argv.push_back("out.bin"); }
  if (toFile) {
    VFile f;
    f.writable = true;
    f.exists = j.strs.size() == 2 && j.strs[0] == "old"; // what the file held before
    if (f.exists) f.content = j.strs[1];
    f.wLimit = p.wLimit;
    f.wErrNo = p.wErrNo;
    f.writeChunks = p.wChunks;
    f.closeErr = p.closeErr;
    f.openErr = p.taOpenErr;
    s.files["out.bin"] = f;
  } else {
    s.out.limit = p.wLimit;
    s.out.errNo = p.wErrNo;
    s.out.transient = p.wTransient;
  }
  s.log.bytes = logBytes(j, p);
  s.log.chunks = p.chunks;
  s.log.errAt = p.rerrAt;
  s.log.errNo = p.rerrNo;
  s.log.errTransient = p.rerrTransient;
  s.mem = p.mem;
  s.inBuf = p.inBuf;
  s.outBuf = p.outBuf;
  s.killAt = p.killAt;
  return s;
}
Case genC01(Rng &r, uint64_t) {
  Case c;
  Job j;
  genCliPattern(r, j, 40);
  genJobLog(r, j, r.chance(1, 80) ? r.range(6000, 12000) : r.chance(1, 12) ? r.range(400, 1200) : r.range(0, 20));
  Plan p = genPlan(r, j);
  p.enc.binary = false;
  p.enc.style = r.below(3);
  std::vector<size_t> ends;
  std::string s = encodeLog(j.log, p.enc, &ends);
  if (r.chance(1, 3)) {
    s = corruptLog(r, s, false, ends);
    j.hasRaw = true;
    j.raw = s;
  } else if (r.chance(1, 4)) {
    s = s.substr(0, r.below(s.size() + 1));
    j.hasRaw = true;
    j.raw = s;
  }
  genDelivery(r, p, s.size());
  if (s.size() > 20000) { if (p.inBuf < 64) p.inBuf = 4096; if (p.outBuf < 64) p.outBuf = 4096; }
  j.strs.clear();
  if (r.chance(1, 2)) {
    std::string old;
    for (int n = r.chance(1, 5) ? 0 : r.chance(1, 2) ? r.range(1, 200) : r.range(1000, 9000); n > 0; n--) old += (char)r.below(256);
    j.strs = {"old", old};
  }
  static const int K[] = {NONE, NONE, NONE, NONE, READ_ERR, READ_ERR, WRITE_ERR, WRITE_ERR, OPEN_IN, OPEN_OUT, CLOSE_ERR, KILL, ALLOC, SHORT};
  j.kind = K[r.below(14)];
  static const int E[] = {28, 5, 32, 27, 122, 30, 13, 24, 2};
  p.wErrNo = E[r.below(6)];
  static const int R[] = {5, 21, 103, 110, 116, 12};
  p.rerrNo = R[r.below(6)];
  p.rerrTransient = r.chance(1, 4);
  p.wTransient = r.chance(1, 6);
  p.taOpenErr = p.logOpenErr = p.closeErr = 0;
  if (j.kind == OPEN_IN) { p.named = true; p.logOpenErr = E[r.below(9)]; }
  if (j.kind == OPEN_OUT) p.taOpenErr = E[r.below(9)];
  if (j.kind == CLOSE_ERR) p.closeErr = E[r.below(6)];
  if (r.chance(1, 2) || j.kind == SHORT) for (int k = r.range(1, 4); k > 0; k--) p.wChunks.push_back(1 + r.below(100));
  p.mem.failPersist = r.below(2);
  j.nums = {genPlace(r), (long)r.below(2)};
  if (r.chance(1, 30)) for (int k = 0; k < 40; k++) j.nums.push_back(genPlace(r));
  j.plans.push_back(p);
  c.jobs.push_back(j);
  return c;
}
Verdict checkC01(const Case &c, Stats &st) {
  if (c.jobs.size() != 1 || c.jobs[0].plans.size() != 1 || c.jobs[0].nums.size() < 2) return skip();
  const Job &j = c.jobs[0];
  Plan p = j.plans[0];
  if (p.enc.binary) return skip();
  bool toFile = j.kind == OPEN_OUT || j.kind == CLOSE_ERR || j.kind == SHORT ? true : j.nums[1] != 0;
  std::string bytes = logBytes(j, p);
  RefLog rl = refRead(bytes, false);
  if (rl.unclear) return skip();
  std::string full;
  for (size_t k = 0; k < rl.log.size(); k++) {
    full += (char)rl.log[k].label;
    full.append((const char *)&rl.d[k], 8);
  }
  auto text = [&](const RunResult &r) { return toFile ? r.written.at("out.bin") : r.out; };
  auto fail = [&](Verdict &v, const std::string &cls, const std::string &m, const RunResult &a) {
    Verdict w = viol(cls, m);
    w.hash = v.hash;
    w.nontrivial = true;
    w.trace = traceText(a);
    return w;
  };
  Plan clean = p;
  clean.wLimit = clean.rerrAt = clean.killAt = clean.mem.failAt = -1;
  clean.closeErr = clean.taOpenErr = clean.logOpenErr = 0;
  clean.wChunks.clear();
  RunResult f = simRun(convSpec(j, clean, toFile));
  st.noteRun(f);
  if (f.overflow) return skip();
  Verdict v;
  noteHash(v, f);
  v.nontrivial = true;
  std::string m = crashOf(f);
  if (!m.empty()) return fail(v, "crash", "without any fault: " + m, f);
  bool bad = rl.stop == 2;
  if (bad) {
    st.add("malformed_logs");
    if (f.code < 1 || f.code > 125) return fail(v, "status", fmt("%zu records and then a malformed one, but ", rl.log.size()) + f.describe(), f);
    if (!isPrefix(text(f), full)) return fail(v, "content", fmt("the %zu bytes written are not a prefix of the %zu records before the malformed one", text(f).size(), rl.log.size()), f);
  } else {
    if (f.code) return fail(v, "status", "without any fault: " + f.describe(), f);
    if (text(f) != full) return fail(v, "content", fmt("%zu bytes were written for %zu records, and they are not these records", text(f).size(), rl.log.size()), f);
  }
  if (j.kind == NONE && !bad && (j.hasTre || j.ta.n()) && rl.log.size() < 60) { // the pattern matches the same before and after
    Job a = j, b = j;
    a.hasRaw = b.hasRaw = true;
    a.raw = bytes;
    b.raw = text(f);
    Plan q = clean;
    q.quiet = false;
    RunResult ra = simRun(monaaSpec(a, q));
    st.noteRun(ra);
    q.enc.binary = true;
    RunResult rb = simRun(monaaSpec(b, q));
    st.noteRun(rb);
    noteHash(v, ra);
    noteHash(v, rb);
    if (!tooBig(a, ra) && !tooBig(b, rb)) {
      st.add("matched_before_and_after");
      if (!(m = crashOf(rb)).empty()) return fail(v, "crash", "monaa -b on the converted log: " + m, rb);
      if (crashOf(ra).empty() && (ra.code != rb.code || ra.out != rb.out)) return fail(v, "report", fmt("monaa reports %zu bytes (status %d) for the log and %zu bytes (status %d) for the converted log", ra.out.size(), ra.code, rb.out.size(), rb.code), rb);
    }
  }
  for (size_t q = 0; q < j.nums.size() && j.kind != NONE; q++) {
    if (q == 1) continue;
    long code = j.nums[q];
    Plan d = p;
    d.logOpenErr = d.taOpenErr = d.closeErr = 0;
    d.wLimit = d.rerrAt = d.killAt = d.mem.failAt = -1;
    std::string what = toFile ? "to a file: " : "to standard output: ";
    bool must = !bad, exact = false;
    switch (j.kind) {
    case READ_ERR: d.rerrAt = place(code, bytes.size() + 1); what += fmt("reading failed at byte %ld of %zu", d.rerrAt, bytes.size()); break;
    case WRITE_ERR:
      if (text(f).empty()) return v;
      d.wLimit = place(code, text(f).size());
      what += fmt("writing failed at byte %ld of %zu", d.wLimit, text(f).size());
      break;
    case OPEN_IN: if (!p.logOpenErr || !p.named) return skip(); d.logOpenErr = p.logOpenErr; what += "the log could not be opened"; break;
    case OPEN_OUT: if (!p.taOpenErr) return skip(); d.taOpenErr = p.taOpenErr; what += "the output could not be opened"; break;
    case CLOSE_ERR: if (!p.closeErr) return skip(); d.closeErr = p.closeErr; what += "closing the output failed"; break;
    case KILL: d.killAt = place(code, f.nIo ? f.nIo : 1) + 1; must = false; what += fmt("killed at I/O event %ld", d.killAt); break;
    case ALLOC:
      if (!f.nAllocs) return v;
      d.mem.failAt = place(code, f.nAllocs) + 1;
      must = false;
      what += fmt("allocation %ld of %llu failed", d.mem.failAt, (unsigned long long)f.nAllocs);
      break;
    case SHORT: must = false; exact = !bad; what += "short writes"; break;
    default: return skip();
    }
    RunResult a = simRun(convSpec(j, d, toFile));
    st.noteRun(a);
    noteHash(v, a);
    std::string got = text(a);
    bool old = toFile && j.strs.size() == 2 && j.strs[0] == "old";
    if (old && got == j.strs[1] && got != full) got.clear(); // it was not opened: nothing was written
    bool killed = a.killed && a.signaled;
    if (!killed && !(m = crashOf(a)).empty()) return fail(v, "crash", what + ": " + m, a);
    bool holes = j.kind == WRITE_ERR && !toFile && p.wTransient; // one write is lost, and the later ones are not
    if (!holes && !isPrefix(got, full)) return fail(v, "prefix", what + fmt(": the %zu bytes written are not a prefix of the %zu that are due", got.size(), full.size()), a);
    if (killed) continue;
    if (must && (a.code < 1 || a.code > 125)) return fail(v, "status", what + ": " + a.describe(), a);
    if (exact && (a.code || got != full)) return fail(v, "short", what + ": " + a.describe(), a);
    if (!a.code && (bad || got != full)) return fail(v, "status", what + fmt(": exit status 0 although %zu of %zu bytes were written", got.size(), full.size()), a);
    if (j.kind == OPEN_IN || j.kind == OPEN_OUT || j.kind == CLOSE_ERR || j.kind == SHORT) break;
  }
  return v;
}
