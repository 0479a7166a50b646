#include "case.hh"
#include <sstream>

static std::string chunksSer(const std::vector<Chunk> &c) {
  std::string s;
  for (auto &x : c) s += fmt("%s%u:%u", s.empty() ? "" : ",", x.len, x.delayUs);
  return s.empty() ? "-" : s;
}
static std::string u32Ser(const std::vector<uint32_t> &c) {
  std::string s;
  for (auto x : c) s += fmt("%s%u", s.empty() ? "" : ",", x);
  return s.empty() ? "-" : s;
}
std::string Plan::ser() const {
  std::string s = fmt("enc=%d,%d,%llu,%d named=%d arg=%d quiet=%d in=%d out=%d ", enc.binary, enc.style, (unsigned long long)enc.seed, enc.finalNewline, named, argStyle, quiet, inBuf, outBuf);
  s += fmt("mem=%d,%d,%d,%d,%d,%llu,%ld,%d ", mem.order, mem.reuse, mem.fill, mem.freeFill, mem.guard, (unsigned long long)mem.seed, mem.failAt, mem.failPersist);
  s += fmt("rerr=%ld,%d,%d werr=%ld,%d,%d kill=%ld taerr=%ld,%d logopen=%d close=%d ", rerrAt, rerrNo, rerrTransient, wLimit, wErrNo, wTransient, killAt, taErrAt, taOpenErr, logOpenErr, closeErr);
  s += "chunks=" + chunksSer(chunks) + " tachunks=" + u32Ser(taChunks) + " wchunks=" + u32Ser(wChunks);
  return s;
}
Plan Plan::deser(const std::string &str) {
  Plan p;
  std::istringstream is(str);
  std::string tok;
  while (is >> tok) {
    size_t e = tok.find('=');
    if (e == std::string::npos) continue;
    std::string k = tok.substr(0, e), v = tok.substr(e + 1);
    std::vector<unsigned long long> n;
    if (k != "chunks" && v != "-") {
      std::istringstream vs(v);
      std::string x;
      while (std::getline(vs, x, ',')) n.push_back(x[0] == '-' ? (unsigned long long)strtoll(x.c_str(), nullptr, 10) : strtoull(x.c_str(), nullptr, 10));
    }
    n.resize(std::max<size_t>(n.size(), k == "tachunks" || k == "wchunks" ? n.size() : 8));
    if (k == "enc") { p.enc.binary = n[0]; p.enc.style = n[1]; p.enc.seed = n[2]; p.enc.finalNewline = n[3]; }
    else if (k == "named") p.named = n[0];
    else if (k == "arg") p.argStyle = n[0];
    else if (k == "quiet") p.quiet = n[0];
    else if (k == "in") p.inBuf = (int)n[0];
    else if (k == "out") p.outBuf = (int)(long long)n[0];
    else if (k == "mem") { p.mem.order = n[0]; p.mem.reuse = n[1]; p.mem.fill = n[2]; p.mem.freeFill = n[3]; p.mem.guard = n[4]; p.mem.seed = n[5]; p.mem.failAt = (long)n[6]; p.mem.failPersist = n[7]; }
    else if (k == "rerr") { p.rerrAt = (long)n[0]; p.rerrNo = n[1]; p.rerrTransient = n[2]; }
    else if (k == "werr") { p.wLimit = (long)n[0]; p.wErrNo = n[1]; p.wTransient = n[2]; }
    else if (k == "kill") p.killAt = (long)n[0];
    else if (k == "taerr") { p.taErrAt = (long)n[0]; p.taOpenErr = n[1]; }
    else if (k == "logopen") p.logOpenErr = n[0];
    else if (k == "close") p.closeErr = n[0];
    else if (k == "tachunks") for (auto x : n) p.taChunks.push_back(x);
    else if (k == "wchunks") for (auto x : n) p.wChunks.push_back(x);
    else if (k == "chunks" && v != "-") {
      std::istringstream vs(v);
      std::string x;
      while (std::getline(vs, x, ',')) { Chunk c{0, 0}; sscanf(x.c_str(), "%u:%u", &c.len, &c.delayUs); p.chunks.push_back(c); }
    }
  }
  return p;
}
std::string Case::ser() const {
  std::string s = "prop " + prop + "\n" + fmt("seed %llu\nindex %llu\n", (unsigned long long)seed, (unsigned long long)index);
  s += "nums";
  for (long n : nums) s += fmt(" %ld", n);
  s += "\n";
  for (auto &j : jobs) {
    s += fmt("job %d %d %d %d %d %d\n", j.kind, j.mode, j.vec, j.hasTre, j.treStyle, j.hasRaw);
    if (j.ta.n()) s += "ta " + j.ta.ser() + "\n";
    if (j.tre) s += "tre " + treSer(j.tre) + "\n# " + treStr(j.tre, j.treStyle) + "\n";
    if (!j.log.empty()) {
      s += "log";
      for (auto &e : j.log) s += fmt(" %d:%lld", e.label, (long long)e.t);
      s += "\n";
    }
    if (j.hasRaw) s += "raw " + hexEnc(j.raw) + "\n";
    if (!j.nums.empty()) {
      s += "jnums";
      for (long n : j.nums) s += fmt(" %ld", n);
      s += "\n";
    }
    for (auto &x : j.strs) s += "str " + hexEnc(x) + "\n";
    for (auto &p : j.plans) s += "plan " + p.ser() + "\n";
  }
  return s;
}
Case Case::deser(const std::string &str) {
  Case c;
  std::istringstream is(str);
  std::string l;
  while (std::getline(is, l)) {
    if (l.empty() || l[0] == '#') continue;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    std::istringstream vs(v);
    if (k == "prop") c.prop = v;
    else if (k == "seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "index") c.index = strtoull(v.c_str(), nullptr, 10);
    else if (k == "nums") { long n; while (vs >> n) c.nums.push_back(n); }
    else if (k == "job") { Job j; int ht = 0, hr = 0; vs >> j.kind >> j.mode >> j.vec >> ht >> j.treStyle >> hr; j.hasTre = ht; j.hasRaw = hr; c.jobs.push_back(j); }
    else if (c.jobs.empty()) continue;
    else {
      Job &j = c.jobs.back();
      if (k == "ta") j.ta = TA::deser(v);
      else if (k == "tre") j.tre = treDeser(v);
      else if (k == "log") { std::string x; while (vs >> x) { int a; long long b; if (sscanf(x.c_str(), "%d:%lld", &a, &b) == 2) j.log.push_back(Ev{(unsigned char)a, b}); } }
      else if (k == "raw") j.raw = hexDec(v);
      else if (k == "jnums") { long n; while (vs >> n) j.nums.push_back(n); }
      else if (k == "str") j.strs.push_back(hexDec(v));
      else if (k == "plan") j.plans.push_back(Plan::deser(v));
    }
  }
  return c;
}
std::string logBytes(const Job &j, const Plan &p, std::vector<size_t> *recEnd) {
  if (j.hasRaw) return j.raw;
  return encodeLog(j.log, p.enc, recEnd);
}
std::string patternText(const Job &j) { return j.hasTre ? treStr(j.tre, j.treStyle) : j.ta.dot(j.treStyle); }
static int treClocks(const TreP &t) {
  int a = t->a ? treClocks(t->a) : 0, b = t->b ? treClocks(t->b) : 0;
  switch (t->op) {
  case Tre::And: return a + b;
  case Tre::Within: return a + 1;
  default: return std::max(a, b);
  }
}
bool smallPattern(const Job &j) {
  if (j.hasTre) return treSize(j.tre) <= 6 && treClocks(j.tre) <= 1;
  int mc = 0;
  for (auto &e : j.ta.edges) for (auto &g : e.guard) mc = std::max(mc, g.c);
  return j.ta.n() <= 4 && j.ta.clocks() <= 1 && mc <= 2 && j.ta.edges.size() <= 6;
}
Spec monaaSpec(const Job &j, const Plan &p) {
  Spec s;
  s.prog = Prog::Monaa;
  s.maxPatternAllocs = smallPattern(j) ? 10000000 : 250000;
  if (p.enc.binary) s.argv.push_back(p.argStyle & 1 ? "--binary" : "-b");
  else if (p.argStyle & 4) s.argv.push_back("-a");
  if (p.quiet) s.argv.push_back("-q");
  if (j.mode == SIGNAL) s.argv.push_back(p.argStyle & 1 ? "--signal" : "-S");
  std::string pat = patternText(j);
  if (j.hasTre) {
    if (p.argStyle & 2) s.argv.push_back(pat);
    else { s.argv.push_back("-e"); s.argv.push_back(pat); }
  } else {
    s.argv.push_back(p.argStyle & 2 ? "--automaton" : "-f");
    s.argv.push_back("pattern.dot");
    VFile f;
    f.content = pat;
    f.readChunks = p.taChunks;
    f.errAt = p.taErrAt;
    f.openErr = p.taOpenErr;
    s.files["pattern.dot"] = f;
  }
  if (p.named) {
    s.logName = "log.txt";
    s.logOpenErr = p.logOpenErr;
    if (p.argStyle & 8) s.argv.push_back("log.txt");
    else { s.argv.push_back("-i"); s.argv.push_back("log.txt"); }
  }
  s.log.bytes = logBytes(j, p);
  s.log.chunks = p.chunks;
  s.log.errAt = p.rerrAt;
  s.log.errNo = p.rerrNo;
  s.log.errTransient = p.rerrTransient;
  s.out.limit = p.wLimit;
  s.out.errNo = p.wErrNo;
  s.out.transient = p.wTransient;
  s.mem = p.mem;
  s.inBuf = p.inBuf;
  s.outBuf = p.outBuf;
  s.killAt = p.killAt;
  return s;
}
std::string Case::describe() const {
  std::string s;
  for (size_t k = 0; k < jobs.size(); k++) {
    auto &j = jobs[k];
    if (jobs.size() > 1) s += fmt("job %zu (kind %d): ", k, j.kind);
    if (j.hasTre) s += "pattern " + treStr(j.tre, j.treStyle);
    else if (j.ta.n()) s += fmt("automaton with %d states, %d clocks, %zu edges", j.ta.n(), j.ta.clocks(), j.ta.edges.size());
    if (j.hasRaw) s += fmt("; raw input of %zu bytes \"%s\"", j.raw.size(), esc(j.raw, 120).c_str());
    else {
      s += fmt("; log of %zu events:", j.log.size());
      for (size_t i = 0; i < j.log.size() && i < 12; i++) s += fmt(" %s@%g", esc(std::string(1, (char)j.log[i].label)).c_str(), (double)j.log[i].t / UNIT);
    }
    if (!j.plans.empty()) s += "; plan: " + j.plans[0].ser().substr(0, 240);
    s += "\n";
  }
  return s;
}
void Stats::noteRun(const RunResult &r) {
  add("simulated_executions");
  add("simulated_us", r.simUs);
  add("fault_read_error", r.rerrInjected);
  add("fault_write_error", r.werrInjected);
  add("fault_allocation_failure", r.oomInjected);
  add("fault_open_error", r.openErrInjected);
  add("fault_kill", r.killed);
  add("delivery_short_or_split_reads", r.shortReads);
  add("delivery_waits_for_producer", r.blocks);
  add("thread_switches", r.switches);
  add("allocations_simulated", r.nAllocs);
  add("io_seam_crossings", r.nIo);
  shapes.push_back(r.shapeHash);
}
std::string traceText(const RunResult &r, size_t maxEv) {
  std::string s;
  size_t n = r.events.size();
  for (size_t i = 0; i < n; i++) {
    if (n > maxEv && i == maxEv / 2) { s += fmt("  ... %zu events ...\n", n - maxEv); i = n - maxEv / 2; }
    auto &e = r.events[i];
    s += fmt("  %6llu us %-16s %u @%llu report=%u answers=%u live=%llu\n", (unsigned long long)e.t, evName(e.type), e.a, (unsigned long long)e.b, e.out, e.ans, (unsigned long long)e.live);
  }
  s += "  " + r.describe() + "\n";
  return s;
}
