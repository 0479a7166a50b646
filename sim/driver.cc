// Seeded search over simulated executions, the violation gate, replay, evidence.
#include "case.hh"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>

static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint64_t caseSeed(uint64_t seed, const std::string &prop, uint64_t i) { return mix64(hashStr(prop, mix64(seed) ^ 0x51ULL) ^ mix64(i)); }
static Case makeCase(const Prop &p, uint64_t seed, uint64_t i) {
  uint64_t s = caseSeed(seed, p.id, i);
  Rng r(s);
  Case c = p.gen(r, i);
  c.prop = p.id;
  c.seed = seed;
  c.index = i;
  return c;
}
static std::string slurp(const std::string &f) { std::ifstream is(f, std::ios::binary); std::stringstream ss; ss << is.rdbuf(); return ss.str(); }

struct WorkerOut { Stats st; uint64_t evals = 0, nontriv = 0, skips = 0; std::vector<std::string> samples; std::map<uint64_t, std::string> viols; uint64_t hash = 0; };
static void writeOut(int fd, const WorkerOut &w) {
  std::string s = fmt("%llu %llu %llu %llu\n", (unsigned long long)w.evals, (unsigned long long)w.nontriv, (unsigned long long)w.skips, (unsigned long long)w.hash);
  s += fmt("%zu\n", w.st.n.size());
  for (auto &k : w.st.n) s += k.first + " " + fmt("%llu\n", (unsigned long long)k.second);
  auto vec = [&](std::vector<uint64_t> v) {
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    s += fmt("%zu\n", v.size());
    for (auto x : v) s += fmt("%llx\n", (unsigned long long)x);
  };
  vec(w.st.shapes);
  vec(w.st.sigs);
  s += fmt("%zu\n", w.samples.size());
  for (auto &x : w.samples) s += hexEnc(x) + "\n";
  s += fmt("%zu\n", w.viols.size());
  for (auto &x : w.viols) s += fmt("%llu ", (unsigned long long)x.first) + hexEnc(x.second) + "\n";
  size_t o = 0;
  while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(2); o += k; }
}
static void readOut(const std::string &s, WorkerOut &w, std::set<uint64_t> &shapes, std::set<uint64_t> &sigs) {
  std::istringstream is(s);
  unsigned long long a, b, c, d;
  is >> a >> b >> c >> d;
  w.evals += a; w.nontriv += b; w.skips += c; w.hash ^= d;
  size_t n;
  is >> n;
  while (n--) { std::string k; unsigned long long v; is >> k >> v; w.st.n[k] += v; }
  is >> n;
  is >> std::hex;
  while (n--) { unsigned long long v; is >> v; shapes.insert(v); }
  is >> std::dec >> n >> std::hex;
  while (n--) { unsigned long long v; is >> v; sigs.insert(v); }
  is >> std::dec >> n;
  while (n--) { std::string k; is >> k; w.samples.push_back(hexDec(k)); }
  is >> n;
  while (n--) { unsigned long long v; std::string k; is >> v >> k; w.viols[v] = hexDec(k); }
}

static int doReplay(const std::string &file, bool verbose) {
  Case c = Case::deser(slurp(file));
  const Prop *p = findProp(c.prop);
  if (!p) { fprintf(stderr, "replay: unknown property in %s\n", file.c_str()); return 2; }
  Stats st;
  Verdict v = p->check(c, st);
  if (verbose) {
    if (v.kind == Verdict::VIOL) printf("reproduced property=%s class=%s hash=%016llx\n%s\n%s", c.prop.c_str(), v.cls.c_str(), (unsigned long long)v.hash, v.msg.c_str(), v.trace.c_str());
    else printf("property=%s: %s\n", c.prop.c_str(), v.kind == Verdict::OK ? "holds on this scenario" : "scenario out of scope");
  }
  return v.kind == Verdict::VIOL ? 1 : 0;
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) { // fixed addresses for everything outside the simulated heap too, where the system allows it
    setenv("SIM_NOASLR", "1", 1);
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::vector<std::string> a(argv + 1, argv + argc);
  auto opt = [&](const char *k, const char *d) { for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == k) return a[i + 1]; return std::string(d); };
  if (a.size() >= 2 && a[0] == "replay") return doReplay(a[1], true);
  if (a.size() >= 2 && a[0] == "show") { // the pattern and log of a scenario, for reading
    Case c = Case::deser(slurp(a[1]));
    for (auto &j : c.jobs) { printf("%s\n", patternText(j).c_str()); for (auto &p : j.plans) { printf("log: \"%s\"\n", esc(logBytes(j, p), 4000).c_str()); break; } }
    return 0;
  }
  if (a.size() >= 2 && a[0] == "minimise") { // re-minimise a scenario
    Case c = Case::deser(slurp(a[1]));
    const Prop *p = findProp(c.prop);
    Stats st;
    Verdict v = p->check(c, st);
    if (v.kind != Verdict::VIOL) { printf("holds\n"); return 0; }
    shrink(c, v, *p, 60000);
    fputs(c.ser().c_str(), stdout);
    return 1;
  }
  if (a.size() < 2) { fprintf(stderr, "usage: sim run|case|hash PROPERTY ... | replay FILE\n"); return 2; }
  const Prop *p = findProp(a[1]);
  if (!p) { fprintf(stderr, "unknown property %s\n", a[1].c_str()); return 2; }
  uint64_t seed = strtoull(opt("--seed", "1").c_str(), nullptr, 10);
  if (a[0] == "case") {
    Case c = makeCase(*p, seed, strtoull(opt("--index", "0").c_str(), nullptr, 10));
    fputs(c.ser().c_str(), stdout);
    Stats st;
    Verdict v = p->check(c, st);
    printf("# verdict %d %s %s hash %016llx nontrivial %d\n", v.kind, v.cls.c_str(), v.msg.c_str(), (unsigned long long)v.hash, v.nontrivial);
    for (auto &k : st.n) if (k.second) printf("# %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    if (opt("--trace", "0") != "0") printf("%s", v.trace.c_str());
    return 0;
  }
  if (a[0] == "hash") { // event-log hash of every run: the determinism proof diffs these
    uint64_t from = strtoull(opt("--from", "0").c_str(), nullptr, 10), to = strtoull(opt("--to", "100").c_str(), nullptr, 10);
    for (uint64_t i = from; i < to; i++) {
      Stats st;
      Verdict v = p->check(makeCase(*p, seed, i), st);
      printf("%llu %d %016llx\n", (unsigned long long)i, v.kind, (unsigned long long)v.hash);
    }
    return 0;
  }
  // ------------------------------------------------------------ run
  std::string tier = opt("--tier", "quick");
  uint64_t runs = tier == "thorough" ? p->thoroughRuns : p->quickRuns;
  if (opt("--runs", "") != "") runs = strtoull(opt("--runs", "").c_str(), nullptr, 10);
  int W = atoi(opt("--workers", "8").c_str());
  double limit = atof(opt("--wall", tier == "thorough" ? "3000" : "240").c_str());
  double t0 = nowS();
  printf("sim: property=%s tier=%s VERIF_SEED=%llu runs=%llu workers=%d\n", p->id, tier.c_str(), (unsigned long long)seed, (unsigned long long)runs, W);
  fflush(stdout);
  volatile uint64_t *minViol = (uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *minViol = UINT64_MAX;
  std::vector<int> fds;
  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    int fd = memfd_create("worker", 0);
    fds.push_back(fd);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      WorkerOut o;
      for (uint64_t i = w; i < runs; i += W) {
        if (i > *minViol) break;
        if (nowS() - t0 > limit) { o.st.add("stopped_at_wall_limit"); break; }
        Case c = makeCase(*p, seed, i);
        double ts = nowS();
        Verdict v = p->check(c, o.st);
        double el = nowS() - ts;
        if (el > 5) o.st.add("slow_cases");
        if (getenv("SIM_SLOW") && el > atof(getenv("SIM_SLOW"))) fprintf(stderr, "slow %s index %llu: %.2f s\n", p->id, (unsigned long long)i, el);
        o.evals++;
        o.hash ^= mix64(v.hash ^ mix64(i));
        if (v.kind == Verdict::SKIP) { o.skips++; continue; }
        if (v.nontrivial) {
          o.nontriv++;
          uint64_t h = 7;
          for (auto &j : c.jobs) { Case one; one.jobs = {j}; h = hashStr(one.ser(), h); }
          o.st.sigs.push_back(h);
          if (o.samples.size() < 2 && w < 3) o.samples.push_back(fmt("run %llu: ", (unsigned long long)i) + c.describe());
        }
        if (v.kind == Verdict::VIOL) {
          o.viols[i] = v.cls + ": " + v.msg;
          uint64_t cur = *minViol;
          while (i < cur && !__sync_bool_compare_and_swap((uint64_t *)minViol, cur, i)) cur = *minViol;
          break;
        }
      }
      writeOut(fd, o);
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool bad = false;
  for (pid_t q : pids) { int st; while (waitpid(q, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "sim: a worker failed (status %x)\n", st); bad = true; } }
  if (bad) return 2;
  WorkerOut all;
  std::set<uint64_t> shapes, sigs;
  for (int fd : fds) {
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s(n, 0);
    if (pread(fd, &s[0], n, 0) != n) return 2;
    readOut(s, all, shapes, sigs);
    close(fd);
  }
  double searchS = nowS() - t0;
  int rc = 0;
  std::string vioJson;
  if (!all.viols.empty()) {
    uint64_t idx = all.viols.begin()->first;
    Case c = makeCase(*p, seed, idx);
    Stats st;
    Verdict v1 = p->check(c, st), v2 = p->check(c, st);
    if (v1.kind != Verdict::VIOL || v2.kind != Verdict::VIOL || v1.hash != v2.hash || v1.cls != v2.cls) {
      fprintf(stderr, "sim: run %llu of %s did not repeat (%s / %s)\n", (unsigned long long)idx, p->id, v1.cls.c_str(), v2.cls.c_str());
      return 2;
    }
    Case orig = c;
    if (v1.concrete) {
      Verdict vc = p->check(*v1.concrete, st);
      if (vc.kind == Verdict::VIOL && vc.cls == v1.cls) c = *v1.concrete;
    }
    shrink(c, v1, *p, 25000);
    Verdict vm = p->check(c, st);
    if (vm.kind != Verdict::VIOL) { c = orig; vm = p->check(c, st); }
    std::string dir = opt("--replays", "replays");
    mkdir(dir.c_str(), 0777);
    std::string file = dir + fmt("/%s-%llu-%llu.replay", p->id, (unsigned long long)seed, (unsigned long long)idx);
    {
      std::ofstream os(file, std::ios::binary);
      os << "# property " << p->id << ", VERIF_SEED " << seed << ", run " << idx << ", class " << vm.cls << "\n";
      std::istringstream ms(vm.msg + "\nschedule and fault trace:\n" + vm.trace);
      std::string l;
      while (std::getline(ms, l)) os << "# " << l << "\n";
      os << c.ser();
    }
    // a fresh process must reproduce it from the file alone
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      int nul = open("/dev/null", 2);
      dup2(nul, 1);
      execl("/proc/self/exe", "sim", "replay", file.c_str(), nullptr);
      _exit(3);
    }
    int stt;
    while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1) {
      fprintf(stderr, "sim: the replay file %s did not reproduce in a fresh process\n", file.c_str());
      return 2;
    }
    printf("%s\n%s", vm.msg.c_str(), c.describe().c_str());
    printf("VIOLATION property=%s replay=%s\n", p->id, file.c_str());
    rc = 1;
  }
  double wall = nowS() - t0;
  std::string ev = opt("--evidence", "");
  if (!ev.empty()) {
    std::string j = "{\n";
    j += fmt(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", p->id, tier.c_str(), (unsigned long long)seed, p->level);
    j += fmt("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"out_of_scope_discarded\": %llu,\n", (unsigned long long)all.evals, sigs.size(), (unsigned long long)all.skips);
    j += "  \"rule\": \"" + jsonEsc(p->rule) + "\",\n";
    j += fmt("  \"seeds_per_hour\": %.0f,\n  \"simulated_executions_per_hour\": %.0f,\n", all.evals / searchS * 3600, all.st.n["simulated_executions"] / searchS * 3600);
    j += fmt("  \"simulated_seconds_covered\": %.3f,\n", all.st.n["simulated_us"] / 1e6);
    j += fmt("  \"distinct_event_sequences\": %zu,\n  \"distinct_event_sequences_measure\": \"hash of the order of seam events (reads, waits, writes, faults, thread switches) of one execution\",\n", shapes.size());
    j += "  \"counters\": {";
    bool f = true;
    for (auto &k : all.st.n) { j += fmt("%s\n   \"%s\": %llu", f ? "" : ",", k.first.c_str(), (unsigned long long)k.second); f = false; }
    j += "\n  },\n  \"ran_real_code\": \"" + jsonEsc(p->real) + "\",\n  \"ran_stub\": \"" + jsonEsc(p->stub) + "\",\n  \"samples\": [";
    f = true;
    for (size_t i = 0; i < all.samples.size() && i < 4; i++) { j += (f ? "\n   \"" : ",\n   \"") + jsonEsc(all.samples[i]) + "\""; f = false; }
    j += "\n  ]\n },\n \"assumptions\": [\"search by seeds: a clean batch is evidence, not proof\"],\n";
    j += fmt(" \"wall_s\": %.2f,\n \"violations\": %zu\n}\n", wall, all.viols.size());
    std::ofstream os(ev, std::ios::binary);
    os << j;
    if (!os) { fprintf(stderr, "sim: cannot write %s\n", ev.c_str()); return 2; }
  }
  printf("sim: %llu scenarios (%zu distinct non-trivial, %llu out of scope), %llu simulated executions, %zu distinct event sequences, %.1f s, hash %016llx\n",
         (unsigned long long)all.evals, sigs.size(), (unsigned long long)all.skips, (unsigned long long)all.st.n["simulated_executions"], shapes.size(), wall, (unsigned long long)all.hash);
  return rc;
}
