// A simulated scenario as plain data: what is generated, minimised, written to
// replay files and executed.
#pragma once
#include "exec.hh"
#include "model.hh"

struct Plan { // the environment of one execution
  Enc enc;
  bool named = false;               // the log is a named file
  int argStyle = 0;
  bool quiet = false;
  std::vector<Chunk> chunks;
  int inBuf = 4096, outBuf = 4096;
  MemPlan mem;
  long rerrAt = -1; int rerrNo = 5; bool rerrTransient = false;
  long wLimit = -1; int wErrNo = 28; bool wTransient = false;
  long killAt = -1;
  std::vector<uint32_t> taChunks;   // short reads of the automaton file
  long taErrAt = -1; int taOpenErr = 0, logOpenErr = 0;
  std::vector<uint32_t> wChunks; int closeErr = 0; // output file of tre2ta
  std::string ser() const;
  static Plan deser(const std::string &);
};
struct Job {
  int kind = 0;                     // meaning per property
  int mode = 0;                     // Mode of library matching
  int vec = 0;                      // 1: in-memory word container
  bool hasTre = false;
  TA ta;
  TreP tre;
  int treStyle = 0;
  Log log;
  std::string raw;                  // bytes (log or file) where they are not an encoding of log
  bool hasRaw = false;
  std::vector<Plan> plans;
  std::vector<long> nums;
  std::vector<std::string> strs;
};
struct Case {
  std::string prop;
  uint64_t seed = 0;
  uint64_t index = 0;
  std::vector<Job> jobs;
  std::vector<long> nums;
  std::string ser() const;
  static Case deser(const std::string &);
  std::string describe() const;
};
// the bytes of the log of a job under a plan
std::string logBytes(const Job &, const Plan &, std::vector<size_t> *recEnd = nullptr);
std::string patternText(const Job &);
bool smallPattern(const Job &);  // its preparation must finish quickly
Spec monaaSpec(const Job &, const Plan &);

struct Verdict {
  enum { OK, VIOL, SKIP } kind = OK;
  std::string cls, msg;
  bool nontrivial = false;
  uint64_t hash = 1;       // of everything observed, for the determinism gate
  std::string trace;       // event trace of the decisive execution
  std::shared_ptr<Case> concrete; // the same scenario with the decisions of the scheduler written out, for minimisation
};
struct Stats {
  std::map<std::string, uint64_t> n;
  std::vector<uint64_t> shapes;   // distinct schedules (event-type sequences with thread switches)
  std::vector<uint64_t> sigs;     // distinct non-trivial cases
  void add(const std::string &k, uint64_t v = 1) { n[k] += v; }
  void noteRun(const RunResult &);
};
struct Prop {
  const char *id;
  int quickRuns, thoroughRuns;
  Case (*gen)(Rng &, uint64_t index);
  Verdict (*check)(const Case &, Stats &);
  const char *rule;
  const char *level;
  const char *real, *stub;
};
const std::vector<Prop> &allProps();
const Prop *findProp(const std::string &);
bool shrink(Case &c, const Verdict &v, const Prop &p, int budgetMs);
std::string traceText(const RunResult &, size_t maxEv = 60);
