#pragma once
#include "case.hh"
struct TaOpt {
  Mode mode = DOLLAR;
  int maxStates = 6, maxClocks = 3, maxConst = 6;
  bool acyclic = false, join = false, shift = false;
  std::string letters;
};
TA genTA(Rng &, const TaOpt &);
struct TreOpt { int size = 6; int maxConst = 6; bool bounded = false; std::string letters; };
TreP genTre(Rng &, const TreOpt &);
TreP genSig(Rng &, const TreOpt &, int size);
std::string genLetters(Rng &);
// a log biased towards the pattern
Log genLogTA(Rng &, const TA &, const std::string &letters, int len, i64 maxGap, int noisePct, i64 grid = 125000);
Log genLogTre(Rng &, const TreP &, const std::string &letters, int len, i64 maxGap, int noisePct, i64 grid = 125000);
i64 genGap(Rng &, i64 maxGap, i64 grid);
MemPlan genMem(Rng &, bool allowGuard = true);
void genDelivery(Rng &, Plan &, size_t bytes);
Plan genPlan(Rng &, const Job &);
// pattern and log for end-marker matching through the command line
void genPattern(Rng &, Job &, int treePct, Mode mode = DOLLAR);
// also signal mode (sigPct of 100)
void genCliPattern(Rng &, Job &, int treePct, int sigPct = 10);
void genSignal(Rng &, Job &);
void genJobLog(Rng &, Job &, int len, bool ties = false);
TaOpt swarmTaOpt(Rng &, Mode);
