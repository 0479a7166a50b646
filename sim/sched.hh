// Threads of a simulated program: one runs at a time, a seeded scheduler decides
// at every instrumented memory access, allocation and read which one.
#pragma once
#include "exec.hh"
struct SchedPlan {
  bool list = false;           // explicit switches instead of seeded ones
  uint64_t seed = 1;
  uint32_t quantum = 100;      // mean number of yield points between switches
  uint32_t globals = 0;        // 1/n chance of a switch at an access to a global variable (0: none)
  uint32_t maxSwitches = 3000;
  std::vector<long> switches;  // list: yield point * 8 + thread
};
// runs the functions as threads under the plan; only in the tsan build
void schedRun(const SchedPlan &, const std::vector<std::function<void()>> &);
bool schedAvailable();
