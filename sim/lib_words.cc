// Library executions as simulated runs
#include "timed_automaton.hh"
#include "lib_ta.hh"
#include "word_container.hh"
#include "sched.hh"
#include <sstream>
Spec libSpec(const Job &j, const Plan &p) {
  Spec s = monaaSpec(j, p);
  s.prog = Prog::Lib;
  s.argv.clear();
  s.logName.clear();
  const Job *jp = &j;
  bool bin = p.enc.binary;
  s.lib = [jp, bin]() {
    TimedAutomaton a;
    if (jp->hasTre) treToTA(treStr(jp->tre, jp->treStyle), a, jp->mode == SIGNAL);
    else buildTA(jp->ta, a);
    FILE *f = simin::logFile();
    RecState st;
    matchMode((Mode)jp->mode, a, f, bin, jp->vec, st);
    fclose(f);
  };
  return s;
}
// operations on the on-demand container; see props_hist.cc
Spec wordSpecOf(const Job &j, const Plan &p) {
  Spec s;
  s.prog = Prog::Lib;
  s.log.bytes = logBytes(j, p);
  s.log.chunks = p.chunks;
  s.log.errAt = p.rerrAt;
  s.log.errNo = p.rerrNo;
  s.log.errTransient = p.rerrTransient;
  s.mem = p.mem;
  s.inBuf = p.inBuf;
  const Job *jp = &j;
  bool bin = p.enc.binary;
  s.lib = [jp, bin]() {
    FILE *f = simin::logFile();
    WordLazyDeque w(f, bin);
    for (long op : jp->nums) {
      long n = op / 4;
      char buf[128];
      switch (op % 4) {
      case 0: snprintf(buf, sizeof buf, "fetch %ld %d\n", n, (int)w.fetch(n)); break;
      case 1:
        try { auto e = (n & 1) ? w.at(n) : w[n]; snprintf(buf, sizeof buf, "at %ld %d %a\n", n, (unsigned char)e.first, (double)e.second); }
        catch (const std::out_of_range &) { snprintf(buf, sizeof buf, "at %ld out_of_range\n", n); }
        break;
      case 2:
        try { w.setFront(n); snprintf(buf, sizeof buf, "setFront %ld ok\n", n); }
        catch (const std::out_of_range &) { snprintf(buf, sizeof buf, "setFront %ld out_of_range\n", n); }
        break;
      default:
        if (w.size() == std::numeric_limits<std::size_t>::max()) snprintf(buf, sizeof buf, "size unknown\n");
        else snprintf(buf, sizeof buf, "size %zu\n", w.size());
      }
      simin::NoSim g;
      simin::text(buf);
    }
    fclose(f);
  };
  return s;
}
// the records of the in-memory container
Spec readAllSpec(const Job &j, const Plan &p) {
  Job k = j;
  k.nums.clear();
  Spec s = wordSpecOf(k, p);
  bool bin = p.enc.binary;
  s.lib = [bin]() {
    FILE *f = simin::logFile();
    WordVector<std::pair<Alphabet, double>> w(f, bin);
    for (size_t n = 0; n < w.size(); n++) {
      auto e = n & 1 ? w.at(n) : w[n];
      simin::NoSim g;
      simin::text(fmt("%d %a\n", (unsigned char)e.first, (double)e.second));
    }
    fclose(f);
  };
  return s;
}
static void makeTA(const Job &j, TimedAutomaton &own) {
  switch (j.kind) {
  case 0: buildTA(j.ta, own); break;
  case 1: dotToTA(j.ta.dot(j.treStyle), own); break;
  case 2: case 3: treToTA(treStr(j.tre, j.treStyle), own, j.mode == SIGNAL); break;
  case 4: treToTA(j.strs[0], own); break;
  case 5: dotToTA(j.strs[0], own); break;
  }
}
// one operation of a history or of a thread; output goes under the tag
void histOp(const Job &j, int tag, TimedAutomaton &own, TimedAutomaton *reuse) {
  auto say = [tag](const std::string &s) {
    simin::NoSim g;
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l)) simin::text(fmt("%d|", tag) + l + "\n");
  };
  try {
    TimedAutomaton *a = reuse;
    if (!a) {
      a = &own;
      if (own.states.empty()) makeTA(j, own);
    }
    if (j.kind >= 3) {
      std::ostringstream os;
      os << *a;
      say(os.str());
      return;
    }
    const Plan &p = j.plans[0];
    ReadPlan *rp;
    {
      simin::NoSim g;
      rp = new ReadPlan;
      rp->bytes = logBytes(j, p);
      rp->chunks = p.chunks;
      rp->errAt = p.rerrAt;
      rp->errNo = p.rerrNo;
      rp->errTransient = p.rerrTransient;
    }
    FILE *f = simin::openLog(*rp, p.inBuf);
    RecState st;
    st.tag = tag;
    st.throwAt = j.nums[1];
    try {
      matchMode((Mode)j.mode, *a, f, p.enc.binary, j.vec, st);
      say("done");
    } catch (const Abandon &) { say("abandoned"); }
    fclose(f);
  } catch (const std::exception &e) { say("error"); }
}
Spec histSpec(const std::vector<const Job *> &jobs, const Plan &base, uint64_t perJob) {
  Spec s;
  s.prog = Prog::Lib;
  s.mem = base.mem;
  s.maxPatternAllocs = s.maxAllocs = perJob * jobs.size();
  s.lib = [jobs]() {
    std::vector<TimedAutomaton> ta(jobs.size());
    for (size_t k = 0; k < jobs.size(); k++) {
      long ref = jobs.size() > 1 ? jobs[k]->nums[0] : -1;
      histOp(*jobs[k], (int)k, ta[k], ref >= 0 ? &ta[ref] : nullptr);
      for (size_t q = 0; q <= k; q++) { // automata that no later operation uses go away, and their memory is used again
        bool later = false;
        for (size_t x = k + 1; x < jobs.size(); x++) if (jobs[x]->nums[0] == (long)q) later = true;
        if (!later) ta[q] = TimedAutomaton();
      }
    }
  };
  return s;
}
// the same operations as threads
Spec threadSpec(const std::vector<const Job *> &jobs, const Plan &base, const SchedPlan &sp, uint64_t perJob) {
  Spec s;
  s.prog = Prog::Lib;
  s.mem = base.mem;
  s.maxPatternAllocs = s.maxAllocs = perJob * jobs.size();
  s.lib = [jobs, sp]() {
    std::vector<TimedAutomaton> ta(jobs.size());
    std::vector<std::function<void()>> f;
    {
      simin::NoSim g;
      for (size_t k = 0; k < jobs.size(); k++) {
        long ref = jobs[k]->nums[0];
        const Job *j = jobs[k];
        TimedAutomaton *own = &ta[k], *reuse = ref >= 0 ? &ta[ref] : nullptr;
        f.push_back([=]() { histOp(*j, (int)k, *own, reuse); });
      }
    }
    for (size_t k = 0; k < jobs.size(); k++) // what several threads use is built before they start
      for (size_t q = k + 1; q < jobs.size(); q++)
        if (jobs[q]->nums[0] == (long)k && ta[k].states.empty()) makeTA(*jobs[k], ta[k]);
    schedRun(sp, f);
    simin::NoSim g;
    f.clear();
  };
  return s;
}
