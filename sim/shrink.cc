// Minimisation: drop or simplify parts of a scenario while the same class of
// violation persists.
#include "case.hh"
#include <functional>
#include <time.h>

static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void treSubs(const TreP &t, std::vector<TreP> &out) { // simpler variants of t
  if (t->a) out.push_back(t->a);
  if (t->b) out.push_back(t->b);
  auto with = [&](TreP a, TreP b) { auto n = std::make_shared<Tre>(*t); n->a = a; n->b = b; return n; };
  if (t->a) { std::vector<TreP> s; treSubs(t->a, s); for (auto &x : s) out.push_back(with(x, t->b)); }
  if (t->b) { std::vector<TreP> s; treSubs(t->b, s); for (auto &x : s) out.push_back(with(t->a, x)); }
}
bool shrink(Case &c, const Verdict &v0, const Prop &p, int budgetMs) {
  double end = nowS() + budgetMs / 1000.0;
  bool any = false;
  auto attempt = [&](const Case &d) {
    if (nowS() > end) return false;
    Stats st;
    Verdict v = p.check(d, st);
    if (v.kind == Verdict::VIOL && v.cls == v0.cls) { c = d; any = true; return true; }
    return false;
  };
  // remove chunks of a vector reached through get()
  auto ddmin = [&](std::function<size_t(Case &)> size, std::function<void(Case &, size_t, size_t)> erase) {
    size_t step = size(c) / 2;
    if (step == 0) step = 1;
    while (size(c) > 0 && nowS() < end) {
      bool ok = false;
      for (size_t i = 0; i < size(c);) {
        size_t k = std::min(step, size(c) - i);
        Case d = c;
        erase(d, i, k);
        if (attempt(d)) ok = true; else i += k;
        if (nowS() > end) return;
      }
      if (step == 1) { if (!ok) break; } else step /= 2;
    }
  };
  for (int round = 0; round < 3 && nowS() < end; round++) {
    std::string before = c.ser();
    ddmin([](Case &c) { return c.jobs.size() > 1 ? c.jobs.size() : 0; }, [](Case &c, size_t i, size_t k) { if (k < c.jobs.size()) c.jobs.erase(c.jobs.begin() + i, c.jobs.begin() + i + k); });
    ddmin([](Case &c) { return c.nums.size(); }, [](Case &c, size_t i, size_t k) { c.nums.erase(c.nums.begin() + i, c.nums.begin() + i + k); });
    for (size_t j = 0; j < c.jobs.size(); j++) {
      ddmin([j](Case &c) { return c.jobs[j].log.size(); }, [j](Case &c, size_t i, size_t k) { auto &l = c.jobs[j].log; l.erase(l.begin() + i, l.begin() + i + k); });
      if (c.jobs[j].hasRaw) ddmin([j](Case &c) { return c.jobs[j].raw.size(); }, [j](Case &c, size_t i, size_t k) { c.jobs[j].raw.erase(i, k); });
      ddmin([j](Case &c) { return c.jobs[j].nums.size(); }, [j](Case &c, size_t i, size_t k) { auto &l = c.jobs[j].nums; l.erase(l.begin() + i, l.begin() + i + k); });
      ddmin([j](Case &c) { return c.jobs[j].ta.edges.size(); }, [j](Case &c, size_t i, size_t k) { auto &l = c.jobs[j].ta.edges; l.erase(l.begin() + i, l.begin() + i + k); });
      // states without edges
      for (int s = c.jobs[j].ta.n() - 1; s >= 0; s--) {
        TA &t = c.jobs[j].ta;
        bool used = false;
        for (auto &e : t.edges) if (e.src == s || e.dst == s) used = true;
        if (used || t.n() <= 1) continue;
        Case d = c;
        TA &u = d.jobs[j].ta;
        u.init.erase(u.init.begin() + s);
        u.match.erase(u.match.begin() + s);
        for (auto &e : u.edges) { if (e.src > s) e.src--; if (e.dst > s) e.dst--; }
        attempt(d);
      }
      for (size_t e = 0; e < c.jobs[j].ta.edges.size(); e++) {
        for (size_t g = 0; g < c.jobs[j].ta.edges[e].guard.size();) {
          Case d = c;
          auto &gv = d.jobs[j].ta.edges[e].guard;
          gv.erase(gv.begin() + g);
          if (!attempt(d)) g++;
        }
        for (size_t g = 0; g < c.jobs[j].ta.edges[e].resets.size();) {
          Case d = c;
          auto &gv = d.jobs[j].ta.edges[e].resets;
          gv.erase(gv.begin() + g);
          if (!attempt(d)) g++;
        }
      }
      if (c.jobs[j].tre) for (bool go = true; go && nowS() < end;) {
        go = false;
        std::vector<TreP> s;
        treSubs(c.jobs[j].tre, s);
        for (auto &x : s) { Case d = c; d.jobs[j].tre = x; if (attempt(d)) { go = true; break; } }
      }
      for (size_t q = 0; q < c.jobs[j].plans.size(); q++) {
        auto tryPlan = [&](std::function<void(Plan &)> f) {
          Case d = c;
          f(d.jobs[j].plans[q]);
          if (d.jobs[j].plans[q].ser() != c.jobs[j].plans[q].ser()) attempt(d);
        };
        tryPlan([](Plan &p) { p.mem.order = p.mem.reuse = p.mem.fill = p.mem.freeFill = p.mem.guard = 0; p.mem.seed = 1; });
        tryPlan([](Plan &p) { p.mem.order = 0; });
        tryPlan([](Plan &p) { p.mem.reuse = 0; });
        tryPlan([](Plan &p) { p.mem.fill = 0; });
        tryPlan([](Plan &p) { p.mem.freeFill = 0; });
        tryPlan([](Plan &p) { p.mem.guard = 0; });
        tryPlan([](Plan &p) { p.chunks.clear(); });
        tryPlan([](Plan &p) { p.taChunks.clear(); });
        tryPlan([](Plan &p) { p.wChunks.clear(); });
        tryPlan([](Plan &p) { p.enc = Enc(); });
        tryPlan([](Plan &p) { p.enc.style = 0; });
        tryPlan([](Plan &p) { p.named = false; });
        tryPlan([](Plan &p) { p.argStyle = 0; });
        tryPlan([](Plan &p) { p.quiet = false; });
        tryPlan([](Plan &p) { p.inBuf = 4096; });
        tryPlan([](Plan &p) { p.outBuf = 4096; });
        tryPlan([](Plan &p) { p.rerrAt = -1; });
        tryPlan([](Plan &p) { p.wLimit = -1; });
        tryPlan([](Plan &p) { p.killAt = -1; });
        tryPlan([](Plan &p) { p.mem.failAt = -1; p.mem.failPersist = false; });
        for (int half = 0; half < 40; half++) {
          std::string b = c.ser();
          tryPlan([](Plan &p) { if (p.mem.failAt > 1) p.mem.failAt /= 2; });
          tryPlan([](Plan &p) { if (p.rerrAt > 0) p.rerrAt /= 2; });
          tryPlan([](Plan &p) { if (p.wLimit > 0) p.wLimit /= 2; });
          if (b == c.ser()) break;
        }
        for (auto f : std::vector<std::function<void(Plan &)>>{[](Plan &p) { if (p.rerrAt > 0) p.rerrAt--; }, [](Plan &p) { if (p.wLimit > 0) p.wLimit--; }, [](Plan &p) { if (p.mem.failAt > 1) p.mem.failAt--; }})
          for (int k = 0; k < 30; k++) { std::string b = c.ser(); tryPlan(f); if (b == c.ser()) break; }
        ddmin([j, q](Case &c) { return q < c.jobs[j].plans.size() ? c.jobs[j].plans[q].chunks.size() : 0; }, [j, q](Case &c, size_t i, size_t k) { auto &l = c.jobs[j].plans[q].chunks; l.erase(l.begin() + i, l.begin() + i + k); });
      }
      if (c.jobs[j].plans.size() > 1)
        ddmin([j](Case &c) { return c.jobs[j].plans.size() > 1 ? c.jobs[j].plans.size() : 0; }, [j](Case &c, size_t i, size_t k) { auto &l = c.jobs[j].plans; if (k < l.size()) l.erase(l.begin() + i, l.begin() + i + k); });
    }
    if (before == c.ser()) break;
  }
  return any;
}
