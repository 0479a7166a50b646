#include "gen.hh"
#include <algorithm>
#include <functional>

std::string genLetters(Rng &r) {
  switch (r.below(8)) {
  case 0: return "A";
  case 1: case 2: case 3: return "AB";
  case 4: case 5: return "ABC";
  case 6: return "abcdez";
  default: {
    std::string s;
    int n = r.range(2, 4);
    while ((int)s.size() < n) {
      char c = (r.below(2) ? 'a' : 'A') + r.below(26);
      if (s.find(c) == std::string::npos) s += c;
    }
    return s;
  }
  }
}
TaOpt swarmTaOpt(Rng &r, Mode m) {
  TaOpt o;
  o.mode = m;
  o.letters = genLetters(r);
  o.acyclic = r.chance(2, 5);
  o.join = r.chance(1, 12);
  o.shift = !o.join && r.chance(1, 8);
  // the zone automata behind the skip tables grow exponentially with the clocks
  // and polynomially with the constants: large in few dimensions at a time
  if (o.acyclic) {
    o.maxClocks = r.below(6) ? r.below(4) : 4;
    static const int mc[] = {1, 2, 3, 5, 10, 60, 1000, 70000};
    o.maxConst = mc[r.below(o.maxClocks == 1 ? 8 : o.maxClocks <= 2 ? 7 : 3)];
    o.maxStates = r.range(2, o.maxClocks >= 3 ? 4 : o.maxClocks == 2 ? 5 : 7);
    if (o.maxClocks <= 1 && r.chance(1, 12)) o.maxStates = r.range(8, 14);
  } else {
    static const int nc[] = {0, 0, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3};
    o.maxClocks = nc[r.below(12)];
    static const int mc[] = {1, 1, 2, 2, 3, 5};
    o.maxConst = o.maxClocks >= 3 ? 1 : o.maxClocks == 2 ? r.range(1, 2) : mc[r.below(6)];
    o.maxStates = r.range(2, o.maxClocks >= 3 ? 3 : o.maxClocks == 2 ? 4 : o.maxConst > 3 ? 4 : 6);
  }
  return o;
}
static std::vector<Guard> genGuard(Rng &r, const TaOpt &o) {
  std::vector<Guard> g;
  if (!o.maxClocks) return g;
  int n = r.chance(2, 5) ? 0 : r.chance(3, 4) ? 1 : r.range(2, 3);
  for (int k = 0; k < n; k++) {
    Guard q;
    q.x = r.below(o.maxClocks);
    q.op = r.below(4);
    q.c = r.range(q.op == 0 ? 1 : 0, o.maxConst);
    g.push_back(q);
  }
  if (r.chance(1, 8) && o.maxClocks) { // an interval on one clock
    int x = r.below(o.maxClocks), lo = r.range(0, o.maxConst), hi = r.range(lo, o.maxConst);
    g.push_back({x, 2 + (int)r.below(2), lo});
    g.push_back({x, (int)r.below(2), hi});
  }
  return g;
}
static std::vector<int> genResets(Rng &r, const TaOpt &o) {
  std::vector<int> s;
  if (!o.maxClocks || r.chance(2, 5)) return s;
  for (int x = 0; x < o.maxClocks; x++)
    if (r.chance(2, 5)) s.push_back(x);
  return s;
}
// several paths of one length range join in a location, and differ in the order
// of their resets; what follows depends on how the clocks compare
static TA genJoin(Rng &r, const TaOpt &o) {
  TA a;
  auto letter = [&]() { return (unsigned char)o.letters[r.below(o.letters.size())]; };
  int clocks = r.chance(4, 5) ? 2 : 3;
  auto state = [&]() { a.init.push_back(0); a.match.push_back(0); return a.n() - 1; };
  int s0 = state(), join = state();
  a.init[s0] = 1;
  int paths = r.chance(3, 4) ? 2 : 3, c = r.range(0, std::min(o.maxConst, 3)), len = r.range(2, 3);
  for (int k = 0; k < paths; k++) {
    int s = s0, n = r.chance(3, 4) ? len : r.range(2, 3);
    std::vector<int> order;
    for (int x = 0; x < clocks; x++) order.push_back(x);
    r.shuffle(order);
    for (int q = 0; q < n; q++) {
      int d = q == n - 1 ? join : state();
      Edge e{s, d, letter(), {}, {}};
      if (q < clocks && r.chance(5, 6)) e.resets.push_back(order[q]);
      if (r.chance(1, 6)) e.guard.push_back({(int)r.below(clocks), (int)r.below(4), r.range(1, std::max(1, c))});
      a.edges.push_back(e);
      s = d;
    }
  }
  int at = join;
  for (int k = r.below(2); k > 0; k--) { int d = state(); a.edges.push_back(Edge{at, d, letter(), {}, {}}); at = d; }
  int x = r.below(clocks), y = (x + 1) % clocks;
  std::vector<Guard> g = {{x, 2 + (int)r.below(2), c}, {y, (int)r.below(2), std::max(1, r.chance(3, 4) ? c : r.range(0, c))}};
  int acc;
  if (o.mode == DOLLAR || (o.mode == OPTIONAL && r.chance(1, 2))) {
    bool onDollar = r.chance(1, 2);
    int f = state();
    a.edges.push_back(Edge{at, f, letter(), onDollar ? std::vector<Guard>() : g, {}});
    acc = state();
    a.edges.push_back(Edge{f, acc, '$', onDollar ? g : std::vector<Guard>(), {}});
  } else {
    acc = state();
    a.edges.push_back(Edge{at, acc, letter(), g, {}});
  }
  a.match[acc] = 1;
  if (r.chance(1, 2)) r.shuffle(a.edges);
  return a;
}
// a long path and a short path that reads an infix of what the long path reads:
// a trial that fails late on the long path has already seen a match of the short one
static TA genShift(Rng &r, const TaOpt &o) {
  TA a;
  std::string al = o.letters.substr(0, r.chance(3, 4) ? 2 : 3);
  auto letter = [&]() { return (unsigned char)al[r.below(al.size())]; };
  auto state = [&](int init = 0) { a.init.push_back(init); a.match.push_back(0); return a.n() - 1; };
  int clocks = r.chance(1, 6) ? 0 : r.range(1, 2), C = std::min(o.maxConst, clocks == 2 ? 2 : 3);
  auto guard = [&](int pct) {
    std::vector<Guard> g;
    if (clocks && (int)r.below(100) < pct) { int op = r.below(4); g.push_back({(int)r.below(clocks), op, r.range(op == 0 ? 1 : 0, C)}); }
    return g;
  };
  auto resets = [&](int pct) { std::vector<int> v; if (clocks && (int)r.below(100) < pct) v.push_back(r.below(clocks)); return v; };
  int L = r.range(2, 4);
  std::string u;
  for (int k = 0; k < L; k++) u += (char)letter();
  int s0 = state(1), s = s0;
  for (int k = 0; k < L; k++) { int d = state(); a.edges.push_back(Edge{s, d, (unsigned char)u[k], guard(k ? 45 : 15), resets(40)}); s = d; }
  int longEnd = s;
  int n = r.range(0, L - 1), k = r.range(1, L - n);
  s = r.chance(1, 3) ? state(1) : s0;
  // in PLAIN mode the last letter is read by the accepting transition
  bool dollar = o.mode == DOLLAR || (o.mode == OPTIONAL && r.chance(1, 2));
  int acc = state();
  a.match[acc] = 1;
  for (int q = 0; q < k; q++) {
    bool last = q == k - 1;
    int d = last && !dollar ? acc : state();
    a.edges.push_back(Edge{s, d, (unsigned char)u[n + q], guard(last ? 70 : 20), resets(last ? 0 : 30)});
    s = d;
  }
  if (dollar) a.edges.push_back(Edge{s, acc, '$', guard(50), {}});
  // the rest of the long path
  int more = r.range(dollar ? 0 : 1, 2);
  s = longEnd;
  for (int q = 0; q < more; q++) {
    int d = q == more - 1 && !dollar ? acc : state();
    a.edges.push_back(Edge{s, d, r.chance(1, 2) ? (unsigned char)o.letters[o.letters.size() - 1] : letter(), guard(50), {}});
    s = d;
  }
  if (dollar) a.edges.push_back(Edge{s, acc, '$', guard(40), {}});
  if (r.chance(1, 2)) r.shuffle(a.edges);
  return a;
}
TA genTA(Rng &r, const TaOpt &o) {
  if (o.join) return genJoin(r, o);
  if (o.shift) return genShift(r, o);
  TA a;
  int n = o.maxStates;
  a.init.assign(n, 0);
  a.match.assign(n, 0);
  int nInit = r.chance(1, 5) ? std::min(n, r.range(2, 4)) : 1;
  if (r.chance(1, 40)) nInit = n;
  bool dollar = o.mode == DOLLAR || (o.mode == OPTIONAL && r.chance(2, 3));
  // states 0..n-1 are ordinary; accepting states come after them (or among them)
  std::vector<int> perm(n);
  for (int i = 0; i < n; i++) perm[i] = i;
  for (int i = 0; i < nInit; i++) a.init[i] = 1;
  auto edge = [&](int s, int d, unsigned char l) { a.edges.push_back(Edge{s, d, l, genGuard(r, o), genResets(r, o)}); };
  auto letter = [&]() { return (unsigned char)o.letters[r.below(o.letters.size())]; };
  // a spine so that most patterns can match
  for (int i = 0; i + 1 < n; i++)
    if (r.chance(9, 10)) edge(i, i + 1, letter());
  int extra = r.range(0, n + 2);
  for (int k = 0; k < extra; k++) {
    int s = r.below(n), d = r.below(n);
    if (o.acyclic && s >= d && !r.chance(1, 60)) { if (s == d) continue; std::swap(s, d); }
    edge(s, d, letter());
  }
  if (r.chance(1, 6) && !a.edges.empty()) { // parallel edge
    Edge e = a.edges[r.below(a.edges.size())];
    e.guard = genGuard(r, o);
    a.edges.push_back(e);
  }
  if (dollar) {
    int acc = n;
    a.init.push_back(0);
    a.match.push_back(1);
    std::vector<int> cand;
    for (int i = 0; i < n; i++) if (!a.init[i]) cand.push_back(i);
    int m = r.chance(3, 4) ? 1 : 2;
    for (int k = 0; k < m && !cand.empty(); k++) {
      int s = k == 0 && r.chance(3, 4) ? cand.back() : r.pick(cand);
      edge(s, acc, '$');
    }
    if (cand.empty() ) { // all states initial: one more
      a.init.push_back(0); a.match.push_back(0);
      int s = a.n() - 1;
      edge(r.below(n), s, letter());
      edge(s, acc, '$');
    }
    if (r.chance(1, 10)) { // $ to an ordinary state leads nowhere
      edge(r.below(n), r.below(n), '$');
      auto &e = a.edges.back();
      if (a.match[e.dst]) a.edges.pop_back();
    }
  }
  if (o.mode == PLAIN || (o.mode == OPTIONAL && (!dollar || r.chance(1, 2)))) {
    // ordinary accepting states
    int m = r.chance(3, 4) ? 1 : 2;
    for (int k = 0; k < m; k++) {
      int s = k == 0 ? n - 1 : (int)r.below(n);
      if (!a.init[s]) a.match[s] = 1;
      else { a.init.push_back(0); a.match.push_back(1); edge(s, a.n() - 1, letter()); }
    }
  }
  // renumber the states: order in the file, and so addresses and tables, must not matter
  if (r.chance(1, 2)) {
    int N = a.n();
    std::vector<int> p(N);
    for (int i = 0; i < N; i++) p[i] = i;
    r.shuffle(p);
    TA b = a;
    for (int i = 0; i < N; i++) { b.init[p[i]] = a.init[i]; b.match[p[i]] = a.match[i]; }
    for (auto &e : b.edges) { e.src = p[e.src]; e.dst = p[e.dst]; }
    if (r.chance(1, 2)) r.shuffle(b.edges);
    a = b;
  }
  // few clocks, with large numbers
  if (o.acyclic && o.maxClocks >= 1 && o.maxClocks <= 2 && r.chance(1, 25)) {
    int to[2];
    to[0] = r.range(0, 12);
    do to[1] = r.range(9, 14); while (to[1] == to[0]);
    if (o.maxClocks == 1 || r.below(2)) std::swap(to[0], to[1]);
    for (auto &e : a.edges) { for (auto &g : e.guard) g.x = to[g.x]; for (int &x : e.resets) x = to[x]; }
  }
  return a;
}
// ------------------------------------------------------------------ expressions
static TreP genInterval(Rng &r, TreP a, const TreOpt &o) {
  int form = r.below(3);
  if (r.chance(1, 5)) { // lower bound only
    bool c = r.below(2);
    return tWithin(a, r.range(0, o.maxConst), c, -1, false, form);
  }
  if (form) {
    if (r.chance(1, 4)) { int v = r.range(1, o.maxConst); return tWithin(a, v, true, v, true, form); }
    bool c = r.below(2);
    return tWithin(a, 0, true, r.range(1, o.maxConst), c, form);
  }
  int lo = r.range(0, o.maxConst), hi = r.range(lo, o.maxConst + 1);
  if (hi == 0) hi = 1;
  bool lc = r.below(2), hc = r.below(2);
  if (lo == hi && r.chance(9, 10)) hi++;
  return tWithin(a, lo, lc, hi, hc, 0);
}
static TreP genPhi(Rng &r, int sz, const TreOpt &o) {
  auto letter = [&]() { return (unsigned char)o.letters[r.below(o.letters.size())]; };
  if (sz <= 1) return tAtom(letter());
  switch (r.below(10)) {
  case 0: case 1: case 2: { int k = r.range(1, sz - 1); return tBin(Tre::Cat, genPhi(r, k, o), genPhi(r, sz - k, o)); }
  case 3: case 4: { int k = r.range(1, sz - 1); return tBin(Tre::Or, genPhi(r, k, o), genPhi(r, sz - k, o)); }
  case 5: { int k = r.range(1, sz - 1); return tBin(Tre::And, genPhi(r, k, o), genPhi(r, sz - k, o)); }
  case 6: if (o.bounded) return genPhi(r, sz - 1, o); return tUn(Tre::Plus, genPhi(r, sz - 1, o));
  case 7: if (o.bounded) return genPhi(r, sz - 1, o); return tUn(r.below(2) ? Tre::Star : Tre::Plus, genPhi(r, sz - 1, o));
  default: return genInterval(r, genPhi(r, sz - 1, o), o);
  }
}
static TreP genT(Rng &r, int sz, const TreOpt &o, int depth) {
  switch (depth > 2 ? 0 : r.below(10)) {
  case 6: { int k = r.range(1, std::max(1, sz - 1)); return tBin(Tre::Or, genT(r, k, o, depth + 1), genT(r, std::max(1, sz - k), o, depth + 1)); }
  case 7: { int k = r.range(1, std::max(1, sz - 1)); return tBin(Tre::And, genT(r, k, o, depth + 1), genT(r, std::max(1, sz - k), o, depth + 1)); }
  case 8: case 9: return genInterval(r, genT(r, std::max(1, sz - 1), o, depth + 1), o);
  case 5: if (sz > 2) { int k = r.range(1, sz - 1); return tBin(Tre::Cat, genPhi(r, k, o), genT(r, sz - k, o, depth + 1)); } // fall through
  default: {
    TreP d = tDollar();
    if (r.chance(1, 4)) d = genInterval(r, d, o);
    return tBin(Tre::Cat, genPhi(r, std::max(1, sz - 1), o), d);
  }
  }
}
TreP genTre(Rng &r, const TreOpt &o) {
  if (!o.bounded && r.chance(1, 100)) { // many bounds on one segment
    TreP t = genPhi(r, r.range(1, 2), o);
    for (int n = r.range(7, 11); n > 0; n--) t = genInterval(r, t, o);
    t = tBin(Tre::Cat, t, tDollar());
    if (treInScope(t)) return t;
  }
  for (int k = 0; k < 50; k++) {
    TreP t = genT(r, r.range(1, o.size), o, 0);
    if (treInScope(t)) return t;
  }
  return tBin(Tre::Cat, tAtom(o.letters[0]), tDollar());
}
// The same expression with other bounds
static TreP sigTwin(Rng &r, const TreP &t, const TreOpt &o) {
  switch (t->op) {
  case Tre::Within: return r.chance(1, 2) ? sigTwin(r, t->a, o) : genInterval(r, sigTwin(r, t->a, o), o);
  case Tre::Cat: case Tre::Or: case Tre::And: {
    TreP u = tBin(t->op, sigTwin(r, t->a, o), sigTwin(r, t->b, o));
    return r.chance(1, 4) ? genInterval(r, u, o) : u;
  }
  default: return r.chance(1, 4) ? genInterval(r, t, o) : t;
  }
}
TreP genSig(Rng &r, const TreOpt &o, int size) {
  if (size > 1 && r.chance(9, 10)) {
    int k = r.range(1, size - 1);
    TreP a = genSig(r, o, k), b = genSig(r, o, size - k);
    TreP t = tBin(r.chance(1, 4) ? Tre::Or : r.chance(1, 4) ? Tre::And : Tre::Cat, a, b);
    if (t->op == Tre::And && r.chance(2, 3)) t = tBin(Tre::And, a, sigTwin(r, a, o)); // otherwise mostly empty
    return r.chance(1, 5) ? genInterval(r, t, o) : t;
  }
  TreP t = tAtom(o.letters[r.below(o.letters.size())]);
  if (r.chance(1, 6)) t = tUn(r.chance(1, 4) ? Tre::Star : Tre::Plus, t);
  if (r.chance(3, 5)) t = genInterval(r, t, o);
  if (r.chance(1, 12)) t = tBin(r.chance(1, 2) ? Tre::Or : Tre::Cat, t, genInterval(r, tAtom(o.letters[r.below(o.letters.size())]), o));
  if (r.chance(1, 7)) t = tUn(r.chance(1, 4) ? Tre::Star : Tre::Plus, t);
  return r.chance(1, 12) ? genInterval(r, t, o) : t;
}
// sums, choices, repetitions and intersections of durations of one value
static TreP genSum(Rng &r, unsigned char c, int size) {
  if (size <= 1) {
    int lo = r.range(1, 4);
    switch (r.below(8)) {
    case 0: return tWithin(tAtom(c), lo, r.below(2), -1, false, r.below(3));
    case 1: return tWithin(tAtom(c), 0, true, lo, r.below(2), 1 + r.below(2));
    case 2: return tAtom(c);
    default: return tWithin(tAtom(c), lo, r.chance(3, 4), lo + 1 + r.below(4), r.chance(3, 4), 0);
    }
  }
  int k = r.range(1, size - 1);
  switch (r.below(8)) {
  case 0: case 1: return tBin(Tre::Cat, genSum(r, c, k), genSum(r, c, size - k));
  case 2: case 3: return tBin(Tre::Or, genSum(r, c, k), genSum(r, c, size - k));
  case 4: return tBin(Tre::And, genSum(r, c, k), genSum(r, c, size - k));
  case 5: case 6: return tUn(r.chance(1, 4) ? Tre::Star : Tre::Plus, genSum(r, c, size - 1));
  default: { int lo = r.range(0, 5); return tWithin(genSum(r, c, size - 1), lo, r.below(2), lo + r.range(2, 9), r.below(2), 0); }
  }
}
// ------------------------------------------------------------------ logs
i64 genGap(Rng &r, i64 maxGap, i64 grid) {
  i64 k = maxGap / grid;
  if (k < 1) k = 1;
  i64 g;
  switch (r.below(6)) {
  case 0: g = grid; break;
  case 1: case 2: { i64 u = maxGap / UNIT; g = u >= 1 ? (1 + (i64)r.below(u)) * UNIT : grid; break; } // whole units: at the boundaries of guards
  case 3: { i64 u = maxGap / UNIT; g = u >= 1 ? (1 + (i64)r.below(u)) * UNIT + (r.below(2) ? grid : -grid) : grid; break; }
  default: g = (1 + (i64)r.below(k)) * grid;
  }
  return g < grid ? grid : g;
}
Log genLogTA(Rng &r, const TA &a, const std::string &letters, int len, i64 maxGap, int noisePct, i64 grid) {
  Log w;
  std::vector<std::vector<const Edge *>> out(a.n());
  std::vector<int> inits;
  for (auto &e : a.edges) out[e.src].push_back(&e);
  for (int i = 0; i < a.n(); i++) if (a.init[i]) inits.push_back(i);
  i64 t = r.chance(1, 4) ? 0 : r.below(3) * UNIT;
  if (r.chance(1, 30)) t += (i64)r.below(1000000) * UNIT;
  int s = -1;
  std::vector<i64> clk;
  i64 last = t;
  bool first = true;
  while ((int)w.size() < len) {
    if ((int)r.below(100) < noisePct || inits.empty()) {
      t += genGap(r, maxGap, grid);
      unsigned char c = r.chance(3, 4) ? letters[r.below(letters.size())] : "XYxy#!~09"[r.below(9)];
      w.push_back({c, t});
      if (r.chance(1, 3)) s = -1;
      continue;
    }
    if (s < 0) {
      s = r.pick(inits);
      last = t;
      i64 st = t + (r.below(2) ? 0 : (i64)r.below(8) * grid);
      clk.assign(std::max(1, a.clocks()), st);
    }
    std::vector<const Edge *> cand;
    for (auto *e : out[s]) if (e->label != '$') cand.push_back(e);
    if (cand.empty()) { s = -1; if (r.chance(1, 3)) { t += genGap(r, maxGap, grid); w.push_back({(unsigned char)letters[r.below(letters.size())], t}); } continue; }
    const Edge *e = r.pick(cand);
    i64 lo = t + grid, hi = t + std::max(maxGap, 2 * grid);
    bool upper = false;
    for (auto &g : e->guard) {
      i64 b = clk[g.x] + (i64)g.c * UNIT;
      switch (g.op) {
      case 0: hi = std::min(hi, b - grid); upper = true; break;
      case 1: hi = std::min(hi, b); upper = true; break;
      case 2: lo = std::max(lo, b + grid); break;
      case 3: lo = std::max(lo, b); break;
      }
    }
    i64 at;
    if (lo > hi && !upper && r.chance(1, 2)) hi = lo + maxGap; // a long wait
    if (lo > hi || r.chance(1, 12)) { at = t + genGap(r, maxGap, grid); if (r.chance(1, 2)) s = -1; }
    else switch (r.below(4)) {
      case 0: at = lo; break;
      case 1: at = hi; break;
      default: at = lo + (i64)r.below((hi - lo) / grid + 1) * grid;
    }
    if (at <= t) at = t + grid;
    t = at;
    (void)last;
    w.push_back({e->label, t});
    if (s >= 0) { s = e->dst; for (int x : e->resets) clk[x] = t; if (a.match[s] && r.chance(1, 2)) s = -1; }
  }
  if (first && !w.empty() && w[0].t == 0 && r.chance(9, 10)) for (auto &e : w) e.t += grid;
  return w;
}
static void sample(Rng &r, const Tre *t, std::string &s, int depth) {
  if (s.size() > 60) return;
  switch (t->op) {
  case Tre::Atom: s += (char)t->c; break;
  case Tre::Dollar: break;
  case Tre::Cat: sample(r, t->a.get(), s, depth + 1); sample(r, t->b.get(), s, depth + 1); break;
  case Tre::Or: sample(r, r.below(2) ? t->a.get() : t->b.get(), s, depth + 1); break;
  case Tre::And: sample(r, r.below(2) ? t->a.get() : t->b.get(), s, depth + 1); break;
  case Tre::Within: sample(r, t->a.get(), s, depth + 1); break;
  case Tre::Star: if (r.below(3) == 0) break; [[fallthrough]];
  case Tre::Plus: { int n = r.chance(1, 2) ? 1 : r.range(1, 3); for (int k = 0; k < n; k++) sample(r, t->a.get(), s, depth + 1); break; }
  }
}
Log genLogTre(Rng &r, const TreP &p, const std::string &letters, int len, i64 maxGap, int noisePct, i64 grid) {
  Log w;
  i64 t = r.below(3) * UNIT;
  while ((int)w.size() < len) {
    if ((int)r.below(100) < noisePct) {
      t += genGap(r, maxGap, grid);
      w.push_back({(unsigned char)letters[r.below(letters.size())], t});
      continue;
    }
    std::string s;
    sample(r, p.get(), s, 0);
    if (s.empty()) s = letters.substr(0, 1);
    i64 g = r.chance(1, 2) ? maxGap : std::max(grid, maxGap / 4);
    for (char c : s) { t += genGap(r, g, grid); w.push_back({(unsigned char)c, t}); }
  }
  w.resize(len);
  return w;
}
// ------------------------------------------------------------------ environments
MemPlan genMem(Rng &r, bool allowGuard) {
  MemPlan m;
  m.order = r.below(3);
  m.reuse = r.below(4);
  m.fill = r.below(5);
  m.freeFill = r.below(3);
  m.guard = allowGuard && r.chance(1, 12);
  m.seed = r.next() >> 1;
  return m;
}
void genDelivery(Rng &r, Plan &p, size_t bytes) {
  static const int ib[] = {1, 2, 7, 16, 64, 512, 4096, 65536};
  p.inBuf = r.chance(1, 8) ? 0 : ib[r.below(8)];
  static const int ob[] = {-1, -1, 0, 64, 1024, 4096, 4096};
  p.outBuf = ob[r.below(7)];
  p.chunks.clear();
  size_t left = bytes;
  int style = r.below(5);
  if (style == 0) return; // all at once
  int cap = 3000;
  uint32_t mx = style == 1 ? 1 : style == 2 ? 4 : style == 3 ? 40 : (uint32_t)r.logUpTo(bytes + 1);
  while (left > 0 && cap-- > 0) {
    uint32_t n = 1 + r.below(mx);
    if (n > left) n = left;
    p.chunks.push_back({n, (uint32_t)(r.chance(1, 10) ? r.below(5000000) : r.below(2000))});
    left -= n;
  }
}
Plan genPlan(Rng &r, const Job &j) {
  Plan p;
  p.enc.binary = r.chance(1, 3);
  p.enc.style = p.enc.binary ? 0 : r.below(3);
  p.enc.seed = r.next() >> 1;
  p.enc.finalNewline = r.chance(3, 4);
  p.named = r.chance(1, 3);
  p.argStyle = r.below(16);
  p.mem = genMem(r);
  if (!j.hasTre && r.chance(1, 4)) for (int k = r.range(1, 4); k > 0; k--) p.taChunks.push_back(1 + r.below(60));
  genDelivery(r, p, j.log.size() * 9);
  return p;
}
void genPattern(Rng &r, Job &j, int trePct, Mode mode) {
  j.hasTre = (int)r.below(100) < trePct;
  if (j.hasTre) {
    TreOpt o;
    o.letters = genLetters(r);
    o.size = r.range(2, 7);
    static const int mc[] = {2, 3, 5};
    o.maxConst = mc[r.below(3)];
    j.tre = genTre(r, o);
    j.treStyle = r.below(3);
    j.strs = {o.letters};
  } else {
    TaOpt o;
    for (int k = 0; k < 6; k++) {
      o = swarmTaOpt(r, mode);
      j.ta = genTA(r, o);
      size_t e = j.ta.edges.size(), lim = o.maxClocks == 0 ? 99 : o.maxClocks == 1 ? (o.maxConst > 1 ? 8 : 10) : o.maxClocks == 2 ? 6 : 5;
      if (o.join || o.shift || e <= lim || r.chance(1, 12)) break;
    }
    j.treStyle = r.chance(1, 2) ? 0 : 1 + r.below(1000);
    j.strs = {o.letters};
  }
}
void genSignal(Rng &r, Job &j) {
  j.mode = SIGNAL;
  TreOpt o;
  o.letters = genLetters(r);
  static const int mc[] = {2, 3, 5, 20};
  o.maxConst = mc[r.below(4)];
  j.hasTre = true;
  bool sums = r.chance(1, 4);
  for (int k = 0;; k++) {
    j.tre = genSig(r, o, k < 12 ? r.range(1, 6) : 1);
    if (k < 12 && sums) {
      unsigned char c = o.letters[0], d = o.letters.size() > 1 ? o.letters[1] : c == 'A' ? 'B' : 'A';
      TreP t = genSum(r, c, r.range(2, 5));
      if (r.chance(1, 3)) t = tBin(Tre::Cat, t, genSum(r, c, r.range(1, 2)));
      if (r.chance(2, 3)) t = tBin(Tre::Cat, tAtom(d), t);
      if (r.chance(2, 3)) t = tBin(Tre::Cat, t, tAtom(d));
      j.tre = t;
    }
    if (sigInScope(j.tre)) break;
  }
  j.treStyle = r.below(3);
  j.strs = {o.letters};
}
void genCliPattern(Rng &r, Job &j, int trePct, int sigPct) {
  if ((int)r.below(100) < sigPct) genSignal(r, j); else genPattern(r, j, trePct);
}
void genJobLog(Rng &r, Job &j, int len, bool ties) {
  std::string letters = j.strs.empty() ? "AB" : j.strs[0];
  static const int gaps[] = {1, 2, 3, 6, 12};
  i64 g = gaps[r.below(5)] * UNIT;
  int noise = r.below(3) * 15;
  if (r.chance(1, 20)) noise = 80;
  if (j.mode == SIGNAL) { // the value changes at every record
    j.log = genLogTA(r, sigTA(j.tre), letters, len, g, noise);
    Log w;
    for (auto &e : j.log) if (w.empty() || w.back().label != e.label) w.push_back(e);
    j.log.swap(w);
    return;
  }
  j.log = j.hasTre ? genLogTre(r, j.tre, letters, len, g, noise) : genLogTA(r, j.ta, letters, len, g, noise);
  if (ties) { // simultaneous events
    i64 less = 0;
    for (size_t k = 0; k < j.log.size(); k++) {
      j.log[k].t -= less;
      if (k && r.chance(1, 3)) { less += j.log[k].t - j.log[k - 1].t; j.log[k].t = j.log[k - 1].t; }
    }
  }
}
