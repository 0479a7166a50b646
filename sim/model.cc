#include <functional>
#include "model.hh"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <set>

// ------------------------------------------------------------------ zones
void Zone3::close() {
  for (int k = 0; k < 3; k++)
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        i64 s = addB(d[i][k], d[k][j]);
        if (s < d[i][j]) d[i][j] = s;
      }
}
static std::string bstr(i64 b, bool neg) {
  if (b >= INF) return neg ? "-inf" : "inf";
  i64 v = b >> 1;
  double x = (double)v / UNIT;
  return fmt("%g", neg ? -x : x);
}
std::string Zone3::str() const {
  auto one = [&](int i, int j, const char *n) {
    return bstr(d[j][i], true) + (d[j][i] & 1 && d[j][i] < INF ? "<=" : "<") + n + (d[i][j] & 1 && d[i][j] < INF ? "<=" : "<") + bstr(d[i][j], false);
  };
  return "{" + one(1, 0, "t") + ", " + one(2, 0, "t'") + ", " + one(2, 1, "t'-t") + "}";
}
void normalise(Fed &f) {
  Fed g;
  for (auto &z : f) {
    Zone3 c = z;
    c.close();
    if (!c.empty()) g.push_back(c);
  }
  std::sort(g.begin(), g.end());
  g.erase(std::unique(g.begin(), g.end()), g.end());
  f.swap(g);
}
void restrictSegments(Fed &f) {
  for (auto &z : f) {
    z.tight(0, 1, mkB(0, true));  // -t <= 0
    z.tight(1, 2, mkB(0, false)); // t - t' < 0
    z.close();
  }
  normalise(f);
}
static i64 negB(i64 b) { return mkB(-(b >> 1), !(b & 1)); }
bool included(const Fed &A, const Fed &B, Zone3 *witness, bool *gaveUp) {
  std::set<Zone3> bs(B.begin(), B.end());
  // index B by lower bound of t for pruning
  for (auto &a : A) {
    if (bs.count(a)) continue;
    std::vector<Zone3> rest{a};
    std::vector<const Zone3 *> cand;
    bool done = false;
    for (auto &b : B) {
      if (a.subset(b)) { done = true; break; }
      Zone3 m = a.meet(b);
      if (!m.empty()) cand.push_back(&b);
    }
    if (done) continue;
    for (auto *b : cand) {
      std::vector<Zone3> next;
      for (auto &r : rest) {
        Zone3 cur = r;
        if (r.meet(*b).empty()) { next.push_back(r); continue; }
        for (int i = 0; i < 3 && !cur.empty(); i++)
          for (int j = 0; j < 3 && !cur.empty(); j++) {
            if (i == j || b->d[i][j] >= INF || cur.d[i][j] <= b->d[i][j]) continue;
            Zone3 out = cur;
            out.tight(j, i, negB(b->d[i][j])); // x_i - x_j > bound
            out.close();
            if (!out.empty()) next.push_back(out);
            cur.tight(i, j, b->d[i][j]);
            cur.close();
          }
      }
      rest.swap(next);
      if (rest.empty()) break;
      if (rest.size() > 5000) { if (gaveUp) *gaveUp = true; rest.clear(); break; }
    }
    if (!rest.empty()) { if (witness) *witness = rest[0]; return false; }
  }
  return true;
}
// ------------------------------------------------------------------ report
static bool parseNum(const char *&p, i64 &v, int &inf) {
  while (*p == ' ') p++;
  bool neg = false;
  if (*p == '-') { neg = true; p++; }
  inf = 0;
  if (!strncmp(p, "inf", 3)) { p += 3; inf = neg ? -1 : 1; v = 0; return true; }
  if (*p < '0' || *p > '9') return false;
  i64 a = 0;
  int nd = 0;
  while (*p >= '0' && *p <= '9') { if (++nd > 12) return false; a = a * 10 + (*p++ - '0'); }
  i64 fr = 0;
  if (*p == '.') {
    p++;
    int k = 0;
    while (*p >= '0' && *p <= '9') { if (k < 6) fr = fr * 10 + (*p - '0'); k++; p++; }
    if (k > 6) return false;
    for (; k < 6; k++) fr *= 10;
  }
  v = a * UNIT + fr;
  if (neg) v = -v;
  return true;
}
static bool parseLine(const std::string &l, const char *name, i64 &lo, i64 &hi) {
  const char *p = l.c_str();
  i64 v;
  int inf;
  if (!parseNum(p, v, inf)) return false;
  while (*p == ' ') p++;
  if (*p++ != '<') return false;
  bool c = false;
  if (*p == '=') { c = true; p++; }
  lo = inf < 0 ? INF : inf > 0 ? mkB(-INF / 8, false) : mkB(-v, c);
  if (*p++ != ' ') return false;
  size_t n = strlen(name);
  if (strncmp(p, name, n) || p[n] != ' ') return false;
  p += n + 1;
  if (*p++ != '<') return false;
  c = false;
  if (*p == '=') { c = true; p++; }
  if (*p++ != ' ') return false;
  if (!parseNum(p, v, inf)) return false;
  hi = inf > 0 ? INF : inf < 0 ? mkB(-INF / 8, false) : mkB(v, c);
  return *p == 0;
}
bool parseReport(const std::string &out, Fed &fed, std::string &why, bool partial) {
  size_t p = 0;
  std::vector<std::string> ls;
  while (p < out.size()) {
    size_t q = out.find('\n', p);
    if (q == std::string::npos) {
      if (!partial) { why = "report does not end with a newline"; return false; }
      break;
    }
    ls.push_back(out.substr(p, q - p));
    p = q + 1;
  }
  size_t full = ls.size() / 4;
  if (ls.size() % 4 && !partial) { why = "report ends inside a zone"; return false; }
  for (size_t k = 0; k < full; k++) {
    Zone3 z;
    if (!parseLine(ls[4 * k], "t", z.d[0][1], z.d[1][0]) || !parseLine(ls[4 * k + 1], "t'", z.d[0][2], z.d[2][0]) ||
        !parseLine(ls[4 * k + 2], "t' - t", z.d[1][2], z.d[2][1]) || ls[4 * k + 3] != "=============================") {
      why = fmt("malformed zone %zu: %s", k, esc(ls[4 * k] + "/" + ls[4 * k + 1] + "/" + ls[4 * k + 2]).c_str());
      return false;
    }
    fed.push_back(z);
  }
  return true;
}
// ------------------------------------------------------------------ automata
int TA::clocks() const {
  int m = 0;
  for (auto &e : edges) {
    for (auto &g : e.guard) m = std::max(m, g.x + 1);
    for (int r : e.resets) m = std::max(m, r + 1);
  }
  return m;
}
static const char *OPS[] = {"<", "<=", ">", ">="};
// style 0: as tre2ta writes it; others: other ways to write the same automaton in DOT
std::string TA::dot(int style) const {
  Rng r(style * 7919 + 3);
  auto p = [&](int a, int b) { return style != 0 && r.chance(a, b); };
  const char *id = p(1, 2) ? "" : p(1, 3) ? "q_" : "loc";
  bool defaults = p(1, 2), edgesFirst = p(1, 4), quote = !p(1, 2), upper = p(1, 6);
  std::string s = p(1, 6) ? "digraph {\n" : p(1, 6) ? "digraph \"the automaton\" {" : "digraph G {\n";
  auto sep = [&]() { return p(1, 2) ? std::string(";\n") : p(1, 8) ? std::string(" // x0 < 1\n") : p(1, 8) ? std::string(" /* [label=a] */\n") : std::string("\n"); };
  std::string nodes, arcs;
  for (int i = 0; i < n(); i++) {
    std::string a = fmt("init=%d", init[i] ? 1 : 0), b = fmt("match=%d", match[i] ? 1 : 0);
    if (defaults && !init[i] && p(2, 3)) a = "";
    if (defaults && !match[i] && p(2, 3)) b = "";
    if (p(1, 3)) std::swap(a, b);
    std::string at = a.empty() ? b : b.empty() ? a : p(1, 3) ? a + "][" + b : a + (p(1, 3) ? "," : ", ") + b;
    nodes += fmt("        %s%d", id, i + 1) + (at.empty() ? "" : (p(1, 4) ? "[" : " [") + at + "]") + sep();
  }
  for (auto &e : edges) {
    std::vector<std::string> at;
    at.push_back(fmt(quote || !isalpha(e.label) ? "label=\"%c\"" : "label=%c", e.label));
    if (!e.resets.empty()) {
      std::string q = "reset=\"{";
      for (size_t k = 0; k < e.resets.size(); k++) q += fmt("%s%d", k ? ", " : "", e.resets[k]);
      at.push_back(q + "}\"");
    }
    if (!e.guard.empty()) {
      std::string q = "guard=\"{";
      for (size_t k = 0; k < e.guard.size(); k++) q += fmt("%sx%d %s %d", k ? ", " : "", e.guard[k].x, OPS[e.guard[k].op], e.guard[k].c);
      at.push_back(q + "}\"");
    }
    if (p(1, 3)) r.shuffle(at);
    if (p(1, 8)) at.push_back("color=red");
    std::string l;
    for (size_t k = 0; k < at.size(); k++) l += (k ? (p(1, 5) ? "][" : p(1, 3) ? "," : ", ") : "") + at[k];
    arcs += fmt("        %s%d%s%s%d [", id, e.src + 1, p(1, 3) ? " -> " : "->", id, e.dst + 1) + l + "]" + sep();
  }
  (void)upper;
  s += edgesFirst ? arcs + nodes : nodes + arcs;
  return s + "}\n";
}
std::string TA::ser() const {
  std::string s = fmt("%d", n());
  for (int i = 0; i < n(); i++) s += fmt(" %d", (init[i] ? 1 : 0) + (match[i] ? 2 : 0));
  s += fmt(" %zu", edges.size());
  for (auto &e : edges) {
    s += fmt(" %d %d %d %zu", e.src, e.dst, e.label, e.guard.size());
    for (auto &g : e.guard) s += fmt(" %d %d %d", g.x, g.op, g.c);
    s += fmt(" %zu", e.resets.size());
    for (int r : e.resets) s += fmt(" %d", r);
  }
  return s;
}
TA TA::deser(const std::string &str) {
  TA t;
  const char *p = str.c_str();
  char *q;
  auto get = [&]() { long v = strtol(p, &q, 10); p = q; return v; };
  int n = get();
  for (int i = 0; i < n; i++) { int f = get(); t.init.push_back(f & 1); t.match.push_back((f & 2) != 0); }
  int m = get();
  for (int i = 0; i < m; i++) {
    Edge e;
    e.src = get(); e.dst = get(); e.label = get();
    int k = get();
    while (k-- > 0) { Guard g; g.x = get(); g.op = get(); g.c = get(); e.guard.push_back(g); }
    k = get();
    while (k-- > 0) e.resets.push_back(get());
    t.edges.push_back(e);
  }
  return t;
}
bool taInScope(const TA &a, Mode m) {
  if (a.n() == 0) return false;
  bool anyInit = false;
  for (int i = 0; i < a.n(); i++) {
    if (a.init[i]) anyInit = true;
    if (a.init[i] && a.match[i] && m != PLAIN) return false;
  }
  if (!anyInit) return false;
  for (auto &e : a.edges) {
    if (e.src >= a.n() || e.dst >= a.n() || e.label == 0 || e.label > 126) return false;
    if (m == DOLLAR && a.match[e.dst] && e.label != '$') return false;
    if (m == PLAIN && e.label == '$') return false;
    if (m != PLAIN && a.init[e.src] && e.label == '$' && a.match[e.dst]) return false;
    for (auto &g : e.guard) if (g.x < 0 || g.x > 100 || g.c < 0) return false;
  }
  return true;
}
namespace {
struct Cfg {
  int s;
  std::vector<i64> reset; // -1: at the start
  i64 lo, hi;             // -t <= lo, t <= hi
  bool operator<(const Cfg &o) const { return std::tie(s, reset, lo, hi) < std::tie(o.s, o.reset, o.lo, o.hi); }
};
bool nonempty(i64 lo, i64 hi) { i64 s = addB(lo, hi); return s >= 1; }
} // namespace
RefResult refTA(const TA &A, const Log &w, Mode mode, uint64_t workLimit) {
  RefResult R;
  int N = (int)w.size(), C = A.clocks();
  std::vector<std::vector<const Edge *>> out(A.n());
  for (auto &e : A.edges) out[e.src].push_back(&e);
  R.death.assign(N, N);
  for (int i = 0; i < N; i++) {
    std::map<Cfg, uint64_t> cur;
    i64 lo0 = mkB(i ? -w[i - 1].t : 0, true), hi0 = mkB(w[i].t, false);
    for (int s = 0; s < A.n(); s++)
      if (A.init[s] && nonempty(lo0, hi0)) cur[Cfg{s, std::vector<i64>(C, -1), lo0, hi0}]++;
    if (cur.empty()) { R.death[i] = i; continue; }
    for (int j = i;; j++) {
      // accepting at t' before (or at) event j
      for (auto &kv : cur) {
        const Cfg &c = kv.first;
        for (auto *e : out[c.s]) {
          if (!A.match[e->dst]) continue;
          if (mode == PLAIN) { if (j >= N || e->label != w[j].label) continue; }
          else if (e->label != '$') continue;
          Zone3 z;
          z.tight(0, 1, c.lo);
          z.tight(1, 0, c.hi);
          z.tight(1, 2, mkB(0, true)); // t <= t'
          if (j > 0) z.tight(0, 2, mkB(-w[j - 1].t, false)); else z.tight(0, 2, mkB(0, true));
          if (j < N) z.tight(2, 0, mkB(w[j].t, true));
          for (auto &g : e->guard) {
            i64 k = (i64)g.c * UNIT;
            i64 r = c.reset[g.x];
            bool strict = g.op == 0 || g.op == 2;
            if (r < 0) {
              if (g.op < 2) z.tight(2, 1, mkB(k, !strict)); else z.tight(1, 2, mkB(-k, !strict));
            } else {
              if (g.op < 2) z.tight(2, 0, mkB(r + k, !strict)); else z.tight(0, 2, mkB(-(r + k), !strict));
            }
          }
          z.close();
          if (!z.empty()) R.matches.push_back(Match{i, j, z});
        }
      }
      if (j >= N) break;
      std::map<Cfg, uint64_t> nxt;
      for (auto &kv : cur) {
        const Cfg &c = kv.first;
        for (auto *e : out[c.s]) {
          if (e->label != w[j].label) continue;
          Cfg d = c;
          bool ok = true;
          for (auto &g : e->guard) {
            i64 k = (i64)g.c * UNIT;
            i64 r = c.reset[g.x];
            if (r < 0) {
              // T - t op k
              if (g.op == 0) d.lo = std::min(d.lo, mkB(k - w[j].t, false));
              if (g.op == 1) d.lo = std::min(d.lo, mkB(k - w[j].t, true));
              if (g.op == 2) d.hi = std::min(d.hi, mkB(w[j].t - k, false));
              if (g.op == 3) d.hi = std::min(d.hi, mkB(w[j].t - k, true));
            } else {
              i64 v = w[j].t - r;
              if ((g.op == 0 && !(v < k)) || (g.op == 1 && !(v <= k)) || (g.op == 2 && !(v > k)) || (g.op == 3 && !(v >= k))) { ok = false; break; }
            }
          }
          if (!ok || !nonempty(d.lo, d.hi)) continue;
          if (mode == OPTIONAL && A.match[e->dst]) {
            Zone3 z;
            z.tight(0, 1, d.lo);
            z.tight(1, 0, d.hi);
            z.tight(2, 0, mkB(w[j].t, true));
            z.tight(0, 2, mkB(-w[j].t, true));
            z.close();
            if (!z.empty()) R.matches.push_back(Match{i, j, z});
          }
          for (int x : e->resets) d.reset[x] = w[j].t;
          d.s = e->dst;
          uint64_t &m = nxt[d];
          m += kv.second;
          R.work += kv.second;
          if (R.work > workLimit) { R.exploded = true; return R; }
        }
      }
      cur.swap(nxt);
      if (cur.empty()) { R.death[i] = j; break; }
    }
  }
  return R;
}
// ------------------------------------------------------------------ expressions
TreP tAtom(unsigned char c) { auto t = std::make_shared<Tre>(); t->op = Tre::Atom; t->c = c; return t; }
TreP tDollar() { auto t = std::make_shared<Tre>(); t->op = Tre::Dollar; return t; }
TreP tUn(Tre::Op o, TreP a) { auto t = std::make_shared<Tre>(); t->op = o; t->a = a; return t; }
TreP tBin(Tre::Op o, TreP a, TreP b) { auto t = std::make_shared<Tre>(); t->op = o; t->a = a; t->b = b; return t; }
TreP tWithin(TreP a, int lo, bool loC, int hi, bool hiC, int form) {
  auto t = std::make_shared<Tre>();
  t->op = Tre::Within; t->a = a; t->lo = lo; t->loC = loC; t->hi = hi; t->hiC = hiC; t->form = form;
  return t;
}
static std::string ivStr(const Tre &t) {
  std::string s;
  if (t.hi < 0) s = fmt("%s%d", t.loC ? ">=" : ">", t.lo);
  else if (t.form == 1 && t.lo == 0 && t.loC) s = fmt("%s%d", t.hiC ? "<=" : "<", t.hi);
  else if (t.form == 1 && t.lo == t.hi && t.loC && t.hiC) s = fmt("=%d", t.lo);
  else return fmt("%c%d,%d%c", t.loC ? '[' : '(', t.lo, t.hi, t.hiC ? ']' : ')');
  return t.form == 2 ? s : "(" + s + ")";
}
static std::string treStr2(const TreP &t, int style, Tre::Op ctx) {
  bool bare = style > 0; // leave out parentheses that grouping rules cannot change the meaning of
  switch (t->op) {
  case Tre::Atom: return std::string(1, (char)t->c);
  case Tre::Dollar: return "$";
  case Tre::Plus: case Tre::Star: {
    std::string s = treStr2(t->a, style, t->op);
    s += t->op == Tre::Plus ? "+" : "*";
    return bare && (ctx == Tre::Or || ctx == Tre::Dollar) ? s : "(" + s + ")";
  }
  case Tre::Cat: {
    std::string s = treStr2(t->a, style, Tre::Cat) + (style == 2 ? " " : "") + treStr2(t->b, style, Tre::Cat);
    return bare && ctx == Tre::Cat ? s : "(" + s + ")";
  }
  case Tre::Or: {
    std::string s = treStr2(t->a, style, Tre::Or) + (style == 2 ? " | " : "|") + treStr2(t->b, style, Tre::Or);
    return "(" + s + ")";
  }
  case Tre::And: return "(" + treStr2(t->a, style, Tre::And) + (style == 2 ? " & " : "&") + treStr2(t->b, style, Tre::And) + ")";
  case Tre::Within: return "(" + treStr2(t->a, style, Tre::Within) + "%" + ivStr(*t) + ")";
  }
  return "";
}
std::string treStr(const TreP &t, int style) { return treStr2(t, style, Tre::Within); }
std::string treSer(const TreP &t) {
  switch (t->op) {
  case Tre::Atom: return fmt("0 %d ", t->c);
  case Tre::Dollar: return "1 ";
  case Tre::Plus: return "2 " + treSer(t->a);
  case Tre::Star: return "3 " + treSer(t->a);
  case Tre::Cat: return "4 " + treSer(t->a) + treSer(t->b);
  case Tre::Or: return "5 " + treSer(t->a) + treSer(t->b);
  case Tre::And: return "6 " + treSer(t->a) + treSer(t->b);
  case Tre::Within: return fmt("7 %d %d %d %d %d ", t->lo, t->loC, t->hi, t->hiC, t->form) + treSer(t->a);
  }
  return "";
}
static TreP treDes(const char *&p) {
  char *q;
  auto get = [&]() { long v = strtol(p, &q, 10); if (q == p) { v = 1; } p = q; return v; };
  int o = get();
  switch (o) {
  case 0: return tAtom(get());
  case 1: return tDollar();
  case 2: return tUn(Tre::Plus, treDes(p));
  case 3: return tUn(Tre::Star, treDes(p));
  case 4: case 5: case 6: { TreP a = treDes(p), b = treDes(p); return tBin((Tre::Op)(Tre::Cat + o - 4), a, b); }
  default: { int lo = get(), lc = get(), hi = get(), hc = get(), f = get(); TreP a = treDes(p); return tWithin(a, lo, lc, hi, hc, f); }
  }
}
TreP treDeser(const std::string &s) { const char *p = s.c_str(); return treDes(p); }
bool treNull(const TreP &t) {
  switch (t->op) {
  case Tre::Atom: case Tre::Dollar: return false;
  case Tre::Plus: return treNull(t->a);
  case Tre::Star: return true;
  case Tre::Cat: case Tre::And: return treNull(t->a) && treNull(t->b);
  case Tre::Or: return treNull(t->a) || treNull(t->b);
  case Tre::Within: return treNull(t->a) && t->lo == 0 && t->loC && (t->hi != 0 || t->hiC);
  }
  return false;
}
bool treHasDollar(const TreP &t) { return t->op == Tre::Dollar || (t->a && treHasDollar(t->a)) || (t->b && treHasDollar(t->b)); }
int treSize(const TreP &t) { return 1 + (t->a ? treSize(t->a) : 0) + (t->b ? treSize(t->b) : 0); }
// T ::= $ | phi T | T|T | T&T | T%I
static bool isT(const TreP &t) {
  switch (t->op) {
  case Tre::Dollar: return true;
  case Tre::Cat: return !treHasDollar(t->a) && isT(t->b);
  case Tre::Or: case Tre::And: return isT(t->a) && isT(t->b);
  case Tre::Within: return isT(t->a);
  default: return false;
  }
}
static bool mayBeEmptyT(const TreP &t) { // matches with no event before $
  switch (t->op) {
  case Tre::Dollar: return true;
  case Tre::Cat: return treNull(t->a) && mayBeEmptyT(t->b);
  case Tre::Or: return mayBeEmptyT(t->a) || mayBeEmptyT(t->b);
  case Tre::And: return mayBeEmptyT(t->a) && mayBeEmptyT(t->b);
  case Tre::Within: return mayBeEmptyT(t->a);
  default: return false;
  }
}
bool treInScope(const TreP &t) { return t && isT(t) && !mayBeEmptyT(t); }
namespace {
struct TInt { i64 lo, hi; bool operator<(const TInt &o) const { return std::tie(lo, hi) < std::tie(o.lo, o.hi); } }; // -t <= lo, t <= hi
using MRes = std::set<std::pair<int, TInt>>;
struct TreRef {
  const Log &w;
  int N;
  uint64_t work = 0, limit;
  bool exploded = false;
  std::map<std::pair<const Tre *, int>, MRes> memoEv, memoT;
  TreRef(const Log &w, uint64_t lim) : w(w), N((int)w.size()), limit(lim) {}
  // start s: isT ? region s (first event s) : after event s (first event s+1)
  const MRes &M(const Tre *t, int s, bool T) {
    auto &memo = T ? memoT : memoEv;
    auto key = std::make_pair(t, s);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    MRes r = compute(t, s, T);
    work += r.size() + 1;
    if (work > limit) exploded = true;
    return memo[key] = r;
  }
  TInt full(int s, bool T) { return T ? TInt{mkB(s ? -w[s - 1].t : 0, true), mkB(w[s].t, false)} : TInt{INF, INF}; }
  void inDur(const Tre *t, int s, bool T, int e, TInt ti, MRes &r) {
    i64 lo = (i64)t->lo * UNIT, hi = (i64)t->hi * UNIT;
    if (T) {
      ti.hi = std::min(ti.hi, mkB(w[e].t - lo, t->loC));
      if (t->hi >= 0) ti.lo = std::min(ti.lo, mkB(hi - w[e].t, t->hiC));
      if (nonempty(ti.lo, ti.hi)) r.insert({e, ti});
    } else {
      i64 d = w[e].t - w[s].t;
      if ((t->loC ? d >= lo : d > lo) && (t->hi < 0 || (t->hiC ? d <= hi : d < hi))) r.insert({e, ti});
    }
  }
  MRes compute(const Tre *t, int s, bool T) {
    MRes r;
    if (exploded) return r;
    int first = T ? s : s + 1;
    switch (t->op) {
    case Tre::Atom:
      if (first < N && w[first].label == t->c) { TInt f = full(s, T); if (!T || nonempty(f.lo, f.hi)) r.insert({first, f}); }
      break;
    case Tre::Dollar: break;
    case Tre::Or: { r = M(t->a.get(), s, T); const MRes &b = M(t->b.get(), s, T); r.insert(b.begin(), b.end()); break; }
    case Tre::And: {
      const MRes a = M(t->a.get(), s, T), &b = M(t->b.get(), s, T);
      for (auto &x : a) for (auto &y : b) if (x.first == y.first) {
        TInt ti{std::min(x.second.lo, y.second.lo), std::min(x.second.hi, y.second.hi)};
        if (nonempty(ti.lo, ti.hi)) r.insert({x.first, ti});
      }
      break;
    }
    case Tre::Cat: {
      const MRes a = M(t->a.get(), s, T);
      for (auto &x : a) {
        if (treNull(t->b)) r.insert(x);
        for (auto &y : M(t->b.get(), x.first, false)) r.insert({y.first, x.second});
      }
      if (treNull(t->a)) for (auto &y : M(t->b.get(), s, T)) r.insert(y);
      break;
    }
    case Tre::Plus: case Tre::Star: {
      MRes fr = M(t->a.get(), s, T);
      std::vector<std::pair<int, TInt>> todo(fr.begin(), fr.end());
      r = fr;
      while (!todo.empty() && !exploded) {
        auto x = todo.back();
        todo.pop_back();
        for (auto &y : M(t->a.get(), x.first, false)) {
          std::pair<int, TInt> z{y.first, x.second};
          if (r.insert(z).second) { todo.push_back(z); if (++work > limit) exploded = true; }
        }
      }
      break;
    }
    case Tre::Within:
      for (auto &x : M(t->a.get(), s, T)) inDur(t, s, T, x.first, x.second, r);
      break;
    }
    return r;
  }
  std::vector<std::pair<int, Zone3>> TM(const Tre *t, int s, bool T) {
    std::vector<std::pair<int, Zone3>> r;
    if (exploded) return r;
    auto add = [&](int j, Zone3 z) {
      z.close();
      if (z.empty()) return;
      for (auto &p : r) if (p.first == j && p.second == z) return;
      r.push_back({j, z});
      if (++work > limit) exploded = true;
    };
    switch (t->op) {
    case Tre::Dollar: {
      int j = T ? s : s + 1;
      Zone3 z;
      if (T) { TInt f = full(s, T); z.tight(0, 1, f.lo); z.tight(1, 0, f.hi); z.tight(1, 2, mkB(0, false)); }
      if (j > 0) z.tight(0, 2, mkB(-w[j - 1].t, false));
      if (j < N) z.tight(2, 0, mkB(w[j].t, true));
      add(j, z);
      break;
    }
    case Tre::Cat:
      for (auto x : M(t->a.get(), s, T))
        for (auto &y : TM(t->b.get(), x.first, false)) {
          Zone3 z = y.second;
          z.tight(0, 1, x.second.lo);
          z.tight(1, 0, x.second.hi);
          add(y.first, z);
        }
      if (treNull(t->a)) for (auto &y : TM(t->b.get(), s, T)) add(y.first, y.second);
      break;
    case Tre::Or:
      for (auto &y : TM(t->a.get(), s, T)) add(y.first, y.second);
      for (auto &y : TM(t->b.get(), s, T)) add(y.first, y.second);
      break;
    case Tre::And: {
      auto a = TM(t->a.get(), s, T), b = TM(t->b.get(), s, T);
      for (auto &x : a) for (auto &y : b) if (x.first == y.first) add(x.first, x.second.meet(y.second));
      break;
    }
    case Tre::Within:
      for (auto &y : TM(t->a.get(), s, T)) {
        Zone3 z = y.second;
        i64 lo = (i64)t->lo * UNIT, hi = (i64)t->hi * UNIT;
        if (T) {
          z.tight(1, 2, mkB(-lo, t->loC));
          if (t->hi >= 0) z.tight(2, 1, mkB(hi, t->hiC));
        } else {
          z.tight(0, 2, mkB(-(w[s].t + lo), t->loC));
          if (t->hi >= 0) z.tight(2, 0, mkB(w[s].t + hi, t->hiC));
        }
        add(y.first, z);
      }
      break;
    default: break;
    }
    return r;
  }
};
} // namespace
// How many ways there are to read the parts of the log as parts of the
// expression: what a translation without merging of equal configurations does
static double treWays(const TreP &t, const Log &w) {
  int N = (int)w.size();
  double tot = 0;
  using Mat = std::vector<double>; // [s*(N+1)+e]: the events s..e-1
  std::function<Mat(const TreP &)> go = [&](const TreP &t) -> Mat {
    Mat r((N + 1) * (N + 1), 0);
    auto at = [&](Mat &m, int s, int e) -> double & { return m[s * (N + 1) + e]; };
    auto cat = [&](Mat &a, Mat &b) {
      Mat c((N + 1) * (N + 1), 0);
      for (int s = 0; s < N; s++)
        for (int k = s + 1; k < N; k++) {
          double x = at(a, s, k);
          if (x > 0) for (int e = k + 1; e <= N; e++) at(c, s, e) += x * at(b, k, e);
        }
      return c;
    };
    switch (t->op) {
    case Tre::Atom: for (int s = 0; s < N; s++) if (w[s].label == t->c) at(r, s, s + 1) = 1; break;
    case Tre::Dollar: break;
    case Tre::Within: r = go(t->a); break;
    case Tre::Or: case Tre::And: {
      Mat a = go(t->a), b = go(t->b);
      for (size_t i = 0; i < r.size(); i++) r[i] = t->op == Tre::Or ? a[i] + b[i] : a[i] * b[i];
      break;
    }
    case Tre::Cat: {
      Mat a = go(t->a), b = go(t->b);
      r = cat(a, b);
      if (treNull(t->a)) for (size_t i = 0; i < r.size(); i++) r[i] += b[i];
      if (treNull(t->b)) for (size_t i = 0; i < r.size(); i++) r[i] += a[i];
      break;
    }
    default: {
      Mat a = go(t->a);
      for (int s = N - 1; s >= 0; s--)
        for (int e = s + 1; e <= N; e++) {
          double x = at(a, s, e);
          for (int k = s + 1; k < e; k++) x += at(a, s, k) * at(r, k, e);
          at(r, s, e) = x;
        }
    }
    }
    for (double x : r) tot += x;
    return r;
  };
  go(t);
  return tot;
}
RefResult refTRE(const TreP &t, const Log &w, uint64_t workLimit) {
  RefResult R;
  if (w.size() <= 120 && treWays(t, w) > (double)workLimit) { R.exploded = true; return R; }
  TreRef ref(w, workLimit);
  for (int i = 0; i < (int)w.size() && !ref.exploded; i++)
    for (auto &p : ref.TM(t.get(), i, true)) {
      Zone3 z = p.second;
      z.tight(1, 2, mkB(0, true));
      z.close();
      if (!z.empty()) R.matches.push_back(Match{i, p.first, z});
    }
  R.exploded = ref.exploded;
  R.work = ref.work;
  return R;
}
// An alternative: a sequence of letters, no two neighbours equal, with bounds on the durations of spans of it
struct Dur { int lo, hi; bool loC, hiC; bool none() const { return hi >= 0 && (lo > hi || (lo == hi && !(loC && hiC))); } };
static Dur meet(const Dur &a, const Dur &b) {
  Dur d = a;
  if (b.lo > d.lo) { d.lo = b.lo; d.loC = b.loC; } else if (b.lo == d.lo) d.loC = d.loC && b.loC;
  if (b.hi >= 0) {
    if (d.hi < 0 || b.hi < d.hi) { d.hi = b.hi; d.hiC = b.hiC; } else if (b.hi == d.hi) d.hiC = d.hiC && b.hiC;
  }
  return d;
}
struct SigAlt {
  std::string w;
  std::map<std::pair<int, int>, Dur> span; // letters i..j
  Dur of(int i, int j) const { auto it = span.find({i, j}); return it == span.end() ? Dur{0, -1, true, false} : it->second; }
  bool endsLong(int at) const { for (auto &s : span) if (s.first.first != s.first.second && (s.first.first == at || s.first.second == at)) return true; return false; }
};
// letters an alternative can begin or end with, also one that a conjunction drops; contains a conjunction
static void sigEnds(const TreP &t, bool first, std::set<char> &out, bool &conj) {
  switch (t->op) {
  case Tre::Atom: out.insert((char)t->c); return;
  case Tre::Plus: case Tre::Star: case Tre::Within: sigEnds(t->a, first, out, conj); return;
  case Tre::Cat: {
    std::set<char> dummy;
    sigEnds(t->a, first, first || treNull(t->b) ? out : dummy, conj);
    sigEnds(t->b, first, !first || treNull(t->a) ? out : dummy, conj);
    return;
  }
  case Tre::And: conj = true; // fall through
  default: if (t->a) sigEnds(t->a, first, out, conj); if (t->b) sigEnds(t->b, first, out, conj); return;
  }
}
static void sigLetters(const TreP &t, std::set<char> &out) {
  if (t->op == Tre::Atom) out.insert((char)t->c);
  if (t->a) sigLetters(t->a, out);
  if (t->b) sigLetters(t->b, out);
}
// the durations of one or more pieces of the given duration
static bool repeated(const Dur &d, std::vector<Dur> &out) {
  if (d.hi < 0) { out.push_back(d); return true; }
  if (d.lo == d.hi) return false; // infinitely many points
  for (int k = 1;; k++) {
    // k pieces take k*lo..k*hi; if k+1 pieces follow without a hole, so do all others
    i64 end = (i64)k * d.hi, begin = (i64)(k + 1) * d.lo;
    if (begin < end || (begin == end && (d.hiC || d.loC))) { out.push_back(Dur{k * d.lo, -1, d.loC, false}); return true; }
    if (begin == end) return false; // a hole of one point: the repository fills it, and its tests say so
    out.push_back(Dur{k * d.lo, k * d.hi, d.loC, d.hiC});
    if (k > 30) return false;
  }
}
// false: out of scope
static bool sigAlts(const TreP &t, std::vector<SigAlt> &out) {
  switch (t->op) {
  case Tre::Atom: { SigAlt a; a.w = std::string(1, (char)t->c); out.push_back(a); return true; }
  case Tre::Star: out.push_back(SigAlt()); // fall through
  case Tre::Plus: { // of one letter
    std::set<char> letters;
    sigLetters(t->a, letters);
    std::vector<SigAlt> x;
    if (letters.size() != 1 || treNull(t->a) || !sigAlts(t->a, x) || x.size() > 3) return false;
    for (int set = 1; set < 1 << x.size(); set++) { // the ones that are used, once or more
      std::vector<Dur> sums{Dur{0, 0, true, true}};
      for (size_t k = 0; k < x.size(); k++) if (set >> k & 1) {
        std::vector<Dur> many, next;
        if (!repeated(x[k].of(0, 0), many)) return false;
        for (auto &p : sums) for (auto &q : many) next.push_back(Dur{p.lo + q.lo, p.hi < 0 || q.hi < 0 ? -1 : p.hi + q.hi, p.loC && q.loC, p.hiC && q.hiC});
        sums.swap(next);
      }
      for (auto &d : sums) { SigAlt a; a.w = x[0].w; a.span[{0, 0}] = d; out.push_back(a); }
      if (out.size() > 40) return false;
    }
    return true;
  }
  case Tre::Or: return sigAlts(t->a, out) && sigAlts(t->b, out) && out.size() <= 40;
  case Tre::And: {
    std::vector<SigAlt> x, y;
    if (!sigAlts(t->a, x) || !sigAlts(t->b, y)) return false;
    for (auto &p : x) for (auto &q : y) {
      if (p.w != q.w) continue;
      SigAlt z = p;
      bool none = false;
      for (auto &s : q.span) { Dur m = meet(z.of(s.first.first, s.first.second), s.second); z.span[s.first] = m; none |= m.none(); }
      if (!none) out.push_back(z);
      if (out.size() > 40) return false;
    }
    return true;
  }
  case Tre::Within: {
    size_t n = out.size();
    if (treNull(t->a) || !sigAlts(t->a, out)) return false;
    Dur d{t->lo, t->hi, t->loC, t->hiC};
    std::vector<SigAlt> keep(out.begin(), out.begin() + n);
    for (size_t k = n; k < out.size(); k++) {
      SigAlt a = out[k];
      std::pair<int, int> key{0, (int)a.w.size() - 1};
      Dur m = meet(a.of(key.first, key.second), d);
      a.span[key] = m;
      if (!m.none()) keep.push_back(a);
    }
    out.swap(keep);
    return true;
  }
  case Tre::Cat: {
    std::vector<SigAlt> x, y;
    if (!sigAlts(t->a, x) || !sigAlts(t->b, y)) return false;
    std::set<char> e, b;
    bool conj = false;
    sigEnds(t->a, false, e, conj);
    sigEnds(t->b, true, b, conj);
    // a piece cut inside a conjunction: the cut must be the same for both of its sides
    if (conj) for (char c : e) if (b.count(c)) return false;
    for (auto &p : x) for (auto &q : y) {
      SigAlt z = p;
      int m = (int)p.w.size(), off = m;
      if (p.w.empty() || q.w.empty()) { out.push_back(m ? p : q); continue; }
      if (p.w.back() == q.w[0]) { // the neighbours are one piece, whose durations add up
        if (p.endsLong(m - 1) || q.endsLong(0)) return false;
        off = m - 1;
        Dur a = p.of(m - 1, m - 1), b = q.of(0, 0);
        z.span[{m - 1, m - 1}] = Dur{a.lo + b.lo, a.hi < 0 || b.hi < 0 ? -1 : a.hi + b.hi, a.loC && b.loC, a.hiC && b.hiC};
        z.w += q.w.substr(1);
      } else z.w += q.w;
      for (auto &s : q.span) {
        if (off < m && s.first == std::make_pair(0, 0)) continue;
        z.span[{s.first.first + off, s.first.second + off}] = s.second;
      }
      out.push_back(z);
      if (out.size() > 40) return false;
    }
    return true;
  }
  default: return false;
  }
}
bool sigInScope(const TreP &t) {
  std::vector<SigAlt> alts;
  if (treNull(t) || !sigAlts(t, alts) || alts.empty() || alts.size() > 24) return false;
  for (auto &a : alts) if (a.span.size() > 6) return false;
  return true;
}
TA sigTA(const TreP &t) {
  std::vector<SigAlt> alts;
  TA a;
  if (!sigAlts(t, alts)) return a;
  for (auto &w : alts) {
    int s = a.n(), m = (int)w.w.size();
    for (int k = 0; k <= m; k++) { a.init.push_back(k == 0); a.match.push_back(k == m); }
    std::vector<Edge> es;
    for (int k = 0; k < m; k++) es.push_back(Edge{s + k, s + k + 1, (unsigned char)w.w[k], {}, {}});
    int x = 0;
    for (auto &sp : w.span) { // a clock for every span
      const Dur &d = sp.second;
      if (sp.first.first > 0) es[sp.first.first - 1].resets.push_back(x);
      es[sp.first.second].guard.push_back({x, d.loC ? 3 : 2, d.lo});
      if (d.hi >= 0) es[sp.first.second].guard.push_back({x, d.hiC ? 1 : 0, d.hi});
      x++;
    }
    for (auto &e : es) a.edges.push_back(e);
  }
  return a;
}
bool sigLogOk(const Log &w) {
  for (size_t k = 1; k < w.size(); k++) if (w[k].label == w[k - 1].label) return false;
  return true;
}
// ------------------------------------------------------------------ encoding
std::string numStr(i64 t, int style, Rng &r) {
  i64 a = t / UNIT, f = t % UNIT;
  std::string s = fmt("%lld", (long long)a);
  std::string fr = fmt("%06lld", (long long)f);
  while (!fr.empty() && fr.back() == '0') fr.pop_back();
  if (style && r.chance(1, 30)) { // long spellings of the same number
    int n = r.chance(1, 6) ? r.range(300, 5000) : r.range(8, 90);
    if (r.chance(1, 2)) return std::string(n, '0') + s + (fr.empty() ? "" : "." + fr);
    return s + "." + fr + std::string(n, '0');
  }
  switch (style ? r.below(6) : 0) {
  case 1: return s + "." + fr + "00";
  case 2: return "0" + s + (fr.empty() ? "" : "." + fr);
  case 3: return "+" + s + (fr.empty() ? "" : "." + fr);
  case 4: return s + (fr.empty() ? ".0" : "." + fr) + "e0";
  case 5: return fmt("%lld%06llde-6", (long long)a, (long long)f);
  default: return s + (fr.empty() ? "" : "." + fr);
  }
}
std::string encodeLog(const Log &w, const Enc &e, std::vector<size_t> *recEnd) {
  std::string s;
  Rng r(e.seed);
  static const char *WS = " \t\n\r\v\f";
  auto ws = [&](int lo) {
    if (!e.style) return std::string(" ");
    std::string o;
    int n = r.chance(1, 40) ? r.range(50, 300) : r.range(lo, 3);
    for (int i = 0; i < n; i++) o += e.style == 1 ? (r.chance(1, 2) ? ' ' : '\t') : WS[r.below(6)];
    return o;
  };
  for (size_t k = 0; k < w.size(); k++) {
    if (e.binary) {
      s += (char)w[k].label;
      double d = (double)w[k].t / UNIT;
      s.append((const char *)&d, 8);
      if (recEnd) recEnd->push_back(s.size());
    } else {
      if (e.style && k == 0) s += ws(0);
      s += (char)w[k].label;
      s += ws(e.style && r.chance(1, 8) ? 0 : 1);
      s += numStr(w[k].t, e.style, r);
      size_t at = s.size() + 1;
      if (e.style == 2 && k + 1 < w.size() && isalpha(w[k + 1].label) && !strchr("eEpPxXiInN", w[k + 1].label) && r.chance(1, 12)) {
        // no separator: the label of the next record ends the timestamp
        if (recEnd) recEnd->push_back(at);
        continue;
      }
      if (k + 1 < w.size() || e.finalNewline) s += e.style ? (r.chance(1, 4) ? ws(1) : std::string("\n") + ws(0)) : std::string("\n");
      if (recEnd) recEnd->push_back(std::min(at, s.size()));
    }
  }
  return s;
}
RefLog refRead(const std::string &b, bool binary) {
  RefLog R;
  size_t p = 0;
  auto addRec = [&](unsigned char l, double d) {
    double m = d * UNIT;
    i64 v = 0;
    if (!(std::fabs(m) < 4e15) || m != std::floor(m) || (m == 0 && std::signbit(m))) R.inexact = true; else v = (i64)m;
    R.log.push_back(Ev{l, v});
    R.consumed.push_back(p);
    R.d.push_back(d);
  };
  if (binary) {
    while (p < b.size()) {
      if (b.size() - p < 9) { R.stop = 1; return R; }
      double d;
      memcpy(&d, b.data() + p + 1, 8);
      p += 9;
      addRec((unsigned char)b[p - 9], d);
    }
    return R;
  }
  auto isSp = [](unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); };
  auto dig = [](unsigned char c) { return c >= '0' && c <= '9'; };
  for (;;) {
    while (p < b.size() && isSp(b[p])) p++;
    if (p >= b.size()) return R;
    unsigned char l = b[p++];
    while (p < b.size() && isSp(b[p])) p++;
    if (p >= b.size()) { R.stop = 1; return R; }
    // decimal numbers: [+-] digits [. digits] [e [+-] digits]
    size_t q = p;
    std::string num;
    if (b[q] == '+' || b[q] == '-') num += b[q++];
    if (q >= b.size()) { R.stop = 1; return R; }
    size_t ds = 0;
    while (q < b.size() && dig(b[q])) { num += b[q++]; ds++; }
    if (q < b.size() && b[q] == '.') {
      num += b[q++];
      while (q < b.size() && dig(b[q])) { num += b[q++]; ds++; }
    }
    if (q < b.size() && ((ds == 0 && (b[q] == 'i' || b[q] == 'I' || b[q] == 'n' || b[q] == 'N')) || (ds == 1 && num.back() == '0' && (b[q] == 'x' || b[q] == 'X')))) {
      R.inexact = R.unclear = true; // inf, nan and hexadecimal numbers: no claim is made about them
      R.stop = 2;
      return R;
    }
    if (ds == 0) { R.stop = q >= b.size() ? 1 : 2; return R; }
    if (q < b.size() && (b[q] == 'e' || b[q] == 'E')) {
      size_t save = q;
      std::string ex = "e";
      q++;
      if (q < b.size() && (b[q] == '+' || b[q] == '-')) ex += b[q++];
      size_t ed = 0;
      while (q < b.size() && dig(b[q])) { ex += b[q++]; ed++; }
      if (ed == 0) {
        // an exponent without digits: libraries differ in what they make of it
        (void)save;
        R.inexact = R.unclear = true;
        R.stop = q >= b.size() ? 1 : 2;
        return R;
      }
      num += ex;
    }
    p = q;
    addRec(l, strtod(num.c_str(), nullptr));
  }
}
