// Data model, exact reference semantics, and encoders. Nothing here uses /repo.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "util.hh"

using i64 = int64_t;
constexpr i64 UNIT = 1000000; // times are integers in 1e-6

struct Ev { unsigned char label; i64 t; bool operator==(const Ev &o) const { return label == o.label && t == o.t; } };
using Log = std::vector<Ev>;

// ------------------------------------------------------------------ zones
// A bound v or <=v is encoded 2*v+(<=); INF is no bound.
constexpr i64 INF = INT64_MAX / 4;
inline i64 mkB(i64 v, bool le) { return 2 * v + (le ? 1 : 0); }
inline i64 addB(i64 a, i64 b) {
  if (a >= INF || b >= INF) return INF;
  return 2 * ((a >> 1) + (b >> 1)) + (a & b & 1);
}
struct Zone3 {
  i64 d[3][3]; // x_i - x_j  (0: zero, 1: t, 2: t')
  Zone3() { for (auto &r : d) for (auto &x : r) x = INF; for (int i = 0; i < 3; i++) d[i][i] = mkB(0, true); }
  void tight(int i, int j, i64 b) { if (b < d[i][j]) d[i][j] = b; }
  void close();
  bool empty() const { return d[0][0] < 1 || d[1][1] < 1 || d[2][2] < 1; }
  Zone3 meet(const Zone3 &o) const { Zone3 z = *this; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) z.tight(i, j, o.d[i][j]); z.close(); return z; }
  bool subset(const Zone3 &o) const { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (d[i][j] > o.d[i][j]) return false; return true; }
  bool operator<(const Zone3 &o) const { return memcmp(d, o.d, sizeof d) < 0; }
  bool operator==(const Zone3 &o) const { return memcmp(d, o.d, sizeof d) == 0; }
  std::string str() const;
};
using Fed = std::vector<Zone3>;
void normalise(Fed &);                    // drop empty, dedupe, drop included
void restrictSegments(Fed &);             // intersect with 0 <= t < t'
// true if A is included in the union of B; otherwise a piece of A outside B is in *witness
bool included(const Fed &A, const Fed &B, Zone3 *witness, bool *gaveUp);

// parse the text of a report; false if it is malformed. partial: a truncated tail is dropped
bool parseReport(const std::string &out, Fed &fed, std::string &why, bool partial = false);

// ------------------------------------------------------------------ automata
struct Guard { int x, op, c; }; // op: 0 <, 1 <=, 2 >, 3 >=
struct Edge { int src, dst; unsigned char label; std::vector<Guard> guard; std::vector<int> resets; };
struct TA {
  std::vector<char> init, match;
  std::vector<Edge> edges;
  int n() const { return (int)init.size(); }
  int clocks() const;
  std::string dot(int style = 0) const;
  std::string ser() const;
  static TA deser(const std::string &);
};
enum Mode { DOLLAR = 0, PLAIN = 1, OPTIONAL = 2, SIGNAL = 3 };
struct Match { int i, j; Zone3 z; };
struct RefResult {
  bool exploded = false;
  std::vector<Match> matches;
  std::vector<int> death;  // first event index after which no partial match from i remains (N if the log ends before)
  uint64_t work = 0;
  Fed fed() const { Fed f; for (auto &m : matches) f.push_back(m.z); return f; }
};
RefResult refTA(const TA &, const Log &, Mode, uint64_t workLimit = 200000);
bool taInScope(const TA &, Mode);

// ------------------------------------------------------------------ expressions
struct Tre;
using TreP = std::shared_ptr<const Tre>;
struct Tre {
  enum Op { Atom, Dollar, Plus, Star, Cat, Or, And, Within } op;
  unsigned char c = 0;
  TreP a, b;
  int lo = 0, hi = 0;            // hi < 0: no upper bound
  bool loC = false, hiC = false; // closed
  int form = 0;                  // how the interval is written
};
TreP tAtom(unsigned char), tDollar(), tUn(Tre::Op, TreP), tBin(Tre::Op, TreP, TreP), tWithin(TreP, int lo, bool loC, int hi, bool hiC, int form);
std::string treStr(const TreP &, int style);  // style 0: all parentheses
std::string treSer(const TreP &);
TreP treDeser(const std::string &);
bool treNull(const TreP &);
bool treHasDollar(const TreP &);
int treSize(const TreP &);
bool treInScope(const TreP &);   // ends in $ exactly, needs at least one event before
RefResult refTRE(const TreP &, const Log &, uint64_t workLimit = 200000);
// expressions over signals: alternatives that are sequences of single-letter pieces with bounds on spans of them
bool sigInScope(const TreP &);
TA sigTA(const TreP &);          // every alternative as a chain of pieces, neighbours of the same letter joined
bool sigLogOk(const Log &);      // the value changes at every record

// ------------------------------------------------------------------ encoding of logs
struct Enc { int binary = 0; int style = 0; uint64_t seed = 0; int finalNewline = 1; };
std::string encodeLog(const Log &, const Enc &, std::vector<size_t> *recEnd = nullptr); // recEnd: offset at which record k is complete and terminated
std::string numStr(i64 t, int style, Rng &r);
// The reference reader: which records does this byte string hold? stop: 0 clean end, 1 cut inside a record, 2 malformed
// inexact: some value is not a small multiple of the unit; unclear: something no claim is made about, e.g., nan; d: the values read
struct RefLog { Log log; int stop = 0; bool inexact = false, unclear = false; std::vector<size_t> consumed; std::vector<double> d; };
RefLog refRead(const std::string &bytes, bool binary);
