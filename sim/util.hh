// Small utilities shared by the simulator: seeded randomness, hashing, strings.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 0xcbf29ce484222325ULL) {
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ULL;
  return mix64(h ^ s.size());
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0x5bf03635aca7f0d5ULL)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  // log-uniform in [1, n]
  uint64_t logUpTo(uint64_t n) {
    if (n <= 1) return 1;
    int bits = 64 - __builtin_clzll(n);
    uint64_t hi = 1ULL << (1 + below(bits));
    uint64_t v = 1 + below(hi);
    return v > n ? 1 + below(n) : v;
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
};
inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[4096];
  int n = vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (n < (int)sizeof buf) return std::string(buf, n < 0 ? 0 : n);
  std::string s(n + 1, 0);
  va_start(ap, f);
  vsnprintf(&s[0], n + 1, f, ap);
  va_end(ap);
  s.resize(n);
  return s;
}
inline std::string hexEnc(const std::string &s) {
  static const char *d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
inline std::string hexDec(const std::string &s) {
  std::string o;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)(v(s[i]) * 16 + v(s[i + 1]));
  return o;
}
// printable form for messages
inline std::string esc(const std::string &s, size_t maxLen = 400) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() > maxLen) { o += "..."; break; }
    if (c == '\n') o += "\\n";
    else if (c == '\\') o += "\\\\";
    else if (c == '"') o += "\\\"";
    else if (c < 32 || c > 126) o += fmt("\\x%02x", c);
    else o += (char)c;
  }
  return o;
}
inline std::string jsonEsc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += (char)c;
  }
  return o;
}
