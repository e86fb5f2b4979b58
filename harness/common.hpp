// Shared by all drivers: scenario input (one line per history) and event output (ndjson).
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <functional>

namespace vf {

inline std::string esc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

template<class A> std::string seq(const A &a, size_t n) {
  std::string r = "[";
  for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string((long long)a[i]); }
  return r + "]";
}
// Visit the inclusive box lo..hi in row-major order (the drivers' own loop, not the library's).
template<size_t rank, class P, class A, class B, class Fn> void walk(const A &lo, const B &hi, Fn fn) {
  P p;
  for (size_t d = 0; d < rank; ++d) { if (hi[d] < lo[d]) return; p[d] = lo[d]; }
  while (true) {
    fn(p);
    int d = (int)rank - 1;
    for (; d >= 0; --d) { if (++p[d] <= hi[d]) break; p[d] = lo[d]; }
    if (d < 0) return;
  }
}

template<class A> std::string seq(const A &a) { return seq(a, a.size()); }

inline std::string strs(const std::vector<std::string> &a) {
  std::string r = "[";
  for (size_t i = 0; i < a.size(); ++i) { if (i) r += ","; r += esc(a[i]); }
  return r + "]";
}
inline std::string raw(const std::vector<std::string> &a) {
  std::string r = "[";
  for (size_t i = 0; i < a.size(); ++i) { if (i) r += ","; r += a[i]; }
  return r + "]";
}

// A JSON object under construction.
struct Obj {
  std::string s;
  Obj &put(const char *k, const std::string &rawv) { s += (s.empty() ? "" : ","); s += esc(k) + ":" + rawv; return *this; }
  Obj &num(const char *k, long long v) { return put(k, std::to_string(v)); }
  Obj &str(const char *k, const std::string &v) { return put(k, esc(v)); }
  Obj &boolean(const char *k, bool v) { return put(k, v ? "true" : "false"); }
  std::string done() const { return "{" + s + "}"; }
};

struct Out {
  FILE *f = nullptr;
  long h = 0;
  void open(const char *p) { f = std::fopen(p, "a"); if (!f) { std::perror("open"); std::exit(3);} }
  void event(const Obj &o) {
    if (!f) return;
    std::fprintf(f, "{\"h\":%ld%s%s}\n", h, o.s.empty() ? "" : ",", o.s.c_str());
    std::fflush(f);
  }
  void end() { if (f) { std::fprintf(f, "{\"h\":%ld,\"op\":\"END\"}\n", h); std::fflush(f);} }
};

typedef std::istringstream In;

template<class T> T get(In &in) { T v; if (!(in >> v)) { std::fprintf(stderr, "bad scenario\n"); std::exit(3);} return v; }
inline int geti(In &in) { return get<int>(in); }
inline std::string gets(In &in) { return get<std::string>(in); }
inline std::string unhex(const std::string &h) {   // strings are passed as hex, "-" is the empty one
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  return r;
}
inline std::string getx(In &in) { return unhex(gets(in)); }

// Run every scenario of the file through fn.
template<class Fn> int run(int argc, char **argv, Fn fn, bool writer = true) {
  if (argc < 3) { std::fprintf(stderr, "usage: driver scenarios out\n"); return 3; }
  std::ifstream sc(argv[1]);
  Out out;
  if (writer) out.open(argv[2]);
  std::string line;
  while (std::getline(sc, line)) {
    if (line.empty()) continue;
    In in(line);
    out.h = get<long>(in);
    fn(in, out);
    out.end();
  }
  return 0;
}
}
#endif
