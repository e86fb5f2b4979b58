// Arrays of three element types for the generated expressions.
#ifndef VERIF_ARRAYS_HPP
#define VERIF_ARRAYS_HPP
#include "grid/array.hpp"
#include "grid/arrayexpression.hpp"
#include "common.hpp"
#include <type_traits>
static const long P = 10007;
// numbers modulo a prime
struct Z {
  long v;
  Z() : v(1234) {}
  Z(int x) : v(((x % P) + P) % P) {}
  static Z of(long x) { Z z; z.v = ((x % P) + P) % P; return z; }
  Z inv() const { long r = 1, b = v, n = P - 2; if (!v) return of(0); while (n) { if (n & 1) r = r * b % P; b = b * b % P; n >>= 1; } return of(r); }
  Z &operator+=(const Z &o) { v = (v + o.v) % P; return *this; }
  Z &operator-=(const Z &o) { v = (v - o.v + P) % P; return *this; }
  Z &operator*=(const Z &o) { v = v * o.v % P; return *this; }
  Z &operator/=(const Z &o) { v = v * o.inv().v % P; return *this; }
};
inline Z operator+(Z a, const Z &b) { return a += b; }
inline Z operator-(Z a, const Z &b) { return a -= b; }
inline Z operator*(Z a, const Z &b) { return a *= b; }
inline Z operator/(Z a, const Z &b) { return a /= b; }
inline Z operator-(const Z &a) { return Z::of(-a.v); }
inline bool operator!=(const Z &a, const Z &b) { return a.v != b.v; }
inline bool operator==(const Z &a, const Z &b) { return a.v == b.v; }
inline bool operator<(const Z &a, const Z &b) { return a.v < b.v; }
inline bool operator>(const Z &a, const Z &b) { return a.v > b.v; }
inline bool operator<=(const Z &a, const Z &b) { return a.v <= b.v; }
inline bool operator>=(const Z &a, const Z &b) { return a.v >= b.v; }

static const double U = 256;
inline long show(const Z &x) { return x.v; }
inline long show(int x) { return x; }
inline long show(double x) { x *= U; return x == (double)(long)x ? (long)x : -77777777; }
template<class T> T make(long x);
template<> inline Z make<Z>(long x) { return Z::of(x); }
template<> inline int make<int>(long x) { return (int)x; }
template<> inline double make<double>(long x) { return x / U; }

template<size_t N> struct Store {
  typedef schnek::Array<Z, N> AZ; typedef schnek::Array<int, N> AI; typedef schnek::Array<double, N> AD;
  std::vector<char> ty; std::vector<int> at;
  std::vector<AZ> z; std::vector<AI> i; std::vector<AD> d;
  schnek::Array<Z, N> &get(Z *, int k) { return z[at[k - 1]]; }
  schnek::Array<int, N> &get(int *, int k) { return i[at[k - 1]]; }
  schnek::Array<double, N> &get(double *, int k) { return d[at[k - 1]]; }
  template<class Fn> void with(int k, Fn fn) {
    char t = ty[k - 1];
    if (t == 'Z') fn(z[at[k - 1]]); else if (t == 'I') fn(i[at[k - 1]]); else fn(d[at[k - 1]]);
  }
};
template<class A> std::string vals(const A &a) {
  std::string r = "[";
  for (size_t j = 0; j < A::length; ++j) r += (j ? "," : "") + std::to_string(show(a[j]));
  return r + "]";
}
enum How { ASSIGN, PLUS, MINUS, TIMES, OVER, NEW };
// one statement: target op= expression (lambda making the expression)
template<class A, class F> void statement(A &t, int how, F f) {
  switch (how) {
    case ASSIGN: t = f(); break;
    case PLUS: t += f(); break;
    case MINUS: t -= f(); break;
    case TIMES: t *= f(); break;
    case OVER: t /= f(); break;
    default:
      if constexpr (std::is_constructible<A, decltype(f())>::value) { A n(f()); t = n; }
      else t = f();
  }
}
typedef std::vector<int> Ints; typedef std::vector<long> Longs;
// the compiled expressions, by number
struct Shape { std::string text; std::function<void(void *, int, int, const Ints &, const Longs &)> run; };
std::map<int, Shape> &shapes();
struct Register { Register(int k, const char *text, void (*f)(void *, int, int, const Ints &, const Longs &)) { shapes()[k] = Shape{text, f}; } };
template<size_t N> std::string runShape(int k, Store<N> &s, int how, int t, const Ints &as, const Longs &ss) {
  auto it = shapes().find(k); if (it == shapes().end()) std::exit(3);
  it->second.run(&s, how, t, as, ss);
  return it->second.text;
}
#endif
