// Runs sequences of array operations; the expressions are compiled in (generated sources).
#include "arrays.hpp"
using namespace schnek;
using namespace vf;
std::map<int, Shape> &shapes() { static std::map<int, Shape> m; return m; }

template<size_t N> void all(Store<N> &s, Obj &o) {
  std::vector<std::string> r;
  for (size_t k = 1; k <= s.ty.size(); ++k) s.with(k, [&](auto &a) { r.push_back(vals(a)); });
  o.put("all", raw(r));
}
template<class T, size_t N> struct Construct { static Array<T, N> make(const std::vector<T> &) { return Array<T, N>(); } static const bool can = false; };
#define C(n, ...) template<class T> struct Construct<T, n> { static Array<T, n> make(const std::vector<T> &v) { return Array<T, n>(__VA_ARGS__); } static const bool can = true; };
C(1, v[0]) C(2, v[0], v[1]) C(3, v[0], v[1], v[2]) C(4, v[0], v[1], v[2], v[3]) C(5, v[0], v[1], v[2], v[3], v[4])
C(6, v[0], v[1], v[2], v[3], v[4], v[5]) C(7, v[0], v[1], v[2], v[3], v[4], v[5], v[6]) C(8, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])
C(9, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]) C(10, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9])
#undef C
template<class T, size_t N, size_t K> struct Project { static std::string go(const Array<T, N> &a, size_t k) { return k == K ? vals(a.template project<K>()) : Project<T, N, K - 1>::go(a, k); } };
template<class T, size_t N> struct Project<T, N, 0> { static std::string go(const Array<T, N> &, size_t) { return "[]"; } };
template<class T> std::string without(const Array<T, 1> &, size_t) { return "[]"; }
template<class T, size_t N> std::string without(const Array<T, N> &a, size_t d) { return vals(a.projectDim(d)); }

template<size_t N> void go(In &in, Out &out) {
  Store<N> s;
  std::string types = gets(in);
  Obj first; first.str("op", "arrays");
  std::vector<std::string> tys;
  for (char t : types) {
    s.ty.push_back(t); tys.push_back(std::string(1, t));
    if (t == 'Z') { s.at.push_back(s.z.size()); s.z.resize(s.z.size() + 1); }
    else if (t == 'I') { s.at.push_back(s.i.size()); s.i.resize(s.i.size() + 1); s.i.back().fill(0); }
    else { s.at.push_back(s.d.size()); s.d.resize(s.d.size() + 1); s.d.back().fill(0); }
  }
  first.put("ty", strs(tys)); all(s, first); out.event(first);
  int n = geti(in);
  for (int q = 0; q < n; ++q) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "set") {
      int t = geti(in), how = geti(in); std::vector<long> v(N); for (auto &x : v) x = get<long>(in);
      s.with(t, [&](auto &a) {
        typedef typename std::remove_reference<decltype(a)>::type A; typedef typename A::value_type T;
        std::vector<T> w; for (long x : v) w.push_back(make<T>(x));
        if (how == 0) for (size_t j = 0; j < N; ++j) a[j] = w[j];
        else if (how == 1) for (size_t j = 0; j < N; ++j) a.at(j) = w[j];
        else if (how == 2) a = Construct<T, N>::make(w);
        else { Array<T, N, ArrayAssertArgCheck> b; for (size_t j = 0; j < N; ++j) b[j] = w[j]; if (how == 3) a = b; else { A c(b); a = c; } }
      });
      o.num("t", t).put("v", seq(v));
    } else if (op == "shape") {
      int k = geti(in), how = geti(in), t = geti(in), na = geti(in); Ints as(na); for (auto &x : as) x = geti(in);
      int ns = geti(in); Longs ss(ns); for (auto &x : ss) x = get<long>(in);
      std::string e = runShape<N>(k, s, how, t, as, ss);
      o.s.clear(); o.str("op", "assign");
      const char *names[] = {"=", "+", "-", "*", "/", "="};
      o.num("t", t).str("how", names[how]).put("e", e).put("as", seq(as)).put("ss", seq(ss));
    } else if (op == "array") {                      // X op= Y
      int how = geti(in), t = geti(in), y = geti(in);
      std::string yt(1, s.ty[y - 1]);
      s.with(t, [&](auto &a) { s.with(y, [&](auto &b) {
        typedef typename std::remove_reference<decltype(a)>::type A; typedef typename std::remove_reference<decltype(b)>::type B;
        if constexpr (std::is_same<A, B>::value) statement(a, how, [&]() -> B& { return b; });
        else if constexpr (std::is_same<typename A::value_type, Z>::value || std::is_same<typename B::value_type, Z>::value) std::exit(3);
        else statement(a, how == NEW ? (int)ASSIGN : how, [&]() -> B& { return b; });
      }); });
      o.s.clear(); o.str("op", "assign");
      const char *names[] = {"=", "+", "-", "*", "/", "="};
      o.num("t", t).str("how", names[how]).put("e", "{\"k\":\"a\",\"ty\":\"" + yt + "\",\"i\":1}").put("as", "[" + std::to_string(y) + "]").put("ss", "[]");
    } else if (op == "scalar") {                     // X op= number of any type
      int how = geti(in), t = geti(in); std::string ty = gets(in); long x = get<long>(in);
      s.with(t, [&](auto &a) {
        typedef typename std::remove_reference<decltype(a)>::type A; typedef typename A::value_type T;
        auto apply = [&](auto v) { switch (how) { case PLUS: a += v; break; case MINUS: a -= v; break; case TIMES: a *= v; break; default: a /= v; } };
        if constexpr (std::is_same<T, Z>::value) apply(make<Z>(x));
        else if (ty == "I") apply(make<int>(x));
        else apply(make<double>(x));
      });
      const char *names[] = {"=", "+", "-", "*", "/", "="};
      o.s.clear(); o.str("op", "assign");
      o.num("t", t).str("how", names[how]).put("e", "{\"k\":\"s\",\"ty\":\"" + ty + "\",\"i\":1}").put("as", "[]").put("ss", "[" + std::to_string(x) + "]");
    } else if (op == "elem") {                       // X op= X[j]
      int how = geti(in), t = geti(in), j = geti(in);
      s.with(t, [&](auto &a) { switch (how) { case PLUS: a += a[j]; break; case MINUS: a -= a[j]; break; case TIMES: a *= a[j]; break; default: a /= a[j]; } });
      const char *names[] = {"=", "+", "-", "*", "/", "="};
      o.num("t", t).str("how", names[how]).num("j", j);
    } else if (op == "fill" || op == "clear") {
      int t = geti(in); long x = op == "fill" ? get<long>(in) : 0;
      s.with(t, [&](auto &a) { typedef typename std::remove_reference<decltype(a)>::type A; if (op == "fill") a.fill(make<typename A::value_type>(x)); else a.clear(); });
      o.s.clear(); o.str("op", "fill"); o.num("t", t).num("x", x);
    } else if (op == "fillElem") {
      int t = geti(in), j = geti(in);
      s.with(t, [&](auto &a) { a.fill(a[j]); });
      o.num("t", t).num("j", j);
    } else if (op == "put") {
      int t = geti(in), j = geti(in); long x = get<long>(in);
      s.with(t, [&](auto &a) { typedef typename std::remove_reference<decltype(a)>::type A; a[j] = make<typename A::value_type>(x); });
      o.num("t", t).num("j", j).num("x", x);
    } else if (op == "compare") {
      int a = geti(in), b = geti(in), checked = geti(in);
      s.with(a, [&](auto &X) { s.with(b, [&](auto &Y) {
        typedef typename std::remove_reference<decltype(X)>::type A; typedef typename std::remove_reference<decltype(Y)>::type B;
        if constexpr (std::is_same<A, B>::value) {
          if (checked) {
            Array<typename A::value_type, N, ArrayAssertArgCheck> W(Y);
            o.boolean("eq", X == W).boolean("ne", X != W).boolean("lt", X < W).boolean("le", X <= W);
          } else o.boolean("eq", X == Y).boolean("ne", X != Y).boolean("lt", X < Y).boolean("le", X <= Y);
        } else std::exit(3);
      }); });
      o.num("a", a).num("b", b);
    } else if (op == "reduce") {
      int a = geti(in);
      s.with(a, [&](auto &X) { o.num("sum", show(X.sum())).num("prod", show(X.product())).num("sqr", show(X.sqr())); });
      o.num("a", a);
    } else if (op == "read") {
      int a = geti(in), how = geti(in);
      s.with(a, [&](auto &X) {
        const auto &Y = X; std::vector<std::string> r;
        for (size_t j = 0; j < N; ++j) r.push_back(std::to_string(show(how == 0 ? Y[j] : how == 1 ? Y.at(j) : X.at(j))));
        o.put("v", raw(r));
      });
      o.num("a", a);
    } else if (op == "project") {
      int a = geti(in), k = geti(in);
      s.with(a, [&](auto &X) { typedef typename std::remove_reference<decltype(X)>::type A; o.put("v", Project<typename A::value_type, N, N>::go(X, k)); });
      o.num("a", a).num("k", k);
    } else if (op == "without") {
      int a = geti(in), d = geti(in);
      s.with(a, [&](auto &X) { o.put("v", without(X, d)); });
      o.num("a", a).num("d", d);
    } else {
      int a = geti(in);
      s.with(a, [&](auto &X) { typedef typename std::remove_reference<decltype(X)>::type A; o.put("zero", vals(A::Zero())).put("one", vals(A::Ones())); });
      o.num("a", a);
    }
    all(s, o);
    out.event(o);
  }
}
static void scenario(In &in, Out &out) {
  switch (geti(in)) {
    case 1: go<1>(in, out); break; case 2: go<2>(in, out); break; case 3: go<3>(in, out); break; case 4: go<4>(in, out); break;
    case 5: go<5>(in, out); break; case 6: go<6>(in, out); break; case 7: go<7>(in, out); break; case 8: go<8>(in, out); break;
    case 9: go<9>(in, out); break; default: go<10>(in, out);
  }
}
int main(int argc, char **argv) { return run(argc, argv, scenario); }
