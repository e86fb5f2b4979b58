// Checked access. Every history runs in a process of its own (the debug record is global);
// asserting accesses run in a further child, whose fate is the observation.
#include "common.hpp"
#include <grid.hpp>
#include <sys/wait.h>
#include <unistd.h>
using namespace schnek;
using namespace vf;

template<size_t rank> Array<int, rank> idx(In &in) { Array<int, rank> a; for (size_t d = 0; d < rank; ++d) a[d] = geti(in); return a; }
template<class G, class I, size_t... K> auto &paren(G &g, const I &p, std::index_sequence<K...>) { return g(p[K]...); }

template<class G, size_t rank> long reach(G &g, const Array<int, rank> &p, int form) {
  const G &c = g;
  auto *base = &g.get(g.getLo());
  typename G::IndexType q; for (size_t d = 0; d < rank; ++d) q[d] = p[d];
  switch (form) {
    case 0: return &g[q] - base;
    case 1: return &paren(g, p, std::make_index_sequence<rank>{}) - base;
    case 2: { int v = c[q]; return v; }
    case 3: { if constexpr (rank == 1) { int v = c(p[0]); return v; } else if constexpr (rank == 2) { int v = c(p[0], p[1]); return v; } else { int v = c(p[0], p[1], p[2]); return v; } }
    default: { Array<int, rank> a(p), b; for (size_t d = 0; d < rank; ++d) { a[d] -= 4; b[d] = 4; } return &g[a + b] - base; }
  }
}

// run f in a child: its value, or "abort"
template<class F> void fate(Obj &o, const char *key, F f) {
  int fd[2]; if (pipe(fd)) std::exit(3);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { freopen("/dev/null", "w", stderr); long v = f(); if (write(fd[1], &v, sizeof v) != sizeof v) _exit(3); _exit(0); }
  close(fd[1]);
  long v = 0; bool got = read(fd[0], &v, sizeof v) == (ssize_t)sizeof v; close(fd[0]);
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { o.str("res", "abort"); o.num(key, 0); }
  else if (got && WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.str("res", "ok"); o.num(key, v); }
  else { o.str("res", "other"); o.num(key, 0); }
}

template<size_t N> void arr(Obj &o, long i, int form) {
  typedef Array<int, N, ArrayAssertArgCheck> A;
  A a; for (size_t k = 0; k < N; ++k) a[k] = 100 + k;
  const A &c = a;
  fate(o, "val", [&]() -> long { return form == 0 ? a[i] : c[i]; });
}

template<class G> void number(G &g) { long k = 0; walk<G::Rank, typename G::IndexType>(g.getLo(), g.getHi(), [&](const typename G::IndexType &p) { g.get(p) = k++; }); }

template<size_t rank> void machine(In &in, Out &out) {
  typedef Grid<int, rank, GridDebugCheck> D;
  typedef Grid<int, rank, GridAssertCheck> A;
  typedef GridDebugCheck<rank> C;
  typedef typename D::IndexType DI;
  int n = geti(in);
  std::map<int, std::unique_ptr<D> > ds; std::map<int, std::unique_ptr<A> > as;
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "make") {
      int g = geti(in); Array<int, rank> lo = idx<rank>(in), hi = idx<rank>(in); int how = geti(in);
      DI l, h; for (size_t d = 0; d < rank; ++d) { l[d] = lo[d]; h[d] = hi[d]; }
      if (how == 0 || !ds[g]) { ds[g].reset(new D(l, h)); as[g].reset(new A(l, h)); }
      else { ds[g]->resize(l, h); as[g]->resize(l, h); }
      long k = 0; walk<rank, DI>(l, h, [&](const DI &p) { ds[g]->get(p) = k; as[g]->get(p) = k; ++k; });
      o.num("g", g).put("lo", seq(lo, rank)).put("hi", seq(hi, rank));
    } else if (op == "debug" || op == "assert") {
      int g = geti(in); Array<int, rank> p = idx<rank>(in); int form = geti(in);
      o.num("g", g).put("p", seq(p, rank)).num("form", form);
      if (op == "debug") {
        long k = reach<D, rank>(*ds[g], p, form);
        o.num("hit", k).boolean("flag", C::getErrorFlag()).num("info", C::getErrorInfo());
        DI q = C::getOffending();
        o.put("off", C::getErrorFlag() ? seq(q, rank) : std::string("[]"));
      } else fate(o, "hit", [&]() -> long { return reach<A, rank>(*as[g], p, form); });
    } else if (op == "array") {
      int len = geti(in); long k = geti(in); int form = geti(in);
      o.num("n", len).num("i", k).num("form", form);
      switch (len) { case 1: arr<1>(o, k, form); break; case 2: arr<2>(o, k, form); break; case 3: arr<3>(o, k, form); break;
        case 4: arr<4>(o, k, form); break; case 6: arr<6>(o, k, form); break; case 10: arr<10>(o, k, form); break; default: std::exit(3); }
    } else std::exit(3);
    out.event(o);
  }
}

int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      freopen("/dev/null", "w", stderr);
      switch (geti(in)) { case 1: machine<1>(in, out); break; case 2: machine<2>(in, out); break; default: machine<3>(in, out); }
      fflush(nullptr);
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) std::exit(4);
  });
}
