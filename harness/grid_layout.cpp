// Two grids over one box, in different storages; every accessor; elementwise algebra.
#include "common.hpp"
#include <grid.hpp>
#include <grid/gridstorage/kokkos-storage.hpp>
#include <type_traits>
using namespace schnek;
using namespace vf;

template<class T, size_t rank>
using LazyFortran = SingleArrayGridFortranOrderStorageBase<T, rank, SingleArrayLazyAllocation>;

template<class G, size_t rank> struct Use {
  typedef Array<int, rank> I;
  template<size_t... K> static auto &paren(G &g, const I &p, std::index_sequence<K...>) { return g(p[K]...); }
  template<size_t... K> static auto cparen(const G &g, const I &p, std::index_sequence<K...>) { return g(p[K]...); }

  static typename G::value_type &at(G &g, const I &p, int acc) {
    switch (acc) {
      case 0: return g[p];
      case 1: return paren(g, p, std::make_index_sequence<rank>{});
      case 2: { I a, b; for (size_t d = 0; d < rank; ++d) { a[d] = p[d] - 3; b[d] = 3; } return g[a + b]; }
      case 3: return g.get(p);
      case 4: { Array<int, rank, ArrayAssertArgCheck> q; for (size_t d = 0; d < rank; ++d) q[d] = p[d]; return g[q]; }
      default: if constexpr (rank == 1) return g[(int)p[0]]; else return g[p];
    }
  }
  static typename G::value_type cat(const G &g, const I &p, int acc) {
    switch (acc) {
      case 0: return g[p];
      case 1: return cparen(g, p, std::make_index_sequence<rank>{});
      case 2: { I a, b; for (size_t d = 0; d < rank; ++d) { a[d] = p[d] + 2; b[d] = 2; } return g[a - b]; }
      case 3: return g.get(p);
      case 4: { Array<int, rank, ArrayAssertArgCheck> q; for (size_t d = 0; d < rank; ++d) q[d] = p[d]; return g[q]; }
      default: if constexpr (rank == 1) return g[(int)p[0]]; else return g[p];
    }
  }
};

template<class G, class = void> struct HasRaw : std::false_type {};
template<class G> struct HasRaw<G, std::void_t<decltype(std::declval<G&>().getRawData())> > : std::true_type {};

template<size_t rank> Array<int, rank> idx(In &in) { Array<int, rank> a; for (size_t d = 0; d < rank; ++d) a[d] = geti(in); return a; }

template<class G, size_t rank> struct One {
  typedef Array<int, rank> I;
  typedef Use<G, rank> U;
  static void layout(G &g, Obj &o) {
    std::vector<long> off, st;
    auto *base = &g.get(g.getLo());
    walk<rank, I>(g.getLo(), g.getHi(), [&](const I &p) { off.push_back(&g.get(p) - base); });
    for (size_t d = 0; d < rank; ++d) st.push_back(g.stride(d));
    std::vector<long> dims, lo, hi;
    for (size_t d = 0; d < rank; ++d) { dims.push_back(g.getDims(d)); lo.push_back(g.getRange().getLo(d)); hi.push_back(g.getRange().getHi(d)); }
    o.put("off", seq(off)).put("st", seq(st)).put("glo", seq(lo)).put("ghi", seq(hi)).put("dims", seq(dims)).num("size", g.getSize());
  }
  static void read(G &g, int acc, Obj &o) {
    std::vector<long> v;
    const G &cg = g;
    if (acc >= 10) walk<rank, I>(g.getLo(), g.getHi(), [&](const I &p) { v.push_back((long)U::cat(cg, p, acc - 10)); });
    else walk<rank, I>(g.getLo(), g.getHi(), [&](const I &p) { v.push_back((long)U::at(g, p, acc)); });
    o.put("res", seq(v));
  }
  static void points(G &g, In &in, Obj &o) {
    int acc = geti(in), n = geti(in); const G &cg = g;
    std::vector<long> v, off, st; std::vector<std::string> pts;
    auto *base = &g.get(g.getLo());
    for (size_t d = 0; d < rank; ++d) st.push_back(g.stride(d));
    for (int k = 0; k < n; ++k) {
      I p = idx<rank>(in); pts.push_back(seq(p, rank)); off.push_back(&g.get(p) - base);
      v.push_back((long)(acc >= 10 ? U::cat(cg, p, acc - 10) : U::at(g, p, acc)));
    }
    o.put("pts", raw(pts)).put("res", seq(v)).put("off", seq(off)).put("st", seq(st)).num("acc", acc);
  }
  static void total(G &g, int how, Obj &o) {
    long c = 0, s = 0; std::vector<long> dims;
    if constexpr (HasRaw<G>::value) {
      if (how == 1) { auto *p = g.getRawData(); for (; c < (long)g.getSize(); ++c) s += (long)p[c]; }
      else if (how == 2) for (auto it = g.begin(); it != g.end(); ++it, ++c) s += (long)*it;
      else how = 0;
    } else how = 0;
    if (how == 0) { walk<rank, I>(g.getLo(), g.getHi(), [&](const I &p) { s += (long)g[p]; ++c; }); }
    for (size_t d = 0; d < rank; ++d) dims.push_back(g.getDims(d));
    o.num("size", g.getSize()).num("count", c).num("sum", s).put("dims", seq(dims));
  }
  static void rawdata(G &g, int how, Obj &o) {
    std::vector<long> v;
    if constexpr (HasRaw<G>::value) {
      if (how == 0) { auto *p = g.getRawData(); for (long k = 0; k < (long)g.getSize(); ++k) v.push_back((long)p[k]); }
      else if (how == 1) for (auto it = g.begin(); it != g.end(); ++it) v.push_back((long)*it);
      else for (auto it = g.cbegin(); it != g.cend(); ++it) v.push_back((long)*it);
    } else { read(g, 0, o); return; }
    o.put("res", seq(v));
  }
  static void fill(G &g, int v) {
    if constexpr (HasRaw<G>::value) g = (typename G::value_type)v;
    else walk<rank, I>(g.getLo(), g.getHi(), [&](const I &p) { g[p] = v; });
  }
};

template<class A, class B, size_t rank> void machine(In &in, Out &out, const char *la, const char *lb) {
  typedef Array<int, rank> I;
  int n = geti(in);
  std::unique_ptr<A> a; std::unique_ptr<B> b;
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "make" || op == "vast") {
      I lo = idx<rank>(in), hi = idx<rank>(in);
      int how = geti(in);
      if (how == 0) { a.reset(new A(lo, hi)); b.reset(new B(lo, hi)); }
      else { if (!a) { a.reset(new A()); b.reset(new B()); } a->resize(lo, hi); b->resize(*a); }
      One<A, rank>::fill(*a, 0); One<B, rank>::fill(*b, 0);
      o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank)).put("lay", strs({la, lb}));
    } else {
      int g = geti(in); o.num("g", g);
      if (op == "write" || op == "vwrite") { I p = idx<rank>(in); int v = geti(in), acc = geti(in);
        o.put("p", seq(p, rank)).num("v", v).num("acc", acc);
        if (g == 1) Use<A, rank>::at(*a, p, acc) = v; else Use<B, rank>::at(*b, p, acc) = v; }
      else if (op == "fill" || op == "vfill") { int v = geti(in); o.num("v", v); if (g == 1) One<A, rank>::fill(*a, v); else One<B, rank>::fill(*b, v); }
      else if (op == "add" || op == "sub" || op == "vadd" || op == "vsub") {
        int s = geti(in); o.num("s", s);
        bool add = op == "add" || op == "vadd";
        if constexpr (HasRaw<A>::value && HasRaw<B>::value) {
          if (g == 1 && s == 1) { A c(*a); if (add) *a += c; else *a -= c; }
          else if (g == 1) { if (add) *a += *b; else *a -= *b; }
          else if (s == 1) { if (add) *b += *a; else *b -= *a; }
          else { B c(*b); if (add) *b += c; else *b -= c; }
        } else {
          if (g == 1 && s == 2) { if (add) walk<rank, I>(a->getLo(), a->getHi(), [&](const I &p) { (*a)[p] += (*b)[p]; }); else walk<rank, I>(a->getLo(), a->getHi(), [&](const I &p) { (*a)[p] -= (*b)[p]; }); }
          else if (g == 2 && s == 1) { if (add) walk<rank, I>(a->getLo(), a->getHi(), [&](const I &p) { (*b)[p] += (*a)[p]; }); else walk<rank, I>(a->getLo(), a->getHi(), [&](const I &p) { (*b)[p] -= (*a)[p]; }); }
          else std::exit(3);
        }
      }
      else if (op == "read") { int acc = geti(in); o.num("acc", acc); if (g == 1) One<A, rank>::read(*a, acc, o); else One<B, rank>::read(*b, acc, o); }
      else if (op == "raw") { int how = geti(in); if (g == 1) One<A, rank>::rawdata(*a, how, o); else One<B, rank>::rawdata(*b, how, o); }
      else if (op == "vread") { if (g == 1) One<A, rank>::points(*a, in, o); else One<B, rank>::points(*b, in, o); }
      else if (op == "vall") { int how = geti(in); if (g == 1) One<A, rank>::total(*a, how, o); else One<B, rank>::total(*b, how, o); }
      else if (op == "layout") { if (g == 1) One<A, rank>::layout(*a, o); else One<B, rank>::layout(*b, o); }
      else std::exit(3);
    }
    out.event(o);
  }
}

template<size_t rank> void few(const std::string &k, In &in, Out &out) {
  typedef Grid<int, rank> C; typedef Grid<int, rank, GridAssertCheck, SingleArrayGridStorageFortran> F;
  machine<C, F, rank>(in, out, "c", "f");
}
template<size_t rank> void many(const std::string &k, In &in, Out &out) {
  typedef Grid<int, rank> C;
  typedef Grid<double, rank, GridAssertCheck> CA;
  typedef Grid<int, rank, GridDebugCheck, SingleArrayGridStorageFortran> F;
  typedef Grid<int, rank, GridAssertCheck, SingleArrayGridStorageFortran> FA;
  typedef Grid<int, rank, GridNoArgCheck, LazyArrayGridStorage> L;
  typedef Grid<long, rank, GridAssertCheck, LazyFortran> LF;
  typedef Grid<int, rank, GridNoArgCheck, KokkosDefaultGridStorage> K;
  if (k == "cf") machine<C, F, rank>(in, out, "c", "f");
  else if (k == "cc") machine<C, CA, rank>(in, out, "c", "c");
  else if (k == "ff") machine<F, FA, rank>(in, out, "f", "f");
  else if (k == "ll") machine<L, LF, rank>(in, out, "c", "f");
  else if (k == "kc") machine<K, C, rank>(in, out, "any", "c");
  else std::exit(3);
}

int main(int argc, char **argv) {
  int ac = 1; char *av[] = {argv[0], nullptr}; char **pv = av;
  Kokkos::initialize(ac, pv);
  int rc = run(argc, argv, [](In &in, Out &out) {
    std::string kind = gets(in);
    switch (geti(in)) {
      case 1: many<1>(kind, in, out); break;
      case 2: many<2>(kind, in, out); break;
      case 3: many<3>(kind, in, out); break;
      case 4: many<4>(kind, in, out); break;
      case 5: few<5>(kind, in, out); break;
      case 6: few<6>(kind, in, out); break;
      case 7: few<7>(kind, in, out); break;
      case 8: few<8>(kind, in, out); break;
      case 9: few<9>(kind, in, out); break;
      case 10: few<10>(kind, in, out); break;
      default: std::exit(3);
    }
  });
  Kokkos::finalize();
  return rc;
}
