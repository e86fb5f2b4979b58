// Executes histories of grid construction, copy, assignment, resize, write and destruction.
#include "common.hpp"
#include <grid.hpp>
#include <grid/gridstorage/kokkos-storage.hpp>
#include <grid/field.hpp>
using namespace schnek;
using namespace vf;

template<class T, size_t rank>
using LazyFortran = SingleArrayGridFortranOrderStorageBase<T, rank, SingleArrayLazyAllocation>;

template<class G, size_t rank> struct Access {
  static const void *buffer(G &g) { return g.getRawData(); }
  static long cells(G &g) { return g.getSize(); }
  static void fill(G &g, int v) { g = v; }
};
template<size_t rank> struct Access<Grid<int, rank, GridNoArgCheck, KokkosDefaultGridStorage>, rank> {
  typedef Grid<int, rank, GridNoArgCheck, KokkosDefaultGridStorage> G;
  static const void *buffer(G &g) { return cells(g) > 0 ? &g[g.getLo()] : nullptr; }
  static long cells(G &g) { long n = 1; for (size_t d = 0; d < rank; ++d) n *= g.getDims(d); return n; }
  static void fill(G &g, int v) { walk<rank, Array<int, rank> >(g.getLo(), g.getHi(), [&](const Array<int, rank> &p) { g[p] = v; }); }
};

template<size_t rank> Array<int, rank> idx(In &in) {
  Array<int, rank> a;
  for (size_t d = 0; d < rank; ++d) a[d] = geti(in);
  return a;
}

template<class G, size_t rank> struct Machine {
  typedef Access<G, rank> A;
  typedef Array<int, rank> I;
  typedef Range<int, rank> R;
  std::map<int, G*> live;   // plain pointers: a destroyed grid's memory really goes away

  std::string observe() {
    std::vector<std::string> os;
    std::map<const void*, int> bufs;
    for (auto &e : live) {
      G &g = *e.second;
      Obj o;
      o.num("g", e.first);
      long n = A::cells(g);
      o.num("n", n);
      if (n <= 0) { os.push_back(o.done()); continue; }
      o.put("lo", seq(g.getLo(), rank)).put("hi", seq(g.getHi(), rank)).put("dims", seq(g.getDims(), rank));
      const void *b = A::buffer(g);
      if (!bufs.count(b)) { int k = bufs.size() + 1; bufs[b] = k; }
      o.num("buf", bufs[b]);
      const G &cg = g;
      std::vector<long> v;
      // only walk the box if it is what the size says (otherwise the specification rejects on n)
      long m = 1; for (size_t d = 0; d < rank; ++d) m *= (g.getHi(d) - g.getLo(d) + 1);
      if (m == n && m < 100000) {
        walk<rank, I>(g.getLo(), g.getHi(), [&](const I &p) { v.push_back(cg[p]); });
      } else v.assign(n > 0 && n < 100000 ? n : 1, 0);
      o.put("v", seq(v));
      os.push_back(o.done());
    }
    return raw(os);
  }

  static bool zeroLo(const I &a) { for (size_t d = 0; d < rank; ++d) if (a[d]) return false; return true; }

  void operator()(In &in, Out &out) {
    int n = geti(in);
    for (int i = 0; i < n; ++i) {
      std::string op = gets(in);
      int g = geti(in);
      Obj o;
      o.str("op", op).num("g", g);
      if (op == "def") live[g] = new G();
      else if (op == "new") {
        I lo = idx<rank>(in), hi = idx<rank>(in);
        o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank));
        if (zeroLo(lo) && i % 2) { I s; for (size_t d = 0; d < rank; ++d) s[d] = hi[d] + 1; live[g] = new G(s); }
        else if (i % 3 == 0) live[g] = new G(R(lo, hi));
        else live[g] = new G(lo, hi);
      }
      else if (op == "copy") { int s = geti(in); o.num("s", s); live[g] = new G(*live[s]); }
      else if (op == "assign") { int s = geti(in); o.num("s", s); *live[g] = *live[s]; }
      else if (op == "del") { delete live[g]; live.erase(g); }
      else if (op == "resize") {
        I lo = idx<rank>(in), hi = idx<rank>(in);
        o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank));
        if (zeroLo(lo) && i % 2) { I s; for (size_t d = 0; d < rank; ++d) s[d] = hi[d] + 1; live[g]->resize(s); }
        else if (i % 3 == 0) live[g]->resize(R(lo, hi));
        else live[g]->resize(lo, hi);
      }
      else if (op == "like") { int s = geti(in); o.num("s", s); live[g]->resize(*live[s]); }
      else if (op == "write") { I p = idx<rank>(in); int v = geti(in); o.put("p", seq(p, rank)).num("v", v); (*live[g])[p] = v; }
      else if (op == "fill") { int v = geti(in); o.num("v", v); A::fill(*live[g], v); }
      else std::exit(3);
      o.put("obs", observe());
      out.event(o);
    }
    for (auto &e : live) delete e.second;
    live.clear();
  }
};

template<size_t rank> void dispatch(const std::string &kind, In &in, Out &out) {
  if (kind == "inst") Machine<Grid<int, rank>, rank>()(in, out);
  else if (kind == "assert") Machine<Grid<int, rank, GridAssertCheck>, rank>()(in, out);
  else if (kind == "fortran") Machine<Grid<int, rank, GridNoArgCheck, SingleArrayGridStorageFortran>, rank>()(in, out);
  else if (kind == "lazy") Machine<Grid<int, rank, GridNoArgCheck, LazyArrayGridStorage>, rank>()(in, out);
  else if (kind == "lazyf") Machine<Grid<int, rank, GridNoArgCheck, LazyFortran>, rank>()(in, out);
  else if (kind == "kokkos") Machine<Grid<int, rank, GridNoArgCheck, KokkosDefaultGridStorage>, rank>()(in, out);
  else std::exit(3);
}

int main(int argc, char **argv) {
  int ac = 1; char *av[] = {argv[0], nullptr};
  char **pv = av;
  Kokkos::initialize(ac, pv);
  int rc = run(argc, argv, [](In &in, Out &out) {
    std::string kind = gets(in);
    int rank = geti(in);
    if (rank == 1) dispatch<1>(kind, in, out);
    else if (rank == 2) dispatch<2>(kind, in, out);
    else dispatch<3>(kind, in, out);
  });
  Kokkos::finalize();
  return rc;
}
