// Sub-grid and transforming views of a grid.
#include "common.hpp"
#include <grid.hpp>
#include <grid/subgrid.hpp>
#include <grid/gridtransform.hpp>
using namespace schnek;
using namespace vf;

struct Affine { typedef long value_type; long m, c; Affine(long m = 1, long c = 0) : m(m), c(c) {} long operator()(int x) const { return m * x + c; } };
template<size_t rank> Array<int, rank> idx(In &in) { Array<int, rank> a; for (size_t d = 0; d < rank; ++d) a[d] = geti(in); return a; }
template<class G, class I, size_t... K> auto paren(G &g, const I &p, std::index_sequence<K...>) { return g(p[K]...); }
template<class G, class I, size_t... K> auto &wparen(G &g, const I &p, std::index_sequence<K...>) { return g(p[K]...); }

template<class V, size_t rank> void readAll(V &v, int form, Obj &o) {
  typedef Array<int, rank> I;
  std::vector<long> r; const V &c = v;
  auto lo = v.getLo(); auto hi = v.getHi();
  switch (form) {
    case 0: walk<rank, I>(lo, hi, [&](const I &p) { r.push_back(v[p]); }); break;
    case 1: walk<rank, I>(lo, hi, [&](const I &p) { r.push_back(paren(v, p, std::make_index_sequence<rank>{})); }); break;
    case 2: walk<rank, I>(lo, hi, [&](const I &p) { r.push_back(c[p]); }); break;
    case 3: walk<rank, I>(lo, hi, [&](const I &p) { r.push_back(paren(c, p, std::make_index_sequence<rank>{})); }); break;
    case 4: walk<rank, I>(lo, hi, [&](const I &p) { r.push_back(v.get(p)); }); break;
    default: { for (auto it = c.cbegin(); it != c.cend(); ++it) r.push_back(*it); }
  }
  o.put("vals", seq(r));
}

template<class G, size_t rank> void machine(In &in, Out &out) {
  typedef Array<int, rank> I;
  typedef SubGrid<G> S;
  typedef GridTransform<G, Affine> T;
  int n = geti(in);
  G g; std::map<int, std::unique_ptr<S> > ss; std::map<int, std::unique_ptr<T> > ts;
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "make") {
      I lo = idx<rank>(in), hi = idx<rank>(in);
      g.resize(lo, hi); long k = 1; walk<rank, I>(lo, hi, [&](const I &p) { g[p] = k++; });
      o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank));
    } else if (op == "write") { I p = idx<rank>(in); int x = geti(in); g[p] = x; o.put("p", seq(p, rank)).num("x", x); }
    else if (op == "base") { std::vector<long> r; walk<rank, I>(g.getLo(), g.getHi(), [&](const I &p) { r.push_back(g[p]); }); o.put("vals", seq(r)); }
    else {
      int v = geti(in); o.num("v", v);
      if (op == "sub" || op == "rsub") {
        I lo = idx<rank>(in), hi = idx<rank>(in); int how = geti(in);
        ts[v].reset();
        if (op == "rsub" && ss[v]) { if (how == 1) ss[v]->resize(lo, hi); else ss[v]->resize(typename S::RangeType(lo, hi)); }
        else if (how == 0) {
          bool zero = true; I sz; for (size_t d = 0; d < rank; ++d) { zero = zero && lo[d] == 0; sz[d] = hi[d] - lo[d] + 1; }
          if (zero) ss[v].reset(new S(sz, g)); else ss[v].reset(new S(lo, hi, g));
        } else if (how == 1) ss[v].reset(new S(typename S::RangeType(lo, hi), g));
        else if (how == 2) { S s(lo, hi, g); S *c = new S(s); ss[v].reset(c); }
        else { if (!ss[v]) ss[v].reset(new S()); S s(lo, hi, g); *ss[v] = s; }
        o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank)).num("how", how);
      } else if (op == "trans") {
        long m = geti(in), c = geti(in); int how = geti(in);
        ss[v].reset();
        if (how == 0 || !ts[v]) ts[v].reset(new T(g));
        ts[v]->setTransformation(Affine(m, c));
        if (how == 2) { T *c2 = new T(*ts[v]); ts[v].reset(c2); }
        Affine a = ts[v]->getTransformation(); o.num("m", a.m == m ? m : 999999).num("c", a.c);
      } else if (op == "poke") {
        I p = idx<rank>(in); int x = geti(in), form = geti(in);
        if (form == 0) (*ss[v])[p] = x; else if (form == 1) wparen(*ss[v], p, std::make_index_sequence<rank>{}) = x; else ss[v]->get(p) = x;
        o.put("p", seq(p, rank)).num("x", x);
      } else if (op == "addv" || op == "subv") {
        int k = geti(in);
        Grid<int, rank> y(ss[v]->getLo(), ss[v]->getHi()); std::vector<long> yy;
        walk<rank, I>(y.getLo(), y.getHi(), [&](const I &p) { y[p] = k; yy.push_back(k); k += 3; });
        if (op == "addv") *ss[v] += y; else *ss[v] -= y;
        o.put("y", seq(yy));
      } else if (op == "fillv") {
        int x = geti(in), form = geti(in); o.num("x", x);
        if (form == 0) for (auto it = ss[v]->begin(); it != ss[v]->end(); ++it) *it = x;
        else walk<rank, I>(ss[v]->getLo(), ss[v]->getHi(), [&](const I &p) { (*ss[v])[p] = x; });
      } else if (op == "read") { int form = geti(in); if (ss[v]) readAll<S, rank>(*ss[v], form, o); else { if (form == 5 && !std::is_same<G, Grid<int, rank> >::value) form = 2; readAll<T, rank>(*ts[v], form, o); } }
      else if (op == "bounds") {
        std::vector<long> a, b, d;
        for (size_t k = 0; k < rank; ++k) { if (ss[v]) { a.push_back(ss[v]->getLo(k)); b.push_back(ss[v]->getHi()[k]); d.push_back(ss[v]->getDims(k)); }
          else { a.push_back(ts[v]->getLo()[k]); b.push_back(ts[v]->getHi(k)); d.push_back(ts[v]->getDims()[k]); } }
        o.put("vlo", seq(a)).put("vhi", seq(b)).put("dims", seq(d));
      } else std::exit(3);
    }
    out.event(o);
  }
}
template<size_t rank> void kinds(In &in, Out &out) {
  std::string k = gets(in);
  if (k == "a") machine<Grid<int, rank>, rank>(in, out);
  else machine<Grid<int, rank, GridNoArgCheck, SingleArrayGridStorageFortran>, rank>(in, out);
}
int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    switch (geti(in)) { case 1: kinds<1>(in, out); break; case 2: kinds<2>(in, out); break; default: kinds<3>(in, out); }
  });
}
