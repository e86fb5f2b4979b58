// Field geometry: every way of making a field, index <-> position.
#include "common.hpp"
#include <grid.hpp>
#include <cmath>
using namespace schnek;
using namespace vf;

template<class F, size_t rank> void machine(In &in, Out &out) {
  typedef Array<int, rank> I;
  typedef Range<double, rank> D;
  typedef Array<bool, rank> S;
  int n = geti(in);
  std::map<int, std::unique_ptr<F> > fs;
  double u[rank];      // physical length of one unit, per dimension
  for (size_t d = 0; d < rank; ++d) u[d] = std::ldexp(1.0, geti(in));
  auto units = [&](double x, size_t d) { return (long long)std::llround(x / u[d]); };
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    int f = geti(in); o.num("f", f);
    if (op == "make" || op == "resize") {
      I lo, hi, size; D dom; S st; long plo[rank], w[rank];
      for (size_t d = 0; d < rank; ++d) {
        lo[d] = geti(in); hi[d] = geti(in); plo[d] = geti(in); w[d] = geti(in); st[d] = geti(in) != 0;
        size[d] = hi[d] - lo[d] + 1;
        dom.getLo()[d] = plo[d] * u[d]; dom.getHi()[d] = (plo[d] + size[d] * w[d]) * u[d];
      }
      int gh = geti(in), how = geti(in);
      if (op == "make") {
        if (how == 0) fs[f].reset(new F(lo, hi, dom, st, gh));
        else if (how == 1) fs[f].reset(new F(Range<int, rank>(lo, hi), dom, st, gh));
        else { fs[f].reset(new F(size, dom, st, gh)); for (size_t d = 0; d < rank; ++d) { lo[d] = 0; hi[d] = size[d] - 1; } }
      } else {
        if (!fs[f]) fs[f].reset(new F());
        if (how == 0) fs[f]->resize(lo, hi, dom, st, gh);
        else if (how == 1) fs[f]->resize(Range<int, rank>(lo, hi), dom, st, gh);
        else { fs[f]->resize(size, dom, st, gh); for (size_t d = 0; d < rank; ++d) { lo[d] = 0; hi[d] = size[d] - 1; } }
      }
      std::vector<std::string> sv; for (size_t d = 0; d < rank; ++d) sv.push_back(st[d] ? "true" : "false");
      o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank)).put("plo", seq(plo, rank)).put("w", seq(w, rank)).put("st", raw(sv)).num("gh", gh).num("how", how);
    } else if (op == "copy" || op == "assign") {
      int s = geti(in); o.num("s", s);
      if (op == "copy") { F *p = new F(*fs[s]); fs[f].reset(p); }
      else { if (!fs[f]) fs[f].reset(new F()); *fs[f] = *fs[s]; }
    } else if (op == "bounds") {
      F &g = *fs[f];
      auto il = g.getInnerLo(), ih = g.getInnerHi(); auto r = g.getInnerRange();
      std::vector<std::string> sv; std::vector<long> pl, ph, dm;
      for (size_t d = 0; d < rank; ++d) {
        sv.push_back(g.getStagger(d) && g.getStagger()[d] ? "true" : "false");
        pl.push_back(units(g.getDomain().getLo()[d], d)); ph.push_back(units(g.getDomain().getHi()[d], d)); dm.push_back(g.getDims(d));
      }
      o.put("ilo", seq(il, rank)).put("ihi", seq(ih, rank)).put("rlo", seq(r.getLo(), rank)).put("rhi", seq(r.getHi(), rank))
       .put("glo", seq(g.getLo(), rank)).put("ghi", seq(g.getHi(), rank)).put("dims", seq(dm)).num("size", g.getSize()).put("st", raw(sv)).put("plo", seq(pl)).put("phi", seq(ph));
    } else if (op == "position") {
      int d = geti(in), k = geti(in);
      o.num("d", d).num("i", k).num("x", units(fs[f]->indexToPosition(d - 1, k), d - 1));
    } else if (op == "find") {
      int d = geti(in); long x = geti(in);
      int k = 0; double off = 0;
      fs[f]->positionToIndex(d - 1, x * u[d - 1], k, off);
      o.num("d", d).num("x", x).num("i", k).num("i2", fs[f]->positionToIndex(d - 1, x * u[d - 1])).num("frac", std::llround(off * 1024));
    } else std::exit(3);
    out.event(o);
  }
}

template<size_t rank> void kinds(In &in, Out &out) {
  std::string k = gets(in);
  if (k == "a") machine<Field<double, rank>, rank>(in, out);
  else if (k == "b") machine<Field<int, rank, GridAssertCheck>, rank>(in, out);
  else machine<Field<float, rank, GridNoArgCheck, SingleArrayGridStorageFortran>, rank>(in, out);
}

int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    switch (geti(in)) { case 1: kinds<1>(in, out); break; case 2: kinds<2>(in, out); break; case 3: kinds<3>(in, out); break; default: kinds<4>(in, out); }
  });
}
