// Regions of a boundary, and the views of grids and fields restricted to them.
#include "common.hpp"
#include <grid.hpp>
#include <grid/boundary.hpp>
using namespace schnek;
using namespace vf;

template<size_t rank, template<size_t> class Chk> void machine(In &in, Out &out) {
  typedef Boundary<rank, Chk> B;
  typedef typename B::DomainType D;
  typedef Array<int, rank> I;
  typedef Grid<int, rank> G;
  typedef Field<int, rank> F;
  int n = geti(in);
  std::unique_ptr<B> b; G g; F f;
  I lo, hi;
  auto region = [&](Obj &o, const D &d) { o.put("rlo", seq(d.getLo(), rank)).put("rhi", seq(d.getHi(), rank)); };
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "make" || op == "outline") {
      for (size_t d = 0; d < rank; ++d) { lo[d] = geti(in); hi[d] = geti(in); }
      int delta = geti(in), how = geti(in); Array<bool, rank> st;
      for (size_t d = 0; d < rank; ++d) st[d] = geti(in) != 0;
      typename B::LimitType bl(lo), bh(hi);
      if (how == 0) b.reset(new B(bl, bh, delta)); else { D dm(bl, bh); b.reset(new B(dm, delta)); }
      if (how == 2) { B c(*b); B *e = new B(); *e = c; b.reset(e); }
      o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank)).num("delta", delta);
      if (op == "outline") { out.event(o); continue; }   // regions only, for boxes too large to be filled
      g.resize(lo, hi);
      Range<double, rank> phys; for (size_t d = 0; d < rank; ++d) { phys.getLo()[d] = 0; phys.getHi()[d] = 1; }
      f.resize(lo, hi, phys, st, 0);
      long k = 0; walk<rank, I>(lo, hi, [&](const I &p) { g[p] = k; f[p] = k; ++k; });
    } else if (op == "inner") region(o, b->getInnerDomain());
    else if (op == "domain") { region(o, b->getDomain()); o.num("delta", b->getDelta()); }
    else {
      int d = geti(in); std::string side = gets(in);
      o.num("d", d).str("side", side);
      typename B::bound s = side == "min" ? B::Min : B::Max;
      if (op == "ghost") region(o, b->getGhostDomain(d - 1, s));
      else if (op == "source") region(o, b->getGhostSourceDomain(d - 1, s));
      else if (op == "bound") { bool st = geti(in) != 0; o.boolean("st", st); region(o, b->getBoundaryDomain(d - 1, s, st)); }
      else if (op == "view" || op == "poke") {
        std::string kind = gets(in); o.str("kind", kind).boolean("st", f.getStagger(d - 1));
        int k = 0, v = 0;
        if (op == "poke") { k = geti(in); v = geti(in); }
        auto use = [&](auto sub, auto &base, auto &other) {
          std::vector<long> vals; long c = 0, cnt = 1;
          for (size_t e = 0; e < rank; ++e) cnt *= std::max(0, sub.getHi(e) - sub.getLo(e) + 1);
          if (op == "view") { walk<rank, I>(sub.getLo(), sub.getHi(), [&](const I &p) { vals.push_back(sub[p]); });
            o.put("rlo", seq(sub.getLo(), rank)).put("rhi", seq(sub.getHi(), rank)).put("vals", seq(vals)); return true; }
          if (cnt == 0) return false;
          k %= cnt;
          walk<rank, I>(sub.getLo(), sub.getHi(), [&](const I &p) { if (c++ == k) { sub[p] = v; other[p] = v; } });
          walk<rank, I>(lo, hi, [&](const I &p) { vals.push_back(base[p]); });
          o.num("k", k).num("v", v).put("all", seq(vals));
          return true;
        };
        if (!(kind == "grid" ? use(b->getGhostBoundary(d - 1, s, g), g, f) : use(b->getGhostBoundary(d - 1, s, f), f, g))) continue;
      } else std::exit(3);
    }
    out.event(o);
  }
}
template<size_t rank> void kinds(In &in, Out &out) { if (gets(in) == "a") machine<rank, ArrayNoArgCheck>(in, out); else machine<rank, ArrayAssertArgCheck>(in, out); }
int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    switch (geti(in)) { case 1: kinds<1>(in, out); break; case 2: kinds<2>(in, out); break; case 3: kinds<3>(in, out); break; default: kinds<4>(in, out); }
  });
}
