// Ranges: the iterator step by step, whole loops under every policy, and the operations on ranges.
#include "common.hpp"
#include <grid.hpp>
#include <grid/iteration/range-iteration.hpp>
#include <deque>
#include <grid/iteration/kokkos-iteration.hpp>
#include <mutex>
using namespace schnek;
using namespace vf;

template<size_t rank, class A> A idx(In &in) { A a; for (size_t d = 0; d < rank; ++d) a[d] = geti(in); return a; }
template<class R, size_t rank, size_t... K, class D> void growBy(R &r, const D &d, std::index_sequence<K...>) { r.grow(d[K]...); }

template<class T, size_t rank, template<size_t> class Chk> void machine(In &in, Out &out) {
  typedef Range<T, rank, Chk> R;
  typedef typename R::LimitType P;
  int n = geti(in);
  std::unique_ptr<R> r;
  std::unique_ptr<typename R::iterator> it;
  std::deque<typename R::iterator> trail;        // copies of the iterator, one from each position it was in
  auto same = [&]() { std::vector<long> v; trail.push_back(*it); for (size_t k = 0; k < trail.size(); ++k) if (trail[k] == *it && !(trail[k] != *it)) v.push_back(k); return seq(v); };
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "set") {
      it.reset(); trail.clear();
      P lo = idx<rank, P>(in), hi = idx<rank, P>(in);
      int how = geti(in);
      if (how == 0) r.reset(new R(lo, hi));
      else if (how == 1) { if (!r) r.reset(new R()); *r = R(lo, hi); }
      else if (how == 2) { Array<T, rank, ArrayAssertArgCheck> a(lo), b(hi); Range<T, rank, ArrayAssertArgCheck> q(a, b); r.reset(new R(q)); }
      else { r.reset(new R()); for (size_t d = 0; d < rank; ++d) { r->getLo(d) = lo[d]; r->getHi()[d] = hi[d]; } }
      o.put("lo", seq(lo, rank)).put("hi", seq(hi, rank));
    } else if (op == "grow") {
      it.reset();
      int how = geti(in);
      std::vector<long> d;
      for (size_t k = 0; k < rank; ++k) d.push_back(geti(in));
      std::vector<T> dd(d.begin(), d.end());
      if (how == 0) r->grow(dd[0]);
      else growBy<R, rank>(*r, dd, std::make_index_sequence<rank>{});
      if (how == 0) for (auto &x : d) x = d[0];
      o.put("d", seq(d));
    } else if (op == "start") {
      trail.clear();
      it.reset(new typename R::iterator(r->begin()));
      bool e = *it == r->end();
      o.boolean("atend", e).put("pos", seq(**it, rank)).put("same", same());
    } else if (op == "step") {
      int post = geti(in);
      if (!it || *it == r->end()) continue;   // nothing to step over
      std::string old = "[]";
      if (post) { typename R::iterator j((*it)++); old = seq(*j, rank); }
      else ++*it;
      o.boolean("atend", !(*it != r->end())).put("pos", seq(it->getPos(), rank)).put("old", old).put("same", same());
    } else if (op == "loop") {
      std::string kind = gets(in);
      std::vector<std::string> pts;
      size_t cap = 100000;
      auto add = [&](const P &p) { if (pts.size() < cap) pts.push_back(seq(p, rank)); };
      if (kind == "iter") { for (auto &p : *r) { add(p); if (pts.size() >= cap) break; } }
      else if (kind == "post") { typename R::iterator e = r->end(); for (typename R::iterator j = r->begin(); j != e; j++) { add(*j); if (pts.size() >= cap) break; } }
      else if (kind == "c") RangeCIterationPolicy<rank>::forEach(*r, [&](const P &p) { add(p); });
      else if (kind == "f") RangeFortranIterationPolicy<rank>::forEach(*r, [&](const P &p) { add(p); });
      else if constexpr (rank <= 6) { std::mutex m; RangeKokkosIterationPolicy<rank>::forEach(*r, [&](const P &p) { std::lock_guard<std::mutex> g(m); add(p); }); Kokkos::fence(); }
      else std::exit(3);
      o.str("kind", kind).put("pts", raw(pts));
    } else if (op == "tour") {
      std::string kind = gets(in);
      std::vector<long> ks; std::vector<P> pts; std::vector<std::string> at, ps;
      for (int k = geti(in); k > 0; --k) ks.push_back(geti(in));
      for (int k = geti(in); k > 0; --k) { pts.push_back(idx<rank, P>(in)); ps.push_back(seq(pts.back(), rank)); }
      at.assign(ks.size(), "[]"); std::vector<long> visits(pts.size(), 0); long c = 0, cap = 3000000;
      auto add = [&](const P &p) {
        for (size_t j = 0; j < ks.size(); ++j) if (ks[j] == c) at[j] = seq(p, rank);
        for (size_t j = 0; j < pts.size(); ++j) { bool e = true; for (size_t d = 0; d < rank; ++d) e = e && pts[j][d] == p[d]; if (e) ++visits[j]; }
        ++c;
      };
      if (kind == "iter") { for (auto &p : *r) { add(p); if (c >= cap) break; } }
      else if (kind == "post") { typename R::iterator e = r->end(); for (typename R::iterator j = r->begin(); j != e; j++) { add(*j); if (c >= cap) break; } }
      else if (kind == "c") RangeCIterationPolicy<rank>::forEach(*r, [&](const P &p) { add(p); });
      else if (kind == "f") RangeFortranIterationPolicy<rank>::forEach(*r, [&](const P &p) { add(p); });
      else if constexpr (rank <= 6) { std::mutex m; RangeKokkosIterationPolicy<rank>::forEach(*r, [&](const P &p) { std::lock_guard<std::mutex> g(m); add(p); }); Kokkos::fence(); }
      else std::exit(3);
      o.str("kind", kind).num("count", c).put("ks", seq(ks)).put("at", raw(at)).put("pts", raw(ps)).put("visits", seq(visits));
    } else if (op == "inside") {
      P p = idx<rank, P>(in);
      o.put("p", seq(p, rank)).boolean("res", r->inside(p));
    } else if (op == "drop") {
      int d = geti(in);
      if constexpr (rank > 1) {
        auto q = r->projectDim(d - 1);
        o.num("d", d).put("rlo", seq(q.getLo(), rank - 1)).put("rhi", seq(q.getHi(), rank - 1));
      } else continue;
    } else if (op == "project") {
      if constexpr (rank > 1) {
        auto q = r->template project<rank - 1>();
        o.num("n", rank - 1).put("rlo", seq(q.getLo(), rank - 1)).put("rhi", seq(q.getHi(), rank - 1));
      } else continue;
    } else if (op == "get") {
      const R &c = *r;
      R cp(c);
      std::vector<long> a, b;
      for (size_t d = 0; d < rank; ++d) { a.push_back(c.getLo(d)); b.push_back(cp.getHi(d)); }
      o.put("rlo", seq(a)).put("rhi", seq(b));
    } else std::exit(3);
    out.event(o);
  }
}

// ranges of physical space, in quarters
template<class T, size_t rank, template<size_t> class Chk> void space(In &in, Out &out) {
  typedef Range<T, rank, Chk> R;
  typedef typename R::LimitType P;
  auto pt = [&]() { P p; for (size_t d = 0; d < rank; ++d) p[d] = T(geti(in)) / 4; return p; };
  auto q4 = [](const auto &a, size_t n) { std::vector<long> v; for (size_t d = 0; d < n; ++d) { T x = a[d] * 4; v.push_back(x == (T)(long)x ? (long)x : -999999999L); } return seq(v); };
  R r;
  for (int n = geti(in); n > 0; --n) {
    std::string op = gets(in); Obj o; o.str("op", op);
    if (op == "set") {
      P lo = pt(), hi = pt(); int how = geti(in);
      if (how == 0) { R q(lo, hi); r = q; }
      else if (how == 1) { r.getLo() = lo; r.getHi() = hi; }
      else for (size_t d = 0; d < rank; ++d) { r.getLo(d) = lo[d]; r.getHi(d) = hi[d]; }
      o.put("lo", q4(lo, rank)).put("hi", q4(hi, rank));
    } else if (op == "grow") {
      int how = geti(in); std::vector<long> d; std::vector<T> dd;
      for (size_t k = 0; k < rank; ++k) { d.push_back(geti(in)); dd.push_back(T(d[k]) / 4); }
      if (how == 0) { r.grow(dd[0]); for (auto &x : d) x = d[0]; } else growBy<R, rank>(r, dd, std::make_index_sequence<rank>{});
      o.put("d", seq(d));
    } else if (op == "inside") { P p = pt(); o.put("p", q4(p, rank)).boolean("res", r.inside(p)); }
    else if (op == "drop") {
      int d = geti(in);
      if constexpr (rank > 1) { auto q = r.projectDim(d - 1); o.num("d", d).put("rlo", q4(q.getLo(), rank - 1)).put("rhi", q4(q.getHi(), rank - 1)); } else continue;
    } else if (op == "get") { const R &c = r; R cp(c); P a, b; for (size_t d = 0; d < rank; ++d) { a[d] = c.getLo(d); b[d] = cp.getHi(d); } o.put("rlo", q4(a, rank)).put("rhi", q4(b, rank)); }
    else std::exit(3);
    out.event(o);
  }
}

template<size_t rank> void dispatch(const std::string &t, In &in, Out &out) {
  if (t == "dbl") space<double, rank, ArrayNoArgCheck>(in, out);
  else if (t == "flt") space<float, rank, ArrayAssertArgCheck>(in, out);
  else if (t == "int") machine<int, rank, ArrayNoArgCheck>(in, out);
  else machine<long, rank, ArrayAssertArgCheck>(in, out);
}

int main(int argc, char **argv) {
  int ac = 1; char *av[] = {argv[0], nullptr}; char **pv = av;
  Kokkos::initialize(ac, pv);
  int rc = run(argc, argv, [](In &in, Out &out) {
    std::string t = gets(in);
    switch (geti(in)) {
      case 1: dispatch<1>(t, in, out); break;
      case 2: dispatch<2>(t, in, out); break;
      case 3: dispatch<3>(t, in, out); break;
      case 4: dispatch<4>(t, in, out); break;
      case 5: dispatch<5>(t, in, out); break;
      case 6: dispatch<6>(t, in, out); break;
      case 7: dispatch<7>(t, in, out); break;
      case 8: dispatch<8>(t, in, out); break;
      case 9: dispatch<9>(t, in, out); break;
      case 10: dispatch<10>(t, in, out); break;
      default: std::exit(3);
    }
  });
  Kokkos::finalize();
  return rc;
}
