// Arrays and grids written to text streams.
#include "common.hpp"
#include <grid.hpp>
#include <datastream.hpp>
#include <sstream>
using namespace vf;
template<class T, size_t rank> using LazyFortran = schnek::SingleArrayGridFortranOrderStorageBase<T, rank, schnek::SingleArrayLazyAllocation>;

template<class G, size_t rank> void grid(In &in, Obj &o, std::ostream &out) {
  typedef schnek::Array<int, rank> I;
  I lo, hi; for (size_t d = 0; d < rank; ++d) lo[d] = geti(in); for (size_t d = 0; d < rank; ++d) hi[d] = geti(in);
  G g(lo, hi); std::vector<long> v;
  walk<rank, I>(lo, hi, [&](const I &p) { long x = geti(in); v.push_back(x); g[p] = (typename G::value_type)x; });
  const G &c = g;
  out << c;
  std::vector<long> after; walk<rank, I>(lo, hi, [&](const I &p) { after.push_back((long)g[p]); });
  o.put("after", seq(after)).put("lo", seq(lo, rank)).put("hi", seq(hi, rank)).put("cells", seq(v));
}
template<size_t rank> void kinds(In &in, Obj &o, std::ostream &out) {
  using namespace schnek;
  std::string k = gets(in);
  if (k == "c") grid<Grid<int, rank>, rank>(in, o, out);
  else if (k == "f") grid<Grid<int, rank, GridAssertCheck, SingleArrayGridStorageFortran>, rank>(in, o, out);
  else if (k == "d") grid<Grid<double, rank, GridAssertCheck>, rank>(in, o, out);
  else if (k == "l") grid<Grid<long, rank, GridNoArgCheck, LazyArrayGridStorage>, rank>(in, o, out);
  else grid<Grid<float, rank, GridNoArgCheck, LazyFortran>, rank>(in, o, out);
}
template<class A> void fixed(In &in, Obj &o, std::ostream &out) {
  A a; std::vector<long> v;
  for (size_t i = 0; i < A::length; ++i) { long x = geti(in); v.push_back(x); a[i] = x; }
  const A &c = a; out << c; o.put("vals", seq(v));
}
template<size_t n> void arrays(In &in, Obj &o, std::ostream &out) {
  std::string k = gets(in);
  if (k == "i") fixed<schnek::Array<int, n> >(in, o, out);
  else if (k == "d") fixed<schnek::Array<double, n, schnek::ArrayAssertArgCheck> >(in, o, out);
  else fixed<schnek::Array<long, n> >(in, o, out);
}
int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    std::ostringstream s[2];
    for (int n = geti(in); n > 0; --n) {
      std::string op = gets(in); int w = geti(in);
      Obj o; o.str("op", op).num("s", w);
      std::ostringstream &q = s[w - 1];
      if (op == "mark") { std::string t = gets(in); q << t; o.str("t", t); }
      else {
        int k = geti(in);
        if (op == "array") switch (k) { case 1: arrays<1>(in, o, q); break; case 2: arrays<2>(in, o, q); break; case 3: arrays<3>(in, o, q); break;
          case 4: arrays<4>(in, o, q); break; case 7: arrays<7>(in, o, q); break; default: arrays<10>(in, o, q); }
        else switch (k) { case 1: kinds<1>(in, o, q); break; case 2: kinds<2>(in, o, q); break; case 3: kinds<3>(in, o, q); break; case 4: kinds<4>(in, o, q); break; default: kinds<5>(in, o, q); }
      }
      o.put("streams", strs({s[0].str(), s[1].str()}));
      out.event(o);
    }
  });
}
