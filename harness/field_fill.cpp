// Filling fields from formulas of a setup file: fill_field and FieldFiller.
#include "common.hpp"
#include "parser.hpp"
#include "variables.hpp"
#include "grid.hpp"
#include "tools/fieldtools.hpp"
#include <cmath>
#include <list>
using namespace schnek;
using namespace vf;

struct Par { int def; std::string name, ty; double d = -3.5; int i = -3; pParameter p; };
struct Coords {
  int rank = 0;
  Array<double, 1> c1; Array<double, 2> c2; Array<double, 3> c3;
  std::vector<pParameter> ps;
  double &at(int d) { return rank == 1 ? c1[d] : rank == 2 ? c2[d] : c3[d]; }
};
static Array<double, 1> &get1(Coords &c, std::integral_constant<size_t, 1>) { return c.c1; }
static Array<double, 2> &get1(Coords &c, std::integral_constant<size_t, 2>) { return c.c2; }
static Array<double, 3> &get1(Coords &c, std::integral_constant<size_t, 3>) { return c.c3; }
template<size_t R> static Array<double, R> &arr(Coords &c) { return get1(c, std::integral_constant<size_t, R>()); }
typedef DependencyUpdater Up;
static void independent(Up &u, Coords &c) { for (pParameter p : c.ps) u.addIndependent(p); }

static std::list<Par> *wanted;
static Coords *coords;
static bool groupArrays;

class Sim : public Block {
    template<size_t R> void reg(BlockParameters &bp, const std::string &n, Coords &c) {
      auto p = bp.addArrayParameter(n, arr<R>(c), BlockParameters::readonly);
      for (size_t d = 0; d < R; ++d) c.ps.push_back(p[d]);
    }
  protected:
    void initParameters(BlockParameters &bp) override {
      for (int a = 0; a < 2; ++a) {
        std::string n = a ? "s" : "";
        if (coords[a].rank == 1) reg<1>(bp, n, coords[a]); else if (coords[a].rank == 2) reg<2>(bp, n, coords[a]); else reg<3>(bp, n, coords[a]);
      }
      for (Par &p : *wanted) p.p = p.ty == "int" ? bp.addParameter(p.name, &p.i, 4) : bp.addParameter(p.name, &p.d, 2.5);
    }
};

static std::string cell(double v) {
  bool exact = false; long long n = 0; int e = -1;
  if (std::isfinite(v) && std::fabs(v) < 2e9) {
    double w = v;
    int k = 0;
    for (; k <= 30; ++k, w *= 2) if (w == std::floor(w)) break;
    if (k <= 30 && std::fabs(w) < 2e9) { exact = true; n = (long long)w; e = k; }
  }
  (void)exact;
  long long mic = (std::isfinite(v) && std::fabs(v) < 2000) ? std::llround(v * 1e6) : -2000000000;
  return "[" + std::to_string(n) + "," + std::to_string(e) + "," + std::to_string(mic) + "]";
}

template<size_t R> using Adder = FieldFiller::fieldAdder<R, ArrayNoArgCheck>;
struct AnyField { int rank; virtual ~AnyField() {} virtual std::string cells() = 0; virtual void fill(Coords &, Par &, Up &, bool own) = 0; };
template<size_t R> struct RField : AnyField { virtual Adder<R> &add(Adder<R> &a, Par &p) = 0; };
template<class T> T &slot(Par &p);
template<> int &slot<int>(Par &p) { return p.i; }
template<> double &slot<double>(Par &p) { return p.d; }
template<class T, size_t R, template<size_t> class Chk, template<typename, size_t> class Sto> struct TField : RField<R> {
  typedef Field<T, R, Chk, Sto> F;
  F f;
  TField(In &in) {
    this->rank = R;
    Array<int, R> lo, hi; Range<double, R> dom; Array<bool, R> st;
    for (size_t d = 0; d < R; ++d) {
      lo[d] = geti(in); hi[d] = geti(in); long plo = geti(in), w = geti(in); st[d] = geti(in) != 0; double u = std::ldexp(1.0, -geti(in));
      dom.getLo()[d] = plo * u; dom.getHi()[d] = (plo + (hi[d] - lo[d] + 1) * w) * u;
    }
    f.resize(lo, hi, dom, st, geti(in));
    f = T(-7);
  }
  std::string cells() override {
    std::vector<std::string> v;
    typedef typename F::IndexType I;
    I lo = f.getLo(), hi = f.getHi();
    walk<R, I>(lo, hi, [&](const I &p) { v.push_back(cell(f.get(p))); });
    return raw(v);
  }
  void fill(Coords &c, Par &p, Up &u, bool own) override {
    if (own) slot<T>(p) = T(-1234.5);            // the program may have used the variable for something else
    if (own) fill_field(f, arr<R>(c), slot<T>(p), u, p.p); else fill_field(f, arr<R>(c), slot<T>(p), u);
  }
  Adder<R> &add(Adder<R> &a, Par &p) override { return a(f, slot<T>(p)); }
};
template<size_t R> AnyField *make(const std::string &k, In &in) {
  if (k == "d") return new TField<double, R, GridNoArgCheck, SingleArrayGridStorage>(in);
  if (k == "f") return new TField<double, R, GridAssertCheck, SingleArrayGridStorageFortran>(in);
  if (k == "i") return new TField<int, R, GridAssertCheck, SingleArrayGridStorage>(in);
  return new TField<int, R, GridNoArgCheck, SingleArrayGridStorageFortran>(in);
}
template<size_t R> void setAll(FieldFiller &ff, Coords &c, Up &u, std::vector<std::pair<AnyField*, Par*>> &items) {
  auto &&first = ff.set(arr<R>(c), u);
  Adder<R> *a = &first;
  for (auto &i : items) a = &dynamic_cast<RField<R>*>(i.first)->add(*a, *i.second);
}

int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    Coords cs[2]; coords = cs;
    cs[0].rank = geti(in); cs[1].rank = geti(in);
    std::string text = getx(in);
    std::list<Par> ps; wanted = &ps;
    std::map<int, Par*> byDef;
    for (int n = geti(in); n > 0; --n) { Par p; p.def = geti(in); p.name = gets(in); p.ty = gets(in); ps.push_back(p); byDef[p.def] = &ps.back(); }
    std::vector<std::unique_ptr<AnyField>> fs;
    for (int n = geti(in); n > 0; --n) { std::string k = gets(in); int r = geti(in); fs.emplace_back(r == 1 ? make<1>(k, in) : r == 2 ? make<2>(k, in) : make<3>(k, in)); }
    BlockClasses bc(false);
    bc.registerBlock("sim").setClass<Sim>();
    std::istringstream file(text);
    Parser P("run", "sim", bc);
    registerAllFunctions(P.getFunctionRegistry());
    P.getFunctionRegistry().registerFunction("both", +[](double a, double b) { return a + 2 * b; });
    pBlock app = P.parse(file);
    app->evaluateParameters();
    pDependencyMap map(new DependencyMap(app->getVariables()));
    std::vector<int> upArr; std::vector<std::unique_ptr<Up>> ups;
    for (int n = geti(in); n > 0; --n) {
      upArr.push_back(geti(in) - 1);
      ups.emplace_back(new Up(map));
      independent(*ups.back(), cs[0]); independent(*ups.back(), cs[1]);
    }
    int nf = geti(in);
    std::vector<FieldFiller> fillers(nf);
    for (int n = geti(in); n > 0; --n) {
      std::string op = gets(in); Obj o; o.str("op", op);
      if (op == "put") {
        int a = geti(in), d = geti(in), num = geti(in), e = geti(in);
        cs[a - 1].at(d - 1) = std::ldexp((double)num, -e);
        Obj v; v.str("t", "flt").num("n", num).num("e", e);
        o.num("a", a).num("d", d).put("v", v.done());
      } else if (op == "depend") {
        int u = geti(in), p = geti(in);
        ups[u - 1]->addDependent(byDef[p]->p);
        o.num("u", u).num("p", p);
      } else if (op == "fill") {
        int own = geti(in), f = geti(in), p = geti(in), u = geti(in);
        // filling from one parameter leaves the program's variables of the others alone
        std::vector<std::pair<int, double>> kept;
        if (own) for (Par &q : ps) if (&q != byDef[p]) { kept.push_back({q.i, q.d}); q.i = -77; q.d = -77.25; }
        fs[f - 1]->fill(cs[upArr[u - 1]], *byDef[p], *ups[u - 1], own);
        int touched = 0, nk = 0;
        if (own) for (Par &q : ps) if (&q != byDef[p]) { if (q.i != -77 || q.d != -77.25) ++touched; q.i = kept[nk].first; q.d = kept[nk].second; ++nk; }
        o.num("touched", touched);
        o.boolean("own", own).num("f", f).num("p", p).num("u", u);
      } else if (op == "set") {
        int k = geti(in), u = geti(in), m = geti(in);
        std::vector<std::pair<AnyField*, Par*>> items; std::vector<std::string> v;
        for (int i = 0; i < m; ++i) { int f = geti(in), p = geti(in); items.push_back({fs[f - 1].get(), byDef[p]}); Obj q; q.num("f", f).num("p", p); v.push_back(q.done()); }
        Coords &c = cs[upArr[u - 1]];
        if (c.rank == 1) setAll<1>(fillers[k - 1], c, *ups[u - 1], items);
        else if (c.rank == 2) setAll<2>(fillers[k - 1], c, *ups[u - 1], items);
        else setAll<3>(fillers[k - 1], c, *ups[u - 1], items);
        o.num("n", k).num("u", u).put("items", raw(v));
      } else if (op == "clear") { int k = geti(in); fillers[k - 1].clear(); o.num("n", k); }
      else if (op == "run") { int k = geti(in); fillers[k - 1].fillFields(); o.num("n", k); }
      else std::exit(3);
      if (op == "fill" || op == "run") { std::vector<std::string> v; for (auto &f : fs) v.push_back(f->cells()); o.put("cells", raw(v)); }
      out.event(o);
    }
  });
}
