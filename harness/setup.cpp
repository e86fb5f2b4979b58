// Setup files: parsing, block tree, lifecycle, parameters, dependency updates.
#include "common.hpp"
#include "parser.hpp"
#include "variables.hpp"
#include "parser/parsertoken.hpp"
#include "variables/blockcontainer.hpp"
#include "variables/dependencies.hpp"
#include "variables/function_expression.hpp"
#include <cmath>
using namespace schnek;
using namespace vf;

struct Par { std::string name, ty, kind; int rank; std::vector<std::string> def; };
struct Cls { std::string name; bool real; std::vector<Par> pars; std::vector<std::string> kids; };
static std::vector<Cls> classes;

struct Slot { std::string name, ty; int i = 0; double f = 0; std::string s; pParameter p; };

static double num(const std::string &t) {           // n/e is n * 2^-e
  size_t k = t.find('/');
  return k == std::string::npos ? std::stod(t) : std::ldexp(std::stod(t.substr(0, k)), -std::stoi(t.substr(k + 1)));
}
static std::string valInt(int v) { Obj o; o.str("t", "int").num("n", v); return o.done(); }
static std::string valStr(const std::string &v) { Obj o; o.str("t", "str").str("s", v); return o.done(); }
static std::string valFlt(double v) {
  Obj o; o.str("t", "flt");
  bool exact = false; long long n = 0; int e = 0;
  if (std::isfinite(v) && std::fabs(v) < 2e9) {
    double w = v;
    for (e = 0; e <= 30; ++e, w *= 2) if (w == std::floor(w)) break;
    if (e <= 30 && std::fabs(w) < 2e9) { exact = true; n = (long long)w; } else e = 0;
  }
  long long mic = (std::isfinite(v) && std::fabs(v) < 2000) ? std::llround(v * 1e6) : -2000000000;
  o.boolean("exact", exact).num("n", n).num("e", e).num("mic", mic);
  return o.done();
}
static std::string val(const ValueVariant &v) {
  if (const int *i = boost::get<int>(&v)) return valInt(*i);
  if (const double *d = boost::get<double>(&v)) return valFlt(*d);
  return valStr(boost::get<std::string>(v));
}

class Base;
static std::vector<Base*> made;                      // in order of creation
static std::vector<std::string> life;                // lifecycle calls
static std::string early;                            // parameters when the first registerData runs
static std::string allParams();
static int indexOf(Base *);
static int calls = 0;
static double tick = 0;

static double fAlways() { return tick; }
static int fIota() { return 7; }
static int fTwice(int a) { return 2 * a; }
static std::string fJoin(std::string a, int b) { return a + ":" + std::to_string(b); }
static double fCount(double a) { ++calls; return a; }
static double fBoth(double a, double b) { return a + 2 * b; }

struct Base {
  virtual ~Base() {}
  std::list<Slot> slots;                             // stable addresses
  std::vector<Array<double, 3>*> fa;
  std::list<Array<double, 1>> f1; std::list<Array<double, 2>> f2; std::list<Array<double, 3>> f3;
  std::list<Array<int, 1>> i1; std::list<Array<int, 2>> i2; std::list<Array<int, 3>> i3;
  struct Ref { std::string name, ty; void *at; pParameter p; };
  std::vector<Ref> refs;
  virtual Block *block() = 0;
  virtual std::string cls() = 0;
  virtual std::string kids() = 0;
  virtual BlockList childList() = 0;
  std::string value(const Ref &r) {
    if (r.ty == "int") return valInt(*(int*)r.at);
    if (r.ty == "flt") return valFlt(*(double*)r.at);
    return valStr(*(std::string*)r.at);
  }
  std::string params() {
    std::vector<std::string> v;
    for (Ref &r : refs) { Obj o; o.str("name", r.name).put("v", value(r)); v.push_back(o.done()); }
    return raw(v);
  }
};
static std::string allParams() { std::vector<std::string> v; for (Base *b : made) v.push_back(b->params()); return raw(v); }
static int indexOf(Base *b) { for (size_t i = 0; i < made.size(); ++i) if (made[i] == b) return i + 1; return 0; }
static void phase(const char *w, Base *b) {
  if (life.empty()) early = allParams();
  life.push_back("[\"" + std::string(w) + "\"," + std::to_string(indexOf(b)) + "]");
}

template<class T> T conv(const std::string &t);
template<> int conv<int>(const std::string &t) { return (int)num(t); }
template<> double conv<double>(const std::string &t) { return num(t); }
template<> std::string conv<std::string>(const std::string &t) { return unhex(t); }

template<class T> void scalar(Base *b, BlockParameters &bp, const Par &q, T Slot::*field) {
  b->slots.push_back(Slot());
  Slot &s = b->slots.back();
  pParameter p;
  if (q.kind == "req") p = bp.addParameter(q.name, &(s.*field));
  else if (q.kind == "def") p = bp.addParameter(q.name, &(s.*field), conv<T>(q.def[0]));
  else if (q.kind == "ro") { s.*field = conv<T>(q.def[0]); p = bp.addParameter(q.name, &(s.*field), BlockParameters::readonly); }
  else if (q.kind == "rod") p = bp.addParameter(q.name, &(s.*field), conv<T>(q.def[0]), BlockParameters::readonly);
  else { s.*field = conv<T>(q.def[0]); p = bp.addConstant(q.name, conv<T>(q.def[0])); }
  b->refs.push_back({q.name, q.ty, &(s.*field), p});
}
template<class T, size_t R> void array(Base *b, BlockParameters &bp, const Par &q, std::list<Array<T, R>> &store) {
  store.push_back(Array<T, R>());
  Array<T, R> &a = store.back();
  for (size_t i = 0; i < R; ++i) a[i] = T();
  Array<pParameter, R> p;
  BlockParameters::Permissions perm = (q.kind == "ro" || q.kind == "rod") ? BlockParameters::readonly : BlockParameters::readwrite;
  if (q.kind == "req") p = bp.addArrayParameter(q.name, a);
  else if (q.kind == "ro") { for (size_t i = 0; i < R; ++i) a[i] = conv<T>(q.def[i]); p = bp.addArrayParameter(q.name, a, perm); }
  else if (q.def.size() == 1) p = bp.addArrayParameter(q.name, a, conv<T>(q.def[0]), perm);
  else { Array<T, R> d; for (size_t i = 0; i < R; ++i) d[i] = conv<T>(q.def[i]); p = bp.addArrayParameter(q.name, a, d, perm); }
  for (size_t i = 0; i < R; ++i) b->refs.push_back({q.name + std::string("xyz")[i], q.ty, &a[i], p[i]});
}

template<int N> class GBlock;
template<int N> std::string kidNames(Base *b);

template<int N> class GBlock : public ChildBlock<GBlock<N>>, public BlockContainer<GBlock<0>>, public BlockContainer<GBlock<1>>,
                               public BlockContainer<GBlock<2>>, public BlockContainer<GBlock<3>>, public Base {
  public:
    GBlock() { made.push_back(this); }
    Block *block() override { return this; }
    std::string cls() override { return classes[N].name; }
    BlockList childList() override { return this->getChildren(); }
    template<int M> std::string kidsOf() {
      std::vector<std::string> n;
      for (auto &c : this->BlockContainer<GBlock<M>>::childBlocks()) n.push_back(c->getName());
      Obj o; o.str("cls", classes[M].name).put("names", strs(n)).num("num", this->BlockContainer<GBlock<M>>::numChildren());
      return o.done();
    }
    std::string kids() override {
      std::vector<std::string> v;
      if (classes.size() > 0) v.push_back(this->template kidsOf<0>());
      if (classes.size() > 1) v.push_back(this->template kidsOf<1>());
      if (classes.size() > 2) v.push_back(this->template kidsOf<2>());
      if (classes.size() > 3) v.push_back(this->template kidsOf<3>());
      return raw(v);
    }
  protected:
    void initParameters(BlockParameters &bp) override {
      for (const Par &q : classes[N].pars) {
        if (q.rank == 0) {
          if (q.ty == "int") scalar<int>(this, bp, q, &Slot::i);
          else if (q.ty == "flt") scalar<double>(this, bp, q, &Slot::f);
          else scalar<std::string>(this, bp, q, &Slot::s);
        } else if (q.ty == "flt") {
          if (q.rank == 1) array<double, 1>(this, bp, q, f1); else if (q.rank == 2) array<double, 2>(this, bp, q, f2); else array<double, 3>(this, bp, q, f3);
        } else {
          if (q.rank == 1) array<int, 1>(this, bp, q, i1); else if (q.rank == 2) array<int, 2>(this, bp, q, i2); else array<int, 3>(this, bp, q, i3);
        }
      }
    }
    void registerData() override { phase("register", this); }
    void preInit() override { phase("preInit", this); ChildBlock<GBlock<N>>::preInit(); }
    void init() override { phase("init", this); }
    void postInit() override { phase("postInit", this); }
};

static void setClass(BlockClassDescriptor &d, int n) {
  if (n == 0) d.setClass<GBlock<0>>(); else if (n == 1) d.setClass<GBlock<1>>();
  else if (n == 2) d.setClass<GBlock<2>>(); else d.setClass<GBlock<3>>();
}

// the stored variables, block by block in order of appearance
static void storedBlocks(pBlockVariables v, int parent, std::vector<pBlockVariables> &all, std::vector<int> &par) {
  all.push_back(v); par.push_back(parent);
  int me = all.size();
  for (pBlockVariables c : v->getChildren()) storedBlocks(c, me, all, par);
}
static std::string stored(pBlockVariables root) {
  std::vector<pBlockVariables> all; std::vector<int> par;
  storedBlocks(root, 0, all, par);
  std::vector<std::string> out;
  for (size_t k = 0; k < all.size(); ++k) {
    std::vector<std::string> vs;
    for (auto &e : all[k]->getVariables()) {
      pVariable v = e.second;
      Obj o; o.str("name", e.first);
      o.str("ty", v->getType() == Variable::int_type ? "int" : v->getType() == Variable::float_type ? "flt" : "str");
      o.boolean("fixed", v->isConstant()).boolean("ro", v->isReadOnly()).boolean("init", v->isInitialised());
      o.put("v", val(v->getValue()));
      vs.push_back(o.done());
    }
    Obj o; o.str("name", all[k]->getBlockName()).str("cls", all[k]->getClassName()).num("parent", par[k]).put("vars", raw(vs));
    out.push_back(o.done());
  }
  return raw(out);
}
static void tree(pBlock b, int parent, std::vector<std::string> &out) {
  Base *g = dynamic_cast<Base*>(b.get());
  Obj o; o.str("name", b->getName()).str("cls", g->cls()).num("parent", parent);
  out.push_back(o.done());
  int me = out.size();
  for (pBlock c : g->childList()) tree(c, c->getParent() == b ? me : -1, out);
}

template<class Fn> std::string guarded(Fn fn, int *line = nullptr, std::string *file = nullptr, bool *msg = nullptr) {
  try { fn(); return "ok"; }
  catch (ParserError &e) { if (line) { *line = e.getLine(); *file = e.getFilename(); *msg = !e.message.empty(); } return "parser"; }
  catch (EvaluationException &) { return "eval"; }
  catch (VariableNotInitialisedException &) { return "uninit"; }
  catch (SchnekException &) { return "schnek"; }
  catch (std::exception &) { return "std"; }
}

struct Key { int b; std::string name; };
static Key key(In &in) { Key k; k.b = geti(in); k.name = gets(in); return k; }

static void scenario(In &in, Out &out) {
  classes.clear(); made.clear(); life.clear(); early = "[]"; calls = 0; tick = 0;
  int nc = geti(in);
  for (int c = 0; c < nc; ++c) {
    Cls k; k.name = gets(in); k.real = geti(in);
    int np = geti(in);
    for (int i = 0; i < np; ++i) {
      Par q; q.name = gets(in); q.ty = gets(in); q.kind = gets(in); q.rank = geti(in);
      int nd = geti(in); for (int j = 0; j < nd; ++j) q.def.push_back(gets(in));
      k.pars.push_back(q);
    }
    int nk = geti(in); for (int i = 0; i < nk; ++i) k.kids.push_back(gets(in));
    classes.push_back(k);
  }
  int restrict = geti(in), ctor = geti(in); std::string rname = gets(in), rcls = gets(in), file = gets(in), deck = getx(in);
  BlockClasses bc(restrict != 0);
  for (size_t c = 0; c < classes.size(); ++c) {
    if (c % 2) bc.registerBlock(classes[c].name);
    if (classes[c].real) setClass(bc(classes[c].name), c); else bc(classes[c].name);
    std::vector<std::string> &k = classes[c].kids;
    if (k.size() >= 2) { auto a = bc(classes[c].name).addChildren(k[0]); for (size_t i = 1; i < k.size(); ++i) a(k[i]); }
    else if (k.size() == 1) bc(classes[c].name).addChildren(k[0]);
  }
  std::unique_ptr<Parser> parser;
  if (ctor == 0) parser.reset(new Parser(rname, rcls, bc));
  else { VariableStorage vs(rname, rcls); FunctionRegistry fr; parser.reset(new Parser(vs, fr, bc)); }
  FunctionRegistry &fr = parser->getFunctionRegistry();
  registerAllFunctions(fr);
  fr.registerFunction("always", fAlways, true);
  fr.registerFunction("iota", fIota); fr.registerFunction("twice", fTwice); fr.registerFunction("join", fJoin);
  fr.registerFunction("count", fCount); fr.registerFunction("both", fBoth);

  pBlock app;
  pBlockVariables root = parser->getVariableStorage().getRootBlock();
  {
    int line = -1; std::string ef; bool msg = false;
    std::istringstream is(deck);
    std::string res = guarded([&]() { app = parser->parse(is, file); }, &line, &ef, &msg);
    Obj o; o.str("op", "parsed").str("res", res).num("line", line).str("file", ef).boolean("msg", msg);
    std::vector<std::string> t, n;
    if (res == "ok") { tree(app, 0, t); for (Base *b : made) n.push_back(b->block()->getName()); }
    o.put("tree", raw(t)).put("made", strs(n)).put("vars", res == "ok" ? stored(root) : "[]");
    out.event(o);
    if (res != "ok") return;
  }
  std::vector<pBlockVariables> all; std::vector<int> par;
  storedBlocks(root, 0, all, par);
  auto variable = [&](const Key &k) { return all.at(k.b - 1)->getVariables().at(k.name); };
  auto param = [&](const Key &k) -> Base::Ref & {
    for (Base *b : made) if (b->block()->getLocalVariables() == all.at(k.b - 1))
      for (Base::Ref &r : b->refs) if (r.name == k.name) return r;
    std::fprintf(stderr, "no parameter %d %s\n", k.b, k.name.c_str()); std::exit(3);
  };
  auto keys = [&]() { std::vector<Key> v; int n = geti(in); for (int i = 0; i < n; ++i) v.push_back(key(in)); return v; };
  auto keyText = [&](const std::vector<Key> &v) {
    std::vector<std::string> s; for (const Key &k : v) s.push_back("[" + std::to_string(k.b) + ",[" + esc(k.name) + "]]"); return raw(s); };
  pDependencyMap deps;
  std::vector<pDependencyUpdater> ups;
  std::vector<std::vector<Key>> inds;

  int nops = geti(in);
  for (int i = 0; i < nops; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "look") {
      int b = geti(in); std::string path = gets(in);
      std::vector<std::string> parts; std::istringstream ps(path); std::string part;
      while (std::getline(ps, part, ':')) parts.push_back(part);
      bool ex = all.at(b - 1)->exists(path);
      int fb = 0; std::string fn;
      try {
        pVariable v = all.at(b - 1)->getVariable(path);
        for (size_t k = 0; k < all.size(); ++k) for (auto &e : all[k]->getVariables()) if (e.second == v) { fb = k + 1; fn = e.first; }
      } catch (VariableNotFoundException &) {}
      o.num("b", b).put("p", strs(parts)).boolean("exists", ex).put("found", "[" + std::to_string(fb) + "," + esc(fn) + "]");
      out.event(o);
    } else if (op == "init") {
      int from = geti(in);
      life.clear(); early = "[]";
      std::string res = guarded([&]() { made.at((from - 1) % made.size())->block()->initAll(); });
      o = Obj(); o.str("op", "inited").str("res", res).put("life", raw(life)).put("early", early).put("params", allParams());
      std::vector<std::string> k; for (Base *b : made) k.push_back(b->kids());
      o.put("kids", raw(k));
      out.event(o);
      if (res != "ok") return;
      deps = pDependencyMap(new DependencyMap(made[0]->block()->getVariables()));
    } else if (op == "set") {
      Key k = key(in); std::string t = gets(in);
      Base::Ref &r = param(k);
      if (r.ty == "int") *(int*)r.at = conv<int>(t); else if (r.ty == "flt") *(double*)r.at = conv<double>(t); else *(std::string*)r.at = conv<std::string>(t);
      std::vector<Key> ks(1, k); std::string q = keyText(ks);
      o.put("q", q.substr(1, q.size() - 2));
      o.put("v", made[0]->value(r));
      out.event(o);
    } else if (op == "tick") { tick = geti(in); o.num("n", (int)tick); out.event(o); }
    else if (op == "updater") {
      std::vector<Key> ind = keys(), dep = keys();
      pDependencyUpdater u(new DependencyUpdater(deps));
      for (auto &k : ind) u->addIndependent(param(k).p);
      for (auto &k : dep) u->addDependent(param(k).p);
      ups.push_back(u);
      o.put("ind", keyText(ind)).put("dep", keyText(dep)); out.event(o);
    } else if (op == "depend") {
      int k = geti(in), clear = geti(in); std::vector<Key> ind = keys(), dep = keys();
      if (clear) ups.at(k - 1)->clearDependent();
      for (auto &q : dep) ups.at(k - 1)->addDependent(param(q).p);
      for (auto &q : ind) ups.at(k - 1)->addIndependent(param(q).p);
      o.num("k", k).boolean("clear", clear).put("ind", keyText(ind)).put("dep", keyText(dep)); out.event(o);
    } else if (op == "update") {
      int k = geti(in);
      calls = 0;
      std::string res = guarded([&]() { ups.at(k - 1)->update(); });
      o.num("k", k).str("res", res).num("calls", calls).put("params", allParams()).put("vars", stored(root)); out.event(o);
    } else if (op == "all") {
      int again = geti(in);
      std::string res = guarded([&]() { if (again) deps->recreate(); deps->updateAll(); });
      o.str("res", res).put("vars", stored(root)); out.event(o);
    } else if (op == "group") {
      std::vector<Key> g = keys(), ids = keys();
      ParametersGroup pg; std::set<long> s; bool odd = false;
      for (auto &k : g) { if (odd) pg.add(variable(k)); else pg.add(param(k).p); odd = !odd; }
      std::string isin = "[";
      for (size_t j = 0; j < ids.size(); ++j) {
        s.insert(variable(ids[j])->getId());
        isin += std::string(j ? "," : "") + ((j % 2 ? pg.isElement(variable(ids[j])) : pg.isElement(param(ids[j]).p)) ? "true" : "false");
      }
      bool within = pg.hasElements(s);
      std::vector<Key> rest; for (auto &k : ids) if (s.count(variable(k)->getId())) rest.push_back(k);
      o.put("g", keyText(g)).put("ids", keyText(ids)).put("isin", isin + "]").boolean("within", within).put("rest", keyText(rest)); out.event(o);
    } else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
  }
}
int main(int argc, char **argv) { return run(argc, argv, scenario); }
