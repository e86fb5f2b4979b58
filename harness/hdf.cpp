// Grids spread over processes, written to and read from HDF5 files. Runs under mpirun; process 0 writes the events.
// Values are recorded in quarters.
#include "diagnostic/hdfdiagnostic.hpp"
#include "grid.hpp"
#include "grid/field.hpp"
#include "parser/parser.hpp"
#include "variables/block.hpp"
#include "variables/blockclasses.hpp"
#include "common.hpp"
#include <mpi.h>
#include <unistd.h>
#include <cmath>
using namespace schnek;
using namespace vf;

static int me, np;
static int stepNow = 0;
static double timeNow = 0;
static std::string collect(const std::string &s) {
  int n = (int)s.size();
  std::vector<int> len(np), off(np);
  MPI_Gather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  int tot = 0;
  for (int i = 0; i < np; ++i) { off[i] = tot; tot += len[i]; }
  std::string all(me == 0 ? tot : 0, ' ');
  MPI_Gatherv(s.data(), n, MPI_CHAR, &all[0], len.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
  if (me != 0) return "";
  std::vector<std::string> parts;
  for (int i = 0; i < np; ++i) parts.push_back(all.substr(off[i], len[i]));
  return raw(parts);
}
static long long quarters(double v) {
  double r = v * 4;
  return r == std::floor(r) && std::fabs(r) < 1e8 ? (long long)r : 999999999LL;
}
static std::string path(const std::string &f) { return f + ".h5"; }

// attributes, with the values kept alive by the driver
struct Att { std::string name, ty; std::vector<double> v; };
static std::vector<std::shared_ptr<std::vector<int> > > keptI;
static std::vector<std::shared_ptr<std::vector<float> > > keptF;
static std::vector<std::shared_ptr<std::vector<double> > > keptD;
template<class T, class K> void give(HdfAttributes &a, const Att &t, K &kept, int form) {
  auto p = std::make_shared<std::vector<T> >(t.v.begin(), t.v.end());
  kept.push_back(p);
  if (form == 0) a.set(t.name, static_cast<const T*>(p->data()), t.v.size());
  else if (form == 1 || t.v.size() > 1) a.set(t.name, *static_cast<const T*>(p->data()), t.v.size());
  else a.set(t.name, T(t.v[0]));                            // a value that does not live on
}
static void give(HdfAttributes &a, const Att &t, int form) {
  if (t.ty == "int") give<int>(a, t, keptI, form);
  else if (t.ty == "float") give<float>(a, t, keptF, form);
  else give<double>(a, t, keptD, form);
}
static std::string describe(const Att &t) {
  std::vector<long long> q;
  for (double v : t.v) q.push_back(quarters(v));
  return Obj().str("name", t.name).str("ty", t.ty).put("v", seq(q)).done();
}

struct Any_ {
  virtual ~Any_() {}
  virtual void fill(unsigned seed) = 0;
  virtual std::string cells() = 0;
  virtual void write(HdfOStream &) = 0;
  virtual void read(HdfIStream &) = 0;
  virtual pBlock diagnostic(const std::string &text, bool timed) = 0;
  virtual void input(const std::string &text) = 0;
};
typedef std::shared_ptr<Any_> pAny;

// the grid a block under construction works on
template<class G> struct Current { static G *grid; static typename G::IndexType lo, hi; static bool attr; };
template<class G> G *Current<G>::grid = nullptr;
template<class G> typename G::IndexType Current<G>::lo;
template<class G> typename G::IndexType Current<G>::hi;
template<class G> bool Current<G>::attr = false;

template<class G, class Kind> struct Diag : public HDFGridDiagnostic<G, Kind> {
  typename G::IndexType lo, hi;
  G mine;
  Diag() : lo(Current<G>::lo), hi(Current<G>::hi), mine(*Current<G>::grid) {}
  void registerData() override { this->addData("theField", mine); }
  typename G::IndexType getGlobalMin() override { return lo; }
  typename G::IndexType getGlobalMax() override { return hi; }
  pHdfAttributes getAttributes() override {
    pHdfAttributes a = std::make_shared<HdfAttributes>();
    a->set("step", static_cast<const int*>(&stepNow));
    return a;
  }
};
template<class G> struct Reader : public HDFGridReader<G> {
  typename G::IndexType lo, hi;
  G mine;
  Reader() : lo(Current<G>::lo), hi(Current<G>::hi), mine(*Current<G>::grid) {}
  void registerData() override { this->addData("theField", mine); }
  typename G::IndexType getGlobalMin() override { return lo; }
  typename G::IndexType getGlobalMax() override { return hi; }
  void run() { this->execute(); }
};

template<class T, size_t rank, class G> void shape(G &g, const Array<int,rank> &mlo, const Array<int,rank> &mhi, const Array<int,rank> &, const Array<int,rank> &) { g.resize(mlo, mhi); }
template<class T, size_t rank, template<size_t> class C, template<typename, size_t> class S>
void shapeField(Field<T,rank,C,S> &f, const Array<int,rank> &mlo, const Array<int,rank> &llo, const Array<int,rank> &lhi) {
  Array<double,rank> a(0.0), b(1.0); Array<bool,rank> st;
  for (size_t d = 0; d < rank; ++d) st[d] = d % 2 == 0;
  f.resize(llo, lhi, Range<double,rank>(a, b), st, llo[0] - mlo[0]);
}

template<class T, size_t rank, class G, bool field, bool blocks> struct Item : public Any_ {
  typedef Array<int,rank> I;
  G g;
  I glo, ghi, llo, lhi, mlo, mhi;
  Item(In &in) {
    for (size_t d = 0; d < rank; ++d) glo[d] = geti(in);
    for (size_t d = 0; d < rank; ++d) ghi[d] = geti(in);
    for (int r = 0; r < np; ++r) {
      I a, b, c, e;
      for (size_t d = 0; d < rank; ++d) a[d] = geti(in);
      for (size_t d = 0; d < rank; ++d) b[d] = geti(in);
      for (size_t d = 0; d < rank; ++d) c[d] = geti(in);
      for (size_t d = 0; d < rank; ++d) e[d] = geti(in);
      if (r == me) { llo = a; lhi = b; mlo = c; mhi = e; }
    }
    make(g);
  }
  template<class X> void make(X &x) { makeIt(x, std::integral_constant<bool, field>()); }
  template<class X> void makeIt(X &x, std::true_type) { shapeField(x, mlo, llo, lhi); }
  template<class X> void makeIt(X &x, std::false_type) { x.resize(mlo, mhi); }
  GridContainer<G> box() {
    GridContainer<G> c;
    if (field) CopyToContainer<G>::copy(g, c);
    else { c.grid = g; c.local_min = llo; c.local_max = lhi; }
    c.global_min = glo; c.global_max = ghi;
    return c;
  }
  void fill(unsigned seed) override {
    unsigned x = seed * 2654435761u + (unsigned)me * 40503u + 99;
    walk<rank, I>(mlo, mhi, [&](const I &p) { x = x * 1664525u + 1013904223u; g[p] = T(T((int)((x >> 12) % 4001) - 2000) / T(std::is_same<T,int>::value ? 1 : 4)); });
  }
  std::string cells() override {
    std::vector<long long> v;
    walk<rank, I>(mlo, mhi, [&](const I &p) { v.push_back(quarters((double)g[p])); });
    return collect(seq(v));
  }
  void write(HdfOStream &o) override { GridContainer<G> c = box(); o.writeGrid(c); }
  void read(HdfIStream &i) override { GridContainer<G> c = box(); i.readGrid(c); }
  template<class B> std::shared_ptr<B> block(const std::string &text) {
    Current<G>::grid = &g; Current<G>::lo = glo; Current<G>::hi = ghi;
    BlockClasses bc(false);
    bc.registerBlock("root").setClass<B>();
    std::istringstream is(text);
    Parser P("run", "root", bc);
    pBlock b = P.parse(is, "setup");
    b->initAll();
    return std::dynamic_pointer_cast<B>(b);
  }
  pBlock diagnostic(const std::string &text, bool timed) override { return diag(text, timed, std::integral_constant<bool, blocks>()); }
  pBlock diag(const std::string &text, bool timed, std::true_type) {
    if (timed) return block<Diag<G, DeltaTimeDiagnostic> >(text);
    return block<Diag<G, IntervalDiagnostic> >(text);
  }
  pBlock diag(const std::string &, bool, std::false_type) { std::exit(3); }
  void input(const std::string &text) override { inp(text, std::integral_constant<bool, blocks>()); }
  void inp(const std::string &text, std::true_type) { block<Reader<G> >(text)->run(); }
  void inp(const std::string &, std::false_type) { std::exit(3); }
};

template<size_t rank> pAny makeRank(In &in, const std::string &kind, const std::string &ty) {
  if (kind == "c") {
    if (ty == "int") return pAny(new Item<int, rank, Grid<int,rank>, false, rank == 1>(in));
    if (ty == "float") return pAny(new Item<float, rank, Grid<float,rank>, false, false>(in));
    if (ty == "double") return pAny(new Item<double, rank, Grid<double,rank,GridAssertCheck>, false, rank == 2>(in));
  }
  if (kind == "f" && ty == "double") return pAny(new Item<double, rank, Grid<double,rank,GridNoArgCheck,SingleArrayGridStorageFortran>, false, rank == 2>(in));
  if (kind == "f" && ty == "int") return pAny(new Item<int, rank, Grid<int,rank,GridNoArgCheck,SingleArrayGridStorageFortran>, false, false>(in));
  if (kind == "field") {
    if (ty == "double") return pAny(new Item<double, rank, Field<double,rank>, true, rank <= 3>(in));
    if (ty == "float") return pAny(new Item<float, rank, Field<float,rank,GridAssertCheck>, true, false>(in));
  }
  std::exit(3);
}
static pAny makeGrid(In &in) {
  std::string kind = gets(in), ty = gets(in); int rank = geti(in);
  if (rank == 1) return makeRank<1>(in, kind, ty);
  if (rank == 2) return makeRank<2>(in, kind, ty);
  if (rank == 3) return makeRank<3>(in, kind, ty);
  if (kind == "c" && ty == "double") return pAny(new Item<double, 4, Grid<double,4>, false, false>(in));
  std::exit(3);
}

// ---- what is in a file, read with the serial HDF5 interface
static std::string tyName(hid_t t) {
  size_t z = H5Tget_size(t); H5T_class_t c = H5Tget_class(t);
  return c == H5T_INTEGER && z == 4 ? "int" : c == H5T_FLOAT && z == 4 ? "float" : c == H5T_FLOAT && z == 8 ? "double" : "other";
}
static herr_t oneAttr(hid_t loc, const char *name, const H5A_info_t *, void *p) {
  auto &out = *static_cast<std::vector<std::string>*>(p);
  hid_t a = H5Aopen(loc, name, H5P_DEFAULT), sp = H5Aget_space(a), t = H5Aget_type(a);
  std::vector<double> v(H5Sget_simple_extent_npoints(sp));
  std::vector<long long> q;
  if (v.empty() || H5Aread(a, H5T_NATIVE_DOUBLE, v.data()) < 0) q.push_back(-999999999LL);
  else for (double x : v) q.push_back(quarters(x));
  out.push_back(Obj().str("name", name).str("ty", tyName(t)).put("v", seq(q)).done());
  H5Tclose(t); H5Sclose(sp); H5Aclose(a);
  return 0;
}
static herr_t oneLink(hid_t loc, const char *name, const H5L_info_t *, void *p) {
  auto &out = *static_cast<std::vector<std::string>*>(p);
  hid_t d = H5Dopen2(loc, name, H5P_DEFAULT);
  if (d < 0) { out.push_back(Obj().str("name", name).str("ty", "none").put("dims", "[]").put("cells", "[]").put("attrs", "[]").done()); return 0; }
  hid_t sp = H5Dget_space(d), t = H5Dget_type(d);
  int r = H5Sget_simple_extent_ndims(sp);
  std::vector<hsize_t> dims(r);
  H5Sget_simple_extent_dims(sp, dims.data(), NULL);
  std::vector<double> v(H5Sget_simple_extent_npoints(sp));
  std::vector<long long> q;
  if (v.empty() || H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) q.push_back(-999999999LL);
  else for (double x : v) q.push_back(quarters(x));
  std::vector<std::string> at;
  hsize_t n = 0;
  H5Aiterate2(d, H5_INDEX_NAME, H5_ITER_INC, &n, oneAttr, &at);
  out.push_back(Obj().str("name", name).str("ty", tyName(t)).put("dims", seq(dims)).put("cells", seq(q)).put("attrs", raw(at)).done());
  H5Tclose(t); H5Sclose(sp); H5Dclose(d);
  return 0;
}
static void dump(Obj &o, const std::string &f) {
  bool there = access(path(f).c_str(), F_OK) == 0;
  std::vector<std::string> sets;
  if (there) {
    hid_t id = H5Fopen(path(f).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (id < 0) sets.push_back(Obj().str("name", "(unreadable)").str("ty", "none").put("dims", "[]").put("cells", "[]").put("attrs", "[]").done());
    else {
      hsize_t n = 0;
      H5Literate(id, H5_INDEX_NAME, H5_ITER_INC, &n, oneLink, &sets);
      H5Fclose(id);
    }
  }
  o.boolean("there", there).put("sets", raw(sets));
}

struct Out1 { pBlock b; int g = 0, append = 0, n = 0; bool timed = false; std::string f; };

static void scenario(In &in, Out &out) {
  keptI.clear(); keptF.clear(); keptD.clear();
  stepNow = 0; timeNow = 0;
  DiagnosticManager::instance().setTimeCounter(&stepNow);
  DiagnosticManager::instance().setPhysicalTime(&timeNow);
  DiagnosticManager::instance().setMaster(me == 0);
  DiagnosticManager::instance().setRank(me);
  int nf = geti(in);
  std::vector<std::string> files;
  for (int i = 0; i < nf; ++i) { files.push_back(gets(in)); if (me == 0) unlink(path(files.back()).c_str()); }
  int ng = geti(in);
  std::vector<pAny> gs;
  for (int i = 0; i < ng; ++i) gs.push_back(makeGrid(in));
  int no = geti(in), ni = geti(in);
  std::vector<std::unique_ptr<HdfOStream> > os(no);
  std::vector<std::unique_ptr<HdfIStream> > is(ni);
  std::vector<bool> ofresh(no, true), ifresh(ni, true);
  for (auto &s : os) s.reset(new HdfOStream);
  for (auto &s : is) s.reset(new HdfIStream);
  std::map<int, Out1> ds;
  MPI_Barrier(MPI_COMM_WORLD);
  int n = geti(in);
  for (int k = 0; k < n; ++k) {
    std::string op = gets(in);
    Obj o; o.str("op", op == "dout" ? "output" : op == "ddel" ? "outputs" : op);
    if (op == "fill") {
      int g = geti(in), seed = geti(in);
      gs[g - 1]->fill(seed);
      o.num("g", g).put("cells", gs[g - 1]->cells());
    } else if (op == "cells") { int g = geti(in); o.num("g", g).put("cells", gs[g - 1]->cells()); }
    else if (op == "oopen" || op == "iopen") {
      int s = geti(in); std::string f = gets(in); int ctor = geti(in);
      if (op == "oopen") { if (ctor) { os[s - 1].reset(); os[s - 1].reset(new HdfOStream(path(f).c_str())); } else os[s - 1]->open(path(f).c_str()); }
      else { if (ctor) { is[s - 1].reset(); is[s - 1].reset(new HdfIStream(path(f).c_str())); } else is[s - 1]->open(path(f).c_str()); }
      o.num("s", s).str("f", f).boolean("fresh", ctor);
    }
    else if (op == "oclose") { int s = geti(in); os[s - 1]->close(); o.num("s", s); }
    else if (op == "iclose") { int s = geti(in); is[s - 1]->close(); o.num("s", s); }
    else if (op == "oname" || op == "iname") {
      int s = geti(in); std::string b = gets(in);
      if (op == "oname") os[s - 1]->setBlockName(b); else is[s - 1]->setBlockName(b);
      o.num("s", s).str("b", b);
    }
    else if (op == "oactive" || op == "iactive") {
      int s = geti(in); bool mine = false; std::vector<int> who;
      for (int r = 0; r < np; ++r) { int a = geti(in); if (a) who.push_back(r + 1); if (r == me) mine = a; }
      if (op == "oactive") os[s - 1]->setActive(mine); else is[s - 1]->setActive(mine);
      o.num("s", s).put("who", seq(who));
    }
    else if (op == "oattr") {
      int s = geti(in), m = geti(in);
      pHdfAttributes a = std::make_shared<HdfAttributes>();
      std::map<std::string, std::string> last;
      for (int i = 0; i < m; ++i) {
        Att t; t.name = gets(in); t.ty = gets(in); int form = geti(in), z = geti(in);
        for (int j = 0; j < z; ++j) t.v.push_back(geti(in) / (t.ty == "int" ? 1.0 : 4.0));
        give(*a, t, form);
        last[t.name] = describe(t);                       // set again: the last one counts
      }
      std::vector<std::string> at;
      for (auto &p : last) at.push_back(p.second);
      os[s - 1]->setAttributes(a);
      o.num("s", s).put("attrs", raw(at));
    }
    else if (op == "ocopy") {
      int s = geti(in), t = geti(in), ctor = geti(in);
      if (ctor) os[t - 1].reset(new HdfOStream(*os[s - 1])); else *os[t - 1] = *os[s - 1];
      o.num("s", s).num("t", t);
    }
    else if (op == "icopy") {
      int s = geti(in), t = geti(in), ctor = geti(in);
      if (ctor) is[t - 1].reset(new HdfIStream(*is[s - 1])); else *is[t - 1] = *is[s - 1];
      o.num("s", s).num("t", t);
    }
    else if (op == "owrite") { int s = geti(in), g = geti(in); gs[g - 1]->write(*os[s - 1]); o.num("s", s).num("g", g); }
    else if (op == "iread") { int s = geti(in), g = geti(in); gs[g - 1]->read(*is[s - 1]); o.num("s", s).num("g", g).put("cells", gs[g - 1]->cells()); }
    else if (op == "good") {
      std::string a = "[", b = "[";
      for (auto &s : os) { if (a.size() > 1) a += ","; a += s->good() ? "true" : "false"; }
      for (auto &s : is) { if (b.size() > 1) b += ","; b += s->good() ? "true" : "false"; }
      o.put("o", collect(a + "]")).put("i", collect(b + "]"));
    }
    else if (op == "dump") { std::string f = gets(in); o.str("f", f); MPI_Barrier(MPI_COMM_WORLD); if (me == 0) dump(o, f); MPI_Barrier(MPI_COMM_WORLD); }
    else if (op == "dnew") {          // a diagnostic of grid g; it reports through dout
      int s = geti(in); Out1 d; d.g = geti(in); d.append = geti(in); d.timed = geti(in); d.f = gets(in);
      std::string text = "file = \"" + (d.append ? path(d.f) : path(d.f + "#t")) + "\";\nfield = \"theField\";\nappend = " + std::to_string(d.append) + ";\n";
      if (d.timed) text += "deltaTime = 1.0;\ndelay = " + std::to_string(timeNow) + ";\n"; else text += "interval = 1;\n";
      d.b = gs[d.g - 1]->diagnostic(text, d.timed);
      ds[s] = d;
      continue;
    }
    else if (op == "dout") {          // one more step: the only diagnostic there is writes
      int s = geti(in); Out1 &d = ds[s];
      ++stepNow; timeNow += 1;
      DiagnosticManager::instance().execute();
      Att t; t.name = "step"; t.ty = "int"; t.v.push_back(stepNow);
      o.num("s", s).num("g", d.g).boolean("append", d.append).num("n", d.n).put("attrs", "[" + describe(t) + "]");
      o.str("f", d.append ? d.f : d.f + std::to_string(d.timed ? d.n : stepNow));
      ++d.n;
    }
    else if (op == "ddel") { int s = geti(in); ds.erase(s); o.num("s", s); }
    else if (op == "input") {
      int s = geti(in), g = geti(in); std::string f = gets(in);
      gs[g - 1]->input("file = \"" + path(f) + "\";\nfield = \"theField\";\n");
      o.num("s", s).num("g", g).str("f", f).put("cells", gs[g - 1]->cells());
    }
    else { std::fprintf(stderr, "bad op %s\n", op.c_str()); std::exit(3); }
    out.event(o);
  }
  ds.clear(); os.clear(); is.clear();
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0) for (auto &f : files) unlink(path(f).c_str());
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  int rc = run(argc, argv, scenario, me == 0);
  MPI_Finalize();
  return rc;
}
