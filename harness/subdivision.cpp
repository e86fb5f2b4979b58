// Domain subdivision: init, exchange, accumulate, exchangeData, reductions. Runs under mpirun; rank 0 writes.
#include "common.hpp"
#include <util/factor.hpp>
#include "grid.hpp"
#include "grid/domainsubdivision.hpp"
#include "grid/mpisubdivision.hpp"
#include "util/databuffer.hpp"
#include <mpi.h>
#include <unistd.h>
#include <list>
#include <cmath>
using namespace schnek;
using namespace vf;

static int me, np;
static unsigned jitterState;
static void jitter() {   // desynchronise the processes
  jitterState = jitterState * 1103515245u + 12345u + (unsigned)me * 7919u;
  if ((jitterState >> 16) % 3 == 0) usleep((jitterState >> 20) % 300);
}
// collect one string per process on process 0
static std::string collect(const std::string &s) {
  int n = (int)s.size();
  std::vector<int> len(np), off(np);
  MPI_Gather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  int tot = 0;
  for (int i = 0; i < np; ++i) { off[i] = tot; tot += len[i]; }
  std::string all(me == 0 ? tot : 0, ' ');
  MPI_Gatherv(s.data(), n, MPI_CHAR, &all[0], len.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
  if (me != 0) return "";
  std::vector<std::string> parts;
  for (int i = 0; i < np; ++i) parts.push_back(all.substr(off[i], len[i]));
  return raw(parts);
}
static std::string exactInt(double v) {
  double r = std::floor(v + 0.5);
  return std::to_string(r == v && std::fabs(v) < 1e9 ? (long long)r : 999999999LL);
}

template<size_t rank, class G> void makeGrid(G &, const Array<int,rank> &, const Array<int,rank> &, int);
template<size_t rank> struct Maker {
  template<typename T, template<size_t> class C, template<typename, size_t> class S>
  static void make(Grid<T,rank,C,S> &g, const Array<int,rank> &lo, const Array<int,rank> &hi, int) { g.resize(lo, hi); }
  template<typename T, template<size_t> class C, template<typename, size_t> class S>
  static void make(Field<T,rank,C,S> &f, const Array<int,rank> &lo, const Array<int,rank> &hi, int delta) {
    Array<double,rank> a(0.0), b(1.0); Array<bool,rank> st;
    Array<int,rank> l(lo), h(hi);
    for (size_t d = 0; d < rank; ++d) { st[d] = d % 2 == 0; l[d] += delta; h[d] -= delta; }
    f.resize(l, h, Range<double,rank>(a, b), st, delta);
  }
};

template<class T> T unpackv(const T &v) { return v; }
template<size_t rank, class G> std::string cellsOf(G &g, const Array<int,rank> &lo, const Array<int,rank> &hi) {
  std::string s = "["; bool first = true;
  walk<rank, Array<int,rank> >(lo, hi, [&](const Array<int,rank> &p) {
    if (!first) s += ","; first = false;
    s += exactInt((double)g[p]); });
  return s + "]";
}

struct Thing { int a; double b; short c; char d[3]; };

template<class Sub, class G, size_t rank> void scenario(In &in, Out &out, bool serial, long modulus) {
  typedef Array<int,rank> I;
  Sub *sub = nullptr;
  G *grid = nullptr;
  I lo, hi; int delta = 0, form = 0; Array<double,rank> plo, phi;
  auto doInit = [&](Sub &s) {
    I gl(lo), gh(hi);
    if (serial) for (size_t d = 0; d < rank; ++d) { gl[d] -= delta; gh[d] += delta; }   // serial limits include ghosts
    switch (form) {
      case 0: s.init(gl, gh, delta); break;
      case 1: s.init(Range<int,rank>(gl, gh), delta); break;
      case 2: { G g; Maker<rank>::make(g, gl, gh, 0); s.init(g, delta); break; }
      default: { I sz; for (size_t d = 0; d < rank; ++d) sz[d] = gh[d] + 1; s.init(sz, delta); }   // lower bound 0
    }
  };
  int n = geti(in);
  for (int k = 0; k < n; ++k) {
    std::string op = gets(in);
    jitter();
    Obj o; o.str("op", op);
    if (op == "init" || op == "again") {
      std::vector<int> pl(rank), dx(rank);
      if (op == "init") {
        for (size_t d = 0; d < rank; ++d) { lo[d] = geti(in); hi[d] = geti(in); }
        delta = geti(in); form = geti(in);
        for (size_t d = 0; d < rank; ++d) { pl[d] = geti(in); dx[d] = geti(in); plo[d] = pl[d]; phi[d] = pl[d] + dx[d] * (hi[d] - lo[d] + 1); }
        if (sub && geti(in)) doInit(*sub);             // initialise the same object again, or a new one
        else { if (!sub) geti(in); delete sub; sub = new Sub; doInit(*sub); }
        delete grid; grid = new G;
        Maker<rank>::make(*grid, I(sub->getLo()), I(sub->getHi()), delta);
      }
      Sub *s = sub;
      if (op == "again") { s = new Sub; doInit(*s); }
      auto dom = s->getDomain(); auto inn = s->getInnerDomain();
      Obj p;
      p.put("lo", seq(s->getLo(), rank)).put("hi", seq(s->getHi(), rank));
      p.put("ilo", seq(s->getInnerLo(), rank)).put("ihi", seq(s->getInnerHi(), rank));
      bool same = true;
      for (size_t d = 0; d < rank; ++d)
        same = same && dom.getLo()[d] == s->getLo()[d] && dom.getHi()[d] == s->getHi()[d] &&
               inn.getLo()[d] == s->getInnerLo()[d] && inn.getHi()[d] == s->getInnerHi()[d];
      
      p.put("glo", seq(s->getGlobalDomain().getLo(), rank)).put("ghi", seq(s->getGlobalDomain().getHi(), rank));
      std::vector<std::string> bl, bh, el, eh;
      Range<double,rank> ext = s->getInnerExtent(Range<double,rank>(plo, phi));
      bool zero = true;
      for (size_t d = 0; d < rank; ++d) zero = zero && plo[d] == 0;
      if (zero) ext = s->getInnerExtent(phi);
      for (size_t d = 0; d < rank; ++d) {
        bl.push_back(s->isBoundLo(d) ? "true" : "false"); bh.push_back(s->isBoundHi(d) ? "true" : "false");
        el.push_back(exactInt(ext.getLo()[d])); eh.push_back(exactInt(ext.getHi()[d]));
      }
      p.put("bl", raw(bl)).put("bh", raw(bh)).put("elo", raw(el)).put("ehi", raw(eh));
      p.num("uid", s->getUniqueId()).num("num", s->procnum()).num("cnt", s->procCount());
      p.boolean("master", s->master()).num("delta", same ? s->getDelta() : -99);
      if (s != sub) delete s;
      o.put("glo", seq(lo, rank)).put("ghi", seq(hi, rank)).num("delta", delta);
      o.put("plo", seq(pl)).put("dx", seq(dx));
      o.put("procs", collect(p.done()));
    } else if (op == "fill") {
      long seed = geti(in);
      walk<rank, I>(I(sub->getLo()), I(sub->getHi()), [&](const I &p) {
        long v = seed * 31 + 17 * me + 1; 
        for (size_t d = 0; d < rank; ++d) v = v * 67 + (p[d] + 40);
        v = (v % modulus + modulus) % modulus;
        (*grid)[p] = (typename G::value_type)v; });
      o.put("cells", collect(cellsOf<rank>(*grid, I(sub->getLo()), I(sub->getHi()))));
    } else if (op == "exchange" || op == "accumulate") {
      int d = geti(in);
      if (op == "exchange") { if (d) sub->exchange(*grid, d - 1); else sub->exchange(*grid); }
      else { if (d) sub->accumulate(*grid, d - 1); else sub->accumulate(*grid); }
      o.num("dim", d).put("cells", collect(cellsOf<rank>(*grid, I(sub->getLo()), I(sub->getHi()))));
    } else if (op == "data") {
      int d = geti(in), orient = geti(in), reuse = geti(in), maxlen = geti(in), seed = geti(in);
      typename Sub::BufferType bi, bo;
      if (reuse) bo.resize(Array<int,1>(reuse));
      unsigned x = seed * 2654435761u + me * 40503u + 1;
      auto rnd = [&]() { x = x * 1664525u + 1013904223u; return x >> 10; };
      int len = (rnd() % 4 == 0) ? 0 : (int)(rnd() % (maxlen + 1));
      bi.resize(Array<int,1>(len));
      std::vector<int> sent(len), got, after;
      for (int i = 0; i < len; ++i) { sent[i] = rnd() % 256; bi(i) = (unsigned char)sent[i]; }
      sub->exchangeData(d - 1, orient, bi, bo);
      int m = bo.getDims(0), b = bo.getLo()[0];
      for (int i = 0; i < m; ++i) got.push_back(bo(b + i));
      for (int i = 0; i < bi.getDims(0); ++i) after.push_back(bi(i));
      // the received data must survive reuse of the send buffer
      bi.resize(Array<int,1>(len + 1)); bi = (unsigned char)255;
      std::vector<int> got2;
      for (int i = 0; i < bo.getDims(0); ++i) got2.push_back(bo(bo.getLo()[0] + i));
      if (got2 != got) got.push_back(-1);
      o.num("dim", d).num("orient", orient).put("in", collect(seq(sent))).put("out", collect(seq(got))).put("after", collect(seq(after)));
    } else if (op == "things") {     // typed objects through a DataBuffer
      int d = geti(in), orient = geti(in), cont = geti(in), maxn = geti(in), seed = geti(in);
      unsigned x = seed * 2654435761u + me * 40503u + 1;
      auto rnd = [&]() { x = x * 1664525u + 1013904223u; return x >> 10; };
      int len = (rnd() % 4 == 0) ? 0 : (int)(rnd() % (maxn + 1));
      std::list<Thing> things; std::vector<int> sent, got, after;
      auto flat = [](std::vector<int> &v, const Thing &t) {
        v.push_back(t.a % 1000000007); double q = t.b * 4; v.push_back(q > -1e9 && q < 1e9 ? (int)q : -1); v.push_back(t.c % 1000000007); for (char c : t.d) v.push_back(c); };
      for (int i = 0; i < len; ++i) {
        Thing t; t.a = rnd() % 100000; t.b = (rnd() % 1000) / 4.0; t.c = rnd() % 1000; for (char &c : t.d) c = rnd() % 100;
        things.push_back(t); flat(sent, t);
      }
      DataBuffer<Thing> bi, bo;
      if (cont == 0) { std::vector<Thing*> c; for (Thing &t : things) c.push_back(&t); bi.makeBuffer(c); }
      else if (cont == 1) { std::list<Thing*> c; for (Thing &t : things) c.push_back(&t); bi.makeBuffer(c); }
      else { std::vector<std::list<Thing>::iterator> c; for (auto it = things.begin(); it != things.end(); ++it) c.push_back(it); bi.makeBuffer(c); }
      sub->exchangeData(d - 1, orient, bi.getBuffer(), bo.getBuffer());
      int post = rnd() % 3;
      for (DataBuffer<Thing>::iterator it = bo.begin(); it != bo.end(); ) {
        if (post == 0) { flat(got, *it++); }
        else if (post == 1) { DataBuffer<Thing>::iterator old = it, nx; nx = ++it; flat(got, *old); it = nx; }
        else { flat(got, *it.operator->()); it++; }
        if (got.size() > 6000) break; }
      for (DataBuffer<Thing>::iterator it = bi.begin(); it != bi.end(); ++it) { Thing t = *it; t.a = it->a; flat(after, t); if (after.size() > 6000) break; }
      o = Obj(); o.str("op", "data");
      o.num("dim", d).num("orient", orient).put("in", collect(seq(sent))).put("out", collect(seq(got))).put("after", collect(seq(after)));
    } else if (op == "factors") {    // how a number of processes is spread over the dimensions
      int number = geti(in); std::vector<int> f, w; for (size_t d = 0; d < rank; ++d) w.push_back(geti(in));
      equalFactors(number, rank, f, w);
      o.num("number", number).put("f", seq(f)).put("w", seq(w));
    } else if (op == "reduce") {
      std::string which = gets(in); int isInt = geti(in), seed = geti(in);
      unsigned x = seed * 2654435761u + me * 40503u + 99;
      x = x * 1664525u + 1013904223u;
      int v = seed % 3 == 0 ? (int)((x >> 5) % 400000001) - 200000000 : (int)((x >> 12) % 2001) - 1000;
      std::string res;
      if (isInt) {
        int r = which == "sum" ? sub->sumReduce(v) : which == "max" ? sub->maxReduce(v) : which == "min" ? sub->minReduce(v) : sub->avgReduce(v);
        res = std::to_string(r);
      } else {
        v = seed % 3 != 0 ? v * 840 : which == "avg" ? v / 2000 * 840 : v / 2;      // averages are exact for up to eight processes; units of 1/128
        double w = v / 128.0, r = which == "sum" ? sub->sumReduce(w) : which == "max" ? sub->maxReduce(w) : which == "min" ? sub->minReduce(w) : sub->avgReduce(w);
        res = exactInt(r * 128);
      }
      o.str("which", which).boolean("int", isInt).put("vals", collect(std::to_string(v))).put("res", collect(res));
    } else { std::fprintf(stderr, "bad op %s\n", op.c_str()); std::exit(3); }
    out.event(o);
  }
  delete grid; delete sub;
}

template<class G, size_t rank> void kind(In &in, Out &out, const std::string &k, long m) {
  if (k == "serial") scenario<SerialSubdivision<G>, G, rank>(in, out, true, m);
  else scenario<MPICartSubdivision<G>, G, rank>(in, out, false, m);
}
template<size_t rank> void types(In &in, Out &out, const std::string &k, const std::string &t) {
  if (t == "int") kind<Grid<int,rank,GridAssertCheck>, rank>(in, out, k, 10007);
  else if (t == "fdouble") kind<Grid<double,rank,GridNoArgCheck,SingleArrayGridStorageFortran>, rank>(in, out, k, 10007);
  else if (t == "field") kind<Field<double,rank,GridAssertCheck>, rank>(in, out, k, 10007);
  else std::exit(3);
}
static void small(In &in, Out &out, const std::string &k, const std::string &t) {
  if (t == "short") kind<Grid<short,1>, 1>(in, out, k, 4001);
  else if (t == "long") kind<Grid<long,1>, 1>(in, out, k, 10007);
  else if (t == "float") kind<Grid<float,1>, 1>(in, out, k, 4001);
  else if (t == "uchar") kind<Grid<unsigned char,1>, 1>(in, out, k, 31);
  else if (t == "schar") kind<Grid<signed char,1>, 1>(in, out, k, 15);
  else if (t == "uint") kind<Grid<unsigned int,1>, 1>(in, out, k, 10007);
  else if (t == "ushort") kind<Grid<unsigned short,1>, 1>(in, out, k, 4001);
  else if (t == "ulong") kind<Grid<unsigned long,1>, 1>(in, out, k, 10007);
  else if (t == "ldouble") kind<Grid<long double,1>, 1>(in, out, k, 10007);
  else types<1>(in, out, k, t);
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
  jitterState = 77 + me;
  int rc = run(argc, argv, [](In &in, Out &out) {
    int rank = geti(in); std::string k = gets(in), t = gets(in);
    if (rank == 1) small(in, out, k, t);
    else if (rank == 2) types<2>(in, out, k, t);
    else if (rank == 3) types<3>(in, out, k, t);
    else std::exit(3);
  }, me == 0);
  MPI_Finalize();
  return rc;
}
