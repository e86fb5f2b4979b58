// Runs the diagnostic manager with diagnostics made from setup text; records the files after every call.
#include "diagnostic/diagnostic.hpp"
#include "parser/parser.hpp"
#include "variables/block.hpp"
#include "variables/blockclasses.hpp"
#include "common.hpp"
#include <algorithm>
#include <dirent.h>
#include <sys/wait.h>
#include <unistd.h>
struct Stamp { int s, t; };
static std::ostream &operator<<(std::ostream &o, const Stamp &x) { return o << x.s << " " << x.t << "\n"; }
using namespace schnek;
using namespace vf;
static int step = 0;
static double physTime = 0;
static Stamp stamp;
static const double unit = 0.125;

struct Root : public Block {
  void registerData() override { addData("stamp", stamp); }
};
// a diagnostic within a block that has the data, or on its own with data of its own
template<class Kind, bool single> struct Diag : public SimpleFileDiagnostic<Stamp, Stamp*, Kind> {
  Diag() { this->setSingleOut(single); }
  void registerData() override { if (!this->getParent()) this->addData("stamp", stamp); }
};
typedef Diag<IntervalDiagnostic, false> StepDiag;
typedef Diag<DeltaTimeDiagnostic, false> TimeDiag;
typedef Diag<IntervalDiagnostic, true> StepMaster;
typedef Diag<DeltaTimeDiagnostic, true> TimeMaster;

// The files, as {pre, n: [number] or [], out: [{s, t}...]}
static std::string files() {
  std::vector<std::string> names, r;
  DIR *d = opendir(".");
  while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
  closedir(d);
  std::sort(names.begin(), names.end());
  for (auto &n : names) {
    size_t u = n.find('_');
    std::string pre = n.substr(0, u), num = u == std::string::npos ? "" : n.substr(u + 1);
    std::vector<std::string> out;
    std::ifstream f(n.c_str()); std::string line;
    while (std::getline(f, line)) {
      std::istringstream ls(line); int s, t; std::string rest;
      if (!(ls >> s >> t) || (ls >> rest)) { s = t = -77; }
      out.push_back(Obj().num("s", s).num("t", t).done());
    }
    Obj o; o.str("pre", pre);
    bool number = !num.empty() && num.find_first_not_of("0123456789") == std::string::npos;
    if (num.empty()) o.put("n", "[]");
    else if (num == "final") o.put("n", "[-1]");
    else if (number && (num.size() < 10 || (num.size() == 10 && num <= "2147483647"))) o.put("n", "[" + num + "]");
    else { o.put("n", "[-77]"); }
    o.put("out", raw(out));
    r.push_back(o.done());
  }
  return raw(r);
}
static void child(In &in, Out &out) {
  std::vector<pBlock> roots;
  std::vector<pBlock> diags;
  int n = geti(in), made = 0;
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "new") {
      std::string kind = gets(in); int per = geti(in), delay = geti(in), append = geti(in), single = geti(in), num = geti(in), deflt = geti(in), nested = geti(in);
      ++made;
      std::string pre = (kind == "step" ? "s" : "t") + std::to_string(made);
      std::ostringstream text; text.precision(17);
      std::string cls = kind == "step" ? (single ? "StepMaster" : "StepDiag") : (single ? "TimeMaster" : "TimeDiag");
      if (nested) text << cls << " d {\n";
      text << "  file = \"" << pre << (num && !append ? "_#t" : "") << "\";\n  field = \"stamp\";\n";
      if (append || !deflt) text << "  append = " << append << ";\n";
      if (kind == "step") { if (!deflt) text << "  interval = " << per << ";\n"; else per = 100; }
      else {
        if (!deflt) text << "  deltaTime = " << per * unit << ";\n"; else per = 8;
        if (delay) text << "  delay = " << delay * unit << ";\n";
      }
      if (nested) text << "}\n";
      BlockClasses bc(false);
      if (nested) bc.registerBlock("root").setClass<Root>();
      else if (kind == "step" && !single) bc.registerBlock("root").setClass<StepDiag>();
      else if (kind == "step") bc.registerBlock("root").setClass<StepMaster>();
      else if (!single) bc.registerBlock("root").setClass<TimeDiag>();
      else bc.registerBlock("root").setClass<TimeMaster>();
      bc.registerBlock("StepDiag").setClass<StepDiag>(); bc.registerBlock("TimeDiag").setClass<TimeDiag>();
      bc.registerBlock("StepMaster").setClass<StepMaster>(); bc.registerBlock("TimeMaster").setClass<TimeMaster>();
      std::istringstream is(text.str());
      Parser P("run", "root", bc);
      registerCMath(P.getFunctionRegistry());
      pBlock app = P.parse(is, "setup");
      app->initAll();
      roots.push_back(app);
      o.str("kind", kind).num("per", per).num("delay", kind == "time" ? delay : 0).boolean("append", append).boolean("single", single);
      o.put("name", Obj().str("pre", pre).boolean("num", num && !append).done());
    } else if (op == "del") {
      int k = geti(in);
      roots[k - 1].reset();
      o.num("i", k).put("files", files());
    } else if (op == "clock") {
      std::string w = gets(in);
      if (w == "step") DiagnosticManager::instance().setTimeCounter(&step); else DiagnosticManager::instance().setPhysicalTime(&physTime);
      o.str("which", w);
    } else if (op == "role") {
      int m = geti(in), r = geti(in);
      DiagnosticManager::instance().setMaster(m); DiagnosticManager::instance().setRank(r);
      o.boolean("master", m);
    } else if (op == "tick") {
      step = geti(in); int t = geti(in); physTime = t * unit; stamp.s = step; stamp.t = t;
      o.num("s", step).num("t", t);
    } else if (op == "exec") {
      std::string res = "ok";
      try { DiagnosticManager::instance().execute(); } catch (VariableNotInitialisedException &) { res = "error"; }
      o.str("res", res).put("files", files());
    } else {
      int dt = geti(in); std::string res = "ok"; double x = 0;
      try { x = DiagnosticManager::instance().adjustDeltaT(dt * unit); } catch (VariableNotInitialisedException &) { res = "error"; }
      x /= unit;
      o.num("dt", dt).str("res", res).num("x", x == (double)(int)x ? (int)x : -77);
    }
    out.event(o);
  }
}
static void scenario(In &in, Out &out) {
  std::fflush(0);
  char tmpl[] = "/tmp/vfdiag.XXXXXX";
  if (!mkdtemp(tmpl)) std::exit(3);
  pid_t p = fork();
  if (p == 0) {
    if (chdir(tmpl)) _exit(3);
    child(in, out);
    std::fflush(0); _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (DIR *d = opendir(tmpl)) {
    while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((std::string(tmpl) + "/" + e->d_name).c_str());
    closedir(d);
  }
  rmdir(tmpl);
  if (st != 0) std::abort();
}
int main(int argc, char **argv) { return run(argc, argv, scenario); }
