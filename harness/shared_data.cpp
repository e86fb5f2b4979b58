// Builds block trees, registers data in them and retrieves them by name.
#include "variables/block.hpp"
#include "variables/blockdata.hpp"
#include "grid/grid.hpp"
#include "common.hpp"
using namespace schnek;
using namespace vf;
typedef Grid<double, 1> G;
struct B : public Block { B(pBlock p = pBlock()) : Block(p) {} };

static std::string keyJson(const std::string &k) {
  std::vector<std::string> parts; std::istringstream s(k); std::string p;
  while (std::getline(s, p, '.')) parts.push_back(p);
  return strs(parts);
}
template<class Fn> std::string guarded(Fn fn) {
  try { fn(); return "ok"; }
  catch (VariableNotFoundException &) { return "none"; }
  catch (DuplicateVariableException &) { return "dup"; }
}
static void scenario(In &in, Out &out) {
  std::vector<pBlock> blocks;
  const int N = 12;
  // datum number i (1..N) of every type knows its number
  std::vector<int> ints(N + 1); std::vector<double> dbls(N + 1); std::vector<G> grids(N + 1);
  std::vector<int*> ptrs(N + 1);
  for (int i = 0; i <= N; ++i) { ints[i] = i; dbls[i] = i + 0.5; grids[i].resize(Array<int, 1>(0), Array<int, 1>(i)); grids[i] = double(i); }
  std::vector<int> target(N + 1, 0);
  int style = geti(in), n = geti(in);
  BlockTree tree; bool treeStarted = false; int last = 0;
  std::vector<int> parents;
  for (int i = 0; i < n; ++i) {
    std::string op = gets(in);
    Obj o; o.str("op", op);
    if (op == "block") {
      std::string name = gets(in); int parent = geti(in);
      pBlock b;
      if (style == 0) {                         // through constructors
        b = pBlock(new B(parent ? blocks[parent - 1] : pBlock()));
        if (parent) blocks[parent - 1]->addChild(b);
      } else {                                  // as the parser does, in order of appearance
        b = pBlock(new B());
        while (treeStarted && last != parent) { tree.moveUp(); last = parents[last - 1]; }
        tree.addChild(b); treeStarted = true; last = blocks.size() + 1;
      }
      b->setName(name);
      blocks.push_back(b); parents.push_back(parent);
      o.str("name", name).num("parent", parent);
    } else if (op == "add") {
      int b = geti(in); std::string key = gets(in), ty = gets(in); int x = geti(in);
      if (ty == "int") blocks[b - 1]->addData(key, ints[x]);
      else if (ty == "dbl") blocks[b - 1]->addData(key, dbls[x]);
      else if (ty == "grid") blocks[b - 1]->addData(key, grids[x]);
      else { ptrs[x] = &ints[x]; target[x] = x; blocks[b - 1]->addData(key, ptrs[x]); }
      o.num("b", b).put("key", keyJson(key)).str("ty", ty).num("x", x);
    } else {
      int b = geti(in); std::string key = gets(in), ty = gets(in), how = gets(in);
      int x = 0; std::string res;
      pBlock bl = blocks[b - 1];
      if (how == "value") {
        if (ty == "int") { int v = 0; res = guarded([&]() { bl->retrieveData(key, v); }); x = v; }
        else if (ty == "dbl") { double v = 0; res = guarded([&]() { bl->retrieveData(key, v); }); x = (int)v; }
        else { G v; res = guarded([&]() { bl->retrieveData(key, v); });
               if (res == "ok") { x = v.getHi()[0]; v(0) = 77; if (grids[x](0) != 77) x = -1; else v(0) = x; } }     // a copy of a grid shares its data
      } else {
        if (ty == "int") { int *v = 0; res = guarded([&]() { bl->retrieveData(key, v); }); for (int j = 0; j <= N; ++j) if (v == &ints[j]) x = j; }
        else if (ty == "dbl") { double *v = 0; res = guarded([&]() { bl->retrieveData(key, v); }); for (int j = 0; j <= N; ++j) if (v == &dbls[j]) x = j; }
        else { G *v = 0; res = guarded([&]() { bl->retrieveData(key, v); }); for (int j = 0; j <= N; ++j) if (v == &grids[j]) x = j; }
      }
      if (res != "ok") x = 0;
      o.num("b", b).put("key", keyJson(key)).str("ty", ty).str("how", how).str("res", res).num("x", x);
    }
    out.event(o);
  }
}
int main(int argc, char **argv) { return run(argc, argv, scenario); }
