// Block trees put together by a program (no setup file): their phases, call by call.
#include "common.hpp"
#include "variables/block.hpp"
#include "variables/blockcontainer.hpp"
#include "variables/variables.hpp"
using namespace schnek;
using namespace vf;

static Out *sink;
static void call(const char *ph, int b) { Obj o; o.str("op", "call").str("ph", ph).num("b", b); sink->event(o); }

struct Node : public ChildBlock<Node>, public BlockContainer<Node> {
  int id, value = -1;
  Node(int id_, pBlock p) : ChildBlock<Node>(p), id(id_) {}
  std::vector<long> reported() { std::vector<long> v; for (std::shared_ptr<Node> n : childBlocks()) v.push_back(n->id); if (v.size() != numChildren()) v.push_back(-99); return v; }
  std::vector<long> kids() { std::vector<long> v; for (pBlock b : getChildren()) v.push_back(std::dynamic_pointer_cast<Node>(b)->id); return v; }
  void initParameters(BlockParameters &bp) override { call("setup", id); bp.addParameter("value", &value, id); }
  void registerData() override { call("register", id); }
  void preInit() override { call("preinit", id); ChildBlock<Node>::preInit(); }
  void init() override { call("init", id); }
  void postInit() override { call("postinit", id); }
};
typedef std::shared_ptr<Node> pNode;

int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    sink = &out;
    std::vector<pNode> bs; std::vector<pBlockVariables> cs; std::vector<int> par;
    int style = geti(in);
    BlockTree tree; int last = 0;
    for (int n = geti(in); n > 0; --n) {
      std::string op = gets(in); Obj o; o.str("op", op);
      if (op == "add") {
        int p = geti(in), named = geti(in), id = bs.size() + 1;
        pNode b;
        if (style == 0) { b = pNode(new Node(id, p ? pBlock(bs[p - 1]) : pBlock())); if (p) bs[p - 1]->Block::addChild(b); }
        else {
          b = pNode(new Node(id, pBlock()));
          while (last != p) { tree.moveUp(); last = par[last - 1]; }
          tree.addChild(b); last = id;
        }
        std::string name = named ? "b" + std::to_string(id) : "";
        b->setName(name);
        cs.push_back(pBlockVariables(new BlockVariables(name, "Node", p ? cs[p - 1] : pBlockVariables())));
        if (p) cs[p - 1]->addChild(cs.back());
        b->setContext(cs.back());
        bs.push_back(b); par.push_back(p);
        out.event(o.num("p", p));
      } else if (op == "look") {
        std::vector<long> v, ps; std::vector<std::string> l, k;
        for (pNode b : bs) {
          v.push_back(b->value); l.push_back(seq(b->reported())); k.push_back(seq(b->kids()));
          pBlock p = b->getParent(); ps.push_back(p ? std::dynamic_pointer_cast<Node>(p)->id : 0);
        }
        out.event(o.put("vals", seq(v)).put("lists", raw(l)).put("kids", raw(k)).put("parents", seq(ps)));
      } else {
        int b = geti(in);
        out.event(o.num("b", b));
        if (op == "setup") bs[b - 1]->setup(); else if (op == "evaluate") bs[b - 1]->evaluateParameters(); else if (op == "initall") bs[b - 1]->initAll(); else std::exit(3);
      }
    }
  });
}
