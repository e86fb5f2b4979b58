// Runs the scanner of setup files over given texts and records the tokens.
#include "parser/deckscanner.hpp"
#include "parser/parsertoken.hpp"
#include "common.hpp"
#include <sstream>
using namespace schnek;
using namespace vf;

static std::string codes(const std::string &s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((int)(unsigned char)s[i]); return r + "]"; }
static const char *kind(int t) {
  switch (t) {
    case PLUS: return "+"; case MINUS: return "-"; case DIVIDE: return "/"; case TIMES: return "*"; case EXPONENT: return "^"; case SEMICOLON: return ";";
    case STRING: return "str"; case RBRACE: return "}"; case LBRACE: return "{"; case IDENTIFIER: case PATHIDENTIFIER: return "id"; case COMMA: return ",";
    case EQUAL: return "="; case LBRACKET: return "("; case RBRACKET: return ")"; case INTEGER: return "num"; case FLOAT: return "flt";
    case INT_DECL: return "int"; case FLOAT_DECL: return "float"; case STRING_DECL: return "string";
  }
  return "?";
}
// a stream that hands out its characters one by one or in pieces
struct Pieces : public std::streambuf {
  std::string s; size_t pos, step;
  Pieces(const std::string &s_, size_t n) : s(s_), pos(0), step(n) {}
  int underflow() override {
    if (pos >= s.size()) return traits_type::eof();
    size_t n = std::min(step, s.size() - pos);
    setg(&s[pos], &s[pos], &s[pos] + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
};
static void scenario(In &in, Out &out) {
  int n = geti(in);
  DeckScanner again("deck.txt");
  for (int i = 0; i < n; ++i) {
    int mode = geti(in); std::string text = getx(in);
    DeckScanner fresh("deck.txt");
    DeckScanner &sc = mode == 0 ? fresh : again;             // a scanner can be used for one text after the other
    std::string res = "ok"; int line = -1; bool file = true;
    std::istringstream is(text); Pieces pb(text, 7); std::istream ps(&pb);
    try { sc.scan(mode == 2 ? &ps : (std::istream*)&is); }
    catch (ParserError &e) { res = "parser"; line = e.getLine(); file = e.getFilename() == "deck.txt"; }
    catch (std::exception &e) { res = "other"; }
    std::vector<std::string> ts;
    if (res == "ok") for (const Token &t : sc.getTokens()) {
      Obj o; std::string k = kind(t.getToken());
      bool text = k == "str" || k == "id" || k == "num" || k == "flt";
      o.str("k", k).put("s", text ? codes(t.getString()) : "[]").num("line", t.getLine());
      if (t.getFilename() != "deck.txt") file = false;
      ts.push_back(o.done());
    }
    Obj o; o.str("op", "scan").put("cs", codes(text)).str("res", res).num("line", line).boolean("file", file).put("toks", raw(ts));
    out.event(o);
  }
}
int main(int argc, char **argv) { return run(argc, argv, scenario); }
