// Literature references and the manager. The manager is a singleton: every scenario runs in a process of its own.
#include "common.hpp"
#include "tools/literature.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
using namespace schnek;
using namespace vf;
typedef LiteratureReference Ref;
typedef std::vector<std::string> A;

static const std::map<std::string, Ref::PublicationType> types = {
  {"article", Ref::article},
  {"book", Ref::book},
  {"booklet", Ref::booklet},
  {"inbook", Ref::inbook},
  {"incollection", Ref::incollection},
  {"inproceedings", Ref::inproceedings},
  {"manual", Ref::manual},
  {"mastersthesis", Ref::mastersthesis},
  {"misc", Ref::misc},
  {"phdthesis", Ref::phdthesis},
  {"proceedings", Ref::proceedings},
  {"techreport", Ref::techreport},
  {"unpublished", Ref::unpublished}
};
struct Access { std::string (Ref::*get)() const; void (Ref::*set)(std::string); };
static const std::map<std::string, Access> fields = {
  {"address", {&Ref::getAddress, &Ref::setAddress}},
  {"annote", {&Ref::getAnnote, &Ref::setAnnote}},
  {"author", {&Ref::getAuthor, &Ref::setAuthor}},
  {"booktitle", {&Ref::getBooktitle, &Ref::setBooktitle}},
  {"chapter", {&Ref::getChapter, &Ref::setChapter}},
  {"crossref", {&Ref::getCrossref, &Ref::setCrossref}},
  {"edition", {&Ref::getEdition, &Ref::setEdition}},
  {"editor", {&Ref::getEditor, &Ref::setEditor}},
  {"eprint", {&Ref::getEprint, &Ref::setEprint}},
  {"howpublished", {&Ref::getHowpublished, &Ref::setHowpublished}},
  {"institution", {&Ref::getInstitution, &Ref::setInstitution}},
  {"journal", {&Ref::getJournal, &Ref::setJournal}},
  {"key", {&Ref::getKey, &Ref::setKey}},
  {"month", {&Ref::getMonth, &Ref::setMonth}},
  {"note", {&Ref::getNote, &Ref::setNote}},
  {"number", {&Ref::getNumber, &Ref::setNumber}},
  {"organization", {&Ref::getOrganization, &Ref::setOrganization}},
  {"pages", {&Ref::getPages, &Ref::setPages}},
  {"publisher", {&Ref::getPublisher, &Ref::setPublisher}},
  {"school", {&Ref::getSchool, &Ref::setSchool}},
  {"series", {&Ref::getSeries, &Ref::setSeries}},
  {"title", {&Ref::getTitle, &Ref::setTitle}},
  {"type", {&Ref::getType, &Ref::setType}},
  {"url", {&Ref::getUrl, &Ref::setUrl}},
  {"doi", {&Ref::getDoi, &Ref::setDoi}},
  {"volume", {&Ref::getVolume, &Ref::setVolume}},
  {"year", {&Ref::getYear, &Ref::setYear}}
};
static Ref *make(const std::string &t, const std::string &k, const A &a) {
  if (t == "article") switch (a.size()) {
    case 4: return new LiteratureArticle(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureArticle(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureArticle(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureArticle(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureArticle(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureArticle(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return new LiteratureArticle(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
  }
  if (t == "book") switch (a.size()) {
    case 5: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 11: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]);
    case 12: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    case 13: return new LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
  }
  if (t == "booklet") switch (a.size()) {
    case 1: return new LiteratureBooklet(k, a[0]);
    case 2: return new LiteratureBooklet(k, a[0], a[1]);
    case 3: return new LiteratureBooklet(k, a[0], a[1], a[2]);
    case 4: return new LiteratureBooklet(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureBooklet(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureBooklet(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureBooklet(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureBooklet(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  }
  if (t == "inbook") switch (a.size()) {
    case 7: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 11: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]);
    case 12: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    case 13: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    case 14: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]);
    case 15: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14]);
    case 16: return new LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
  }
  if (t == "incollection") switch (a.size()) {
    case 5: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 11: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]);
    case 12: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    case 13: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    case 14: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]);
    case 15: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14]);
    case 16: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
    case 17: return new LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16]);
  }
  if (t == "inproceedings") switch (a.size()) {
    case 4: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 11: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]);
    case 12: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    case 13: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    case 14: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]);
    case 15: return new LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14]);
  }
  if (t == "manual") switch (a.size()) {
    case 1: return new LiteratureManual(k, a[0]);
    case 2: return new LiteratureManual(k, a[0], a[1]);
    case 3: return new LiteratureManual(k, a[0], a[1], a[2]);
    case 4: return new LiteratureManual(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureManual(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureManual(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureManual(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureManual(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureManual(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
  }
  if (t == "mastersthesis") switch (a.size()) {
    case 4: return new LiteratureMastersThesis(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureMastersThesis(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureMastersThesis(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureMastersThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureMastersThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureMastersThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
  }
  if (t == "misc") switch (a.size()) {
    case 2: return new LiteratureMisc(k, a[0], a[1]);
    case 3: return new LiteratureMisc(k, a[0], a[1], a[2]);
    case 4: return new LiteratureMisc(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureMisc(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureMisc(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureMisc(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
  }
  if (t == "phdthesis") switch (a.size()) {
    case 4: return new LiteraturePhdThesis(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteraturePhdThesis(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteraturePhdThesis(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteraturePhdThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteraturePhdThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteraturePhdThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
  }
  if (t == "proceedings") switch (a.size()) {
    case 2: return new LiteratureProceedings(k, a[0], a[1]);
    case 3: return new LiteratureProceedings(k, a[0], a[1], a[2]);
    case 4: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 11: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]);
    case 12: return new LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
  }
  if (t == "techreport") switch (a.size()) {
    case 4: return new LiteratureTechReport(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureTechReport(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureTechReport(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return new LiteratureTechReport(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return new LiteratureTechReport(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return new LiteratureTechReport(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return new LiteratureTechReport(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
  }
  if (t == "unpublished") switch (a.size()) {
    case 4: return new LiteratureUnpublished(k, a[0], a[1], a[2], a[3]);
    case 5: return new LiteratureUnpublished(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return new LiteratureUnpublished(k, a[0], a[1], a[2], a[3], a[4], a[5]);
  }
  std::exit(3);
}

static void scenario(In &in, Out &out) {
  std::map<int, std::unique_ptr<Ref>> refs;
  for (int n = geti(in); n > 0; --n) {
    std::string op = gets(in); Obj o; o.str("op", op);
    if (op == "make") {
      int r = geti(in); std::string t = gets(in), k = getx(in); A a(geti(in)); for (auto &x : a) x = getx(in);
      refs[r].reset(make(t, k, a));
      o.num("o", r).str("type", t).str("key", k).put("args", strs(a));
    } else if (op == "plain") {
      int r = geti(in); std::string t = gets(in), k = getx(in);
      refs[r].reset(new Ref(k)); refs[r]->setPublicationType(types.at(t));
      o.num("o", r).str("type", t).str("key", k);
    } else if (op == "retype") { int r = geti(in); std::string t = gets(in); refs[r]->setPublicationType(types.at(t)); o.num("o", r).str("type", t); }
    else if (op == "set") { int r = geti(in); std::string x = gets(in), v = getx(in); (refs[r].get()->*fields.at(x).set)(v); o.num("o", r).str("x", x).str("v", v); }
    else if (op == "copy") {
      int r = geti(in), s = geti(in), how = geti(in);
      if (how && refs[r]) *refs[r] = *refs[s]; else if (r != s) refs[r].reset(new Ref(*refs[s]));
      o.num("o", r).num("s", s);
    } else if (op == "get") {
      int r = geti(in); Obj v;
      for (auto &f : fields) v.str(f.first.c_str(), (refs[r].get()->*f.second.get)());
      o.num("o", r).put("v", v.done()).str("type", refs[r]->getPublicationTypeString()).str("key", refs[r]->getBibKey());
    } else if (op == "print") { int r = geti(in); std::ostringstream s; s << *refs[r]; o.num("o", r).str("text", s.str()); }
    else if (op == "add") { int r = geti(in); std::string d = getx(in); LiteratureManager::instance().addReference(d, *refs[r]); o.num("o", r).str("d", d); }
    else if (op == "title") { std::string v = getx(in); LiteratureManager::instance().setTitle(v); o.str("v", LiteratureManager::instance().getTitle()); o.str("given", v); }
    else if (op == "subtitle") { std::string v = getx(in); LiteratureManager::instance().setSubtitle(v); o.str("v", LiteratureManager::instance().getSubtitle()); o.str("given", v); }
    else if (op == "bibtex") { std::ostringstream s; LiteratureManager::instance().writeBibTex(s); o.str("text", s.str()); }
    else if (op == "information") { std::string f = getx(in); std::ostringstream s; LiteratureManager::instance().writeInformation(s, f); o.str("name", f).str("text", s.str()); }
    else std::exit(3);
    out.event(o);
  }
}

int main(int argc, char **argv) {
  return run(argc, argv, [](In &in, Out &out) {
    pid_t p = fork();
    if (p == 0) { scenario(in, out); _exit(0); }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) std::raise(WTERMSIG(st));
    if (WEXITSTATUS(st)) std::_Exit(WEXITSTATUS(st));
  });
}
