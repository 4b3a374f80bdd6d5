// C20: the real main() of htmlext with every sequence of arguments out of a
// list, files and terminals that the harness provides, compared with what the
// arguments ask for.
#include "hsx.h"
#include "tree.h"
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <vector>
// files: name -> contents; a name that is not there cannot be opened
static std::vector<std::pair<std::string, std::string>>* g_files; static int g_reads;
static const std::string* fileOf(const std::string& n) { for (auto& f : *g_files) if (f.first == n) return &f.second; return nullptr; }
namespace std {
struct hsx_ifstream : istringstream {
  explicit hsx_ifstream(const string& path, ios_base::openmode = ios_base::in) { ++g_reads; if (const string* c = fileOf(path)) str(*c); else { setstate(ios_base::failbit); errno = ENOENT; } }
  bool is_open() const { return !fail(); }
};
}
static bool g_tty[3];
#define ifstream hsx_ifstream
#include "htmlext/File.cpp"
#undef ifstream
#define isatty hsx_isatty
static int hsx_isatty(int fd) { return fd >= 0 && fd < 3 && g_tty[fd]; }
#include "htmlext/ErrorOutput.cpp"
#include "htmlext/Json.cpp"
#include "htmlext/ProgramOptions.cpp"
#define main htmlext_main
#include "main.cpp"
#undef main
namespace htmlext { const int version_major = 1, version_minor = 0, version_patch = 0; void PrintVersion(std::ostream& out) { out << "version"; } }

// stand-ins for libgumbo: a document holds <x> with attribute c, whose tag text
// lies in the given buffer, and <a> with the same attribute
struct Parsed { GumboOutput out; hsx::Tree tree; };
static int g_documents;
extern "C" GumboOutput* gumbo_parse_with_options(const GumboOptions*, const char* b, size_t n) {
  auto* p = new Parsed; ++g_documents; auto& t = p->tree; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); p->out.document = t.doc(); p->out.root = html;
  auto* x = t.element(html, n >= 3 && b[0] == '<' && b[1] == 'x' && b[2] == '>' ? GUMBO_TAG_UNKNOWN : GUMBO_TAG_B);
  if (x->v.element.tag == GUMBO_TAG_UNKNOWN) { x->v.element.original_tag.data = b; x->v.element.original_tag.length = 3; }
#if MODE == 2
  std::string v; for (size_t i = 0; i < n; ++i) { v += (char)('a' + ((unsigned char)b[i] >> 4)); v += (char)('a' + (b[i] & 15)); } // every byte shows
#else
  std::string v; for (size_t i = 3; i < n && b[i] != '.'; ++i) v += b[i]; // the value ends at a dot; a cut text shows
#endif
  t.attr(x, "c", v); t.attr(t.element(html, GUMBO_TAG_A), "c", v); t.element(html, GUMBO_TAG_A);
  return &p->out;
}
extern "C" GumboOutput* gumbo_parse(const char* b) { return gumbo_parse_with_options(&kGumboDefaultOptions, b, strlen(b)); }
extern "C" void gumbo_destroy_output(const GumboOptions*, GumboOutput* g) { --g_documents; delete (Parsed*)g; }

namespace {
// what the arguments ask for
struct Want {
  std::vector<std::string> args, positional, hextFiles, hextTexts, htmlFiles, filter, budget; int compact = 0, pretty = 0, array = 0, lint = 0, help = 0, version = 0; bool wrong = false;
  void one(const std::string& a) { args.push_back(a); }
  void valued(const char* shortName, const char* longName, const std::string& v, int form) {
    if (form == 0) { one(shortName); one(v); } else if (form == 1) one(std::string(longName) + "=" + v); else if (form == 2) { one(longName); one(v); } else one(shortName + v);
  }
};
struct Ran { int code; std::string out, err; };
int g_form;
void item(Want& w, int k) {
  const int f = g_form;
  switch (k) {
    case 0: w.valued("-x", "--hext", "r1", f); w.hextFiles.push_back("r1"); break;
    case 1: { const std::string r = "<a c:x c:xx/>"; w.valued("-s", "--str", r, f); w.hextTexts.push_back(r); break; }
    case 2: w.one("r2"); w.positional.push_back("r2"); break;
    case 3: w.one("d1"); w.positional.push_back("d1"); break;
    case 4: w.valued("-i", "--html", "d2", f); w.htmlFiles.push_back("d2"); break;
    case 5: { const std::string v = std::string(1, (char)hsx::range("filter", 'w', 'y')); w.valued("-f", "--filter", v, f); w.filter.push_back(v); break; }
    case 6: { const std::string v = std::string(1, (char)hsx::range("budget", '0', '9')); w.valued("-m", "--max-searches", v, f); w.budget.push_back(v); break; }
    case 7: w.one(f & 1 ? "--lint" : "-l"); ++w.lint; break;
    case 8: w.one(f & 1 ? "--compact" : "-c"); ++w.compact; break;
    case 9: w.one(f & 1 ? "--pretty" : "-p"); ++w.pretty; break;
    case 10: w.one(f & 1 ? "--array" : "-a"); ++w.array; break;
    case 11: { static const char* const bad[] = {"bad", "nul", "gone"}; const char* b = bad[hsx::pick("hext file", 0, 2)]; w.valued("-x", "--hext", b, f); w.hextFiles.push_back(b); break; }
    case 12: w.valued("-s", "--str", "<a", f); w.hextTexts.push_back("<a"); break;
    case 13: w.valued("-i", "--html", "gone", f); w.htmlFiles.push_back("gone"); break;
    case 14: w.valued("-i", "--html", "-", f); w.htmlFiles.push_back("/dev/stdin"); break;
    case 15: w.one(f & 1 ? "--help" : "-h"); ++w.help; break;
    case 16: w.one(f & 1 ? "--version" : "-V"); ++w.version; break;
    case 17: w.one(f & 1 ? "--nonsense" : "-z"); w.wrong = true; break;
    case 18: { static const char* const big[] = {"4294967296", "18446744073709551615"}; const std::string v = big[hsx::pick("large budget", 0, 1)]; w.valued("-m", "--max-searches", v, f); w.budget.push_back(v); break; }
    default: w.valued("-m", "--max-searches", "x", f == 3 ? 0 : f); w.wrong = true; break;
  }
}
const int ITEMS = 20;
Ran run(const Want& w) {
  std::vector<const char*> argv{"htmlext"}; for (auto& a : w.args) argv.push_back(a.c_str()); const int argc = (int)argv.size(); argv.push_back(nullptr);
  std::stringbuf out, err; auto* o = std::cout.rdbuf(&out); auto* e = std::cerr.rdbuf(&err);
  Ran r; r.code = htmlext_main(argc, argv.data());
  std::cout.rdbuf(o); std::cerr.rdbuf(e); r.out = out.str(); r.err = err.str(); return r;
}
// the answer by the book; returns false when the run has to fail
bool answer(const Want& w, std::string& out, bool& free) {
  free = false;
  if (w.wrong || w.filter.size() > 1 || w.budget.size() > 1 || w.compact > 1 || w.pretty > 1 || w.array > 1 || w.lint > 1 || w.help > 1 || w.version > 1) return false;
  std::vector<std::string> hextFiles = w.hextFiles, htmlFiles = w.htmlFiles;
  if (w.help || w.version) { free = true; return true; }
  if (hextFiles.empty() && w.hextTexts.empty()) return false;
  if (!w.lint && htmlFiles.empty()) return false;
  std::vector<hext::Rule> rules;
  auto rule = [&](const std::string& t) { try { rules.push_back(hext::ParseHext(t.data(), t.size())); return true; } catch (const hext::SyntaxError&) { return false; } };
  for (auto& n : hextFiles) { const std::string* t = fileOf(n); if (!t || !rule(*t)) return false; }
  for (auto& t : w.hextTexts) if (!rule(t)) return false;
  if (w.lint) return true;
  std::vector<std::unique_ptr<hext::Html>> docs; for (auto& n : htmlFiles) { const std::string* t = fileOf(n); if (!t) return false; docs.emplace_back(new hext::Html(t->data(), t->size())); }
  auto opt = htmlext::JsonOption::NoOption; if (w.pretty || (!w.compact && g_tty[1])) opt = opt | htmlext::JsonOption::PrettyPrint; if (w.array) opt = opt | htmlext::JsonOption::ArrayEnvelope;
  std::ostringstream o; bool ok = true; const uint64_t budget = w.budget.empty() ? 0 : w.budget[0].size() > 1 ? UINT64_MAX : (uint64_t)(w.budget[0][0] - '0');
  try {
    for (auto& r : rules) for (auto& d : docs) {
      const hext::Result got = r.extract(d->root(), budget);
      if (w.filter.empty()) htmlext::PrintJson(got, opt, o); else for (auto& g : got) for (auto& p : g) if (p.first == w.filter[0]) o << p.second << '\n';
    }
  } catch (const hext::MaxSearchError&) { ok = false; hsx::reach("budget exhausted"); }
  out = o.str(); return ok;
}
// positional arguments: the first is a rule, the others are documents, in the order of the arguments
void place(Want& w, int k) {
  const size_t h = w.positional.size(); item(w, k);
  if (w.positional.size() > h) { if (h == 0) w.hextFiles.push_back(w.positional[h]); else w.htmlFiles.push_back(w.positional[h]); }
}
}
extern "C" void hsx_main() {
  std::ios_base::sync_with_stdio(false);
  const std::string v1(1, (char)hsx::range("first value", 'a', 'z')), v2 = std::string(1, (char)hsx::range("second value", 'a', 'z'));
  std::vector<std::pair<std::string, std::string>> files{{"r1", "<x c:x/>"}, {"r2", "<a c:x/>\n<?a c:z/>"}, {"bad", "<a>"}, {"nul", std::string("<a/>\0<", 6)}, {"d1", "<x>" + v1}, {"d2", std::string("<x>\0", 4) + v2 + ".................................."}, {"/dev/stdin", "<x>" + v2 + "s"}};
  g_files = &files; g_reads = 0;
  for (int i = 0; i < 3; ++i) g_tty[i] = false; g_tty[1] = hsx::flip("output is a terminal"); 
#if MODE == 2
  // contents of the files and of a rule given as argument: any bytes, none, or many
  std::vector<int> ks; bool lint = false; Want w; g_form = hsx::pick("form", 0, FORMS);
  { const int pad = hsx::pick("fixed bytes", 0, 2); std::string hextText, htmlText;
    for (int i = 0; i < (pad == 1 ? 40 : pad == 2 ? PAD : 0); ++i) { hextText += i % 40 == 39 ? '\n' : ' '; htmlText += i % 40 == 39 ? '\n' : (char)('a' + i % 26); }
    std::string any; static const int HEXT = 1, HTML = 2, STRING = 3; const int where = hsx::pick("free bytes in", HEXT, STRING);
    any = hsx::text("byte", (size_t)hsx::pick("free bytes", 0, where == HTML ? LEN : LEN - 1));
    const bool empty = hsx::flip("nothing else"), front = hsx::flip("in front");
    std::string rule = empty ? "" : "<a c:x/>", html = empty ? "" : "<x>";
    if (where == STRING) { for (char c : any) hsx::assume(c != 0); rule = front ? any + rule : rule + any; w.valued("-s", "--str", rule, hsx::pick("rule form", 0, FORMS)); w.hextTexts.push_back(rule); if (rule.empty()) return; }
    else { if (where == HEXT) rule = front ? any + hextText + rule : rule + hextText + any; else if (empty) rule = "<a c:x/>"; files[0].second = rule; item(w, 0); }
    if (where == HTML) html = front ? any + htmlText + html : html + htmlText + any; else html = "<x>" + htmlText;
    files[4].second = html; files[6].second = html;
    if (hsx::flip("standard input")) item(w, 14); else { w.valued("-i", "--html", "d1", g_form); w.htmlFiles.push_back("d1"); }
    hsx::reach("contents"); }
#elif MODE == 4
  // values of any bytes and no bytes, printed as JSON or filtered
  std::vector<int> ks; bool lint = false; Want w; g_form = 0;
  { std::string any = hsx::bytes("appended", (size_t)hsx::pick("free bytes", 0, LEN)); for (char c : any) hsx::assume((c != '\'') & (c != '\\'));
    files[0].second = std::string("<x c") + (any.empty() ? "" : ":append('" + any + "')") + ":x c:w@text:y/>"; files[0].second.replace(files[0].second.find("@text"), 5, " @text:x @text");
    item(w, 0); w.valued("-i", "--html", "d1", 0); w.htmlFiles.push_back("d1"); if (hsx::flip("filtered")) ks.push_back(5); else if (hsx::flip("pretty")) ks.push_back(9); hsx::reach("contents"); }
#elif MODE == 3
  // many rules and documents, one of them another one (or invalid), and one more argument
  std::vector<int> ks; bool lint = false; Want w; g_form = hsx::pick("form", 0, FORMS);
  { static const int many[] = {0, 1, 3, 4, 14}; static const int odd[] = {0, 1, 3, 4, 11, 12, 13}; const int which = hsx::pick("many", 0, 4), extra = hsx::pick("extra", 0, 5); static const int extras[] = {5, 7, 8, 9, 10, 6};
    const int at = hsx::pick("place", 0, 2) * (MANY - 1) / 2, other = odd[hsx::pick("other", 0, 6)]; if (many[which] < 2) ks.push_back(4); else ks.push_back(2);
    for (int i = 0; i < MANY; ++i) ks.push_back(i == at ? other : many[which]);
    lint = extras[extra] == 7; ks.push_back(extras[extra]); }
#elif MODE == 0
  g_tty[2] = false; g_form = hsx::pick("form", 0, FORMS);
  Want w; const int n = hsx::pick("arguments", 0, ARGS); std::vector<int> ks; bool lint = false;
  for (int i = 0; i < n; ++i) { ks.push_back(hsx::pick("argument", 0, ITEMS - 1)); lint = lint || ks.back() == 7; }
#else
  // some arguments among two rules and two documents
  g_tty[2] = hsx::flip("errors go to a terminal"); g_form = hsx::pick("form", 0, FORMS);
  Want w; const int n = hsx::pick("arguments", 0, ARGS); std::vector<int> ks; bool lint = false; static const int fixed[] = {1, 4, 0, 2, 3};
  for (int i = 0; i < n; ++i) { const int k = hsx::pick("argument", 0, ITEMS - 1); ks.push_back(k); lint = lint || k == 7; }
  ks.insert(ks.begin() + (n ? hsx::pick("place", 0, n) : 0), fixed, fixed + 5);
#endif
  for (int k : ks) { if (lint) item(w, k); else place(w, k); }
  std::string expected; bool free; const bool good = answer(w, expected, free); const int before = g_documents;
  const Ran r = run(w); hsx::observe((uint64_t)r.code); if (!free) hsx::observe(r.out);
  hsx::check((r.code == 0) == good, "the exit status tells whether everything succeeded");
  if (free) { hsx::check(!r.out.empty() && r.err.empty(), "help and version are printed"); hsx::reach("help or version"); return; }
  hsx::check(r.out == expected, "standard output holds exactly the results");
  hsx::check(r.err.empty() == good, "an error is told on standard error, and only then");
  hsx::check(g_documents == before, "every document is released");
  if (good && !expected.empty()) hsx::reach("results"); if (!good) hsx::reach("error"); if (good && w.lint) hsx::reach("lint");
}
