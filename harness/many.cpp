// Many rules, patterns, traits, matches and captures: SIZE of them, one of
// which, at an early, middle or late place, is different.
#if WHAT == 5
#define MANYNAMES
#endif
#include "ref.h"
#include "meaning.h"
#include <algorithm>
#ifndef SIZE
#define SIZE 150
#endif
static int place() { static const int at[] = {0, 1, SIZE / 2, SIZE - 2, SIZE - 1}; return at[hsx::pick("place", 0, 4)]; }
#if WHAT == 1
// C14/C10/C11: rules with many siblings, levels, nested rules, captures or matches
static hext::Rule leaf(int i) { hext::Rule r(hext::HtmlTag::A); r.append_capture<hext::AttributeCapture>("id", "n" + std::to_string(i)); return r; }
static void change(hext::Rule& r) {
  if (r.next()) r.next()->set_tag(hext::HtmlTag::B); if (r.child()) r.child()->set_tag(hext::HtmlTag::B); for (auto& n : r.nested()) n.set_tag(hext::HtmlTag::B);
  r.append_match<hext::FunctionMatch>([](const GumboNode*) { return false; }); r.append_capture<hext::AttributeCapture>("id", "changed");
}
static const GumboNode* g_root;
static hext::Result see(const hext::Rule& r) { return ref::frozenExtract(r, g_root); }
extern "C" void hsx_main() {
  const int shape = hsx::pick("shape", 0, 4), at = place(); const bool hit = hsx::flip("all match");
  hsx::Tree t; GumboNode *html = t.element(t.doc(), GUMBO_TAG_HTML), *n = html; g_root = html;
  // the node (or match) at one place does not suit its rule
  const GumboTag odd = hit ? GUMBO_TAG_A : GUMBO_TAG_B; const std::string v(1, hsx::ch("value")); hsx::assume((v[0] != 0) & (v[0] != 'w'));
  auto node = [&](GumboNode* p, int i) { auto* k = t.element(p, i == at ? odd : GUMBO_TAG_A); t.attr(k, "id", i == at ? v : "w"); return k; };
  std::unique_ptr<hext::Rule> r; size_t values = SIZE; // what one occurrence captures
  if (shape == 0) { for (int i = 0; i < SIZE; ++i) node(html, i); r.reset(new hext::Rule(leaf(0))); for (int i = 1; i < SIZE; ++i) r->append_next(leaf(i)); }
  else if (shape == 1) { for (int i = 0; i < SIZE; ++i) n = node(n, i); r.reset(new hext::Rule(leaf(SIZE - 1))); for (int i = SIZE - 2; i >= 0; --i) { hext::Rule o = leaf(i); o.append_child(std::move(*r)); *r = std::move(o); } }
  else if (shape == 2) { node(html, -1); node(node(html, -1), at); r.reset(new hext::Rule(hext::HtmlTag::HTML)); t.attr(html, "id", "w");
    // nested rule i asks for one of the two values
    for (int i = 0; i < SIZE; ++i) { hext::Rule k = leaf(i); k.append_match<hext::AttributeMatch>("id", std::make_unique<hext::EqualsTest>(i == at ? v : "w")); r->append_nested(std::move(k)); } }
  else if (shape == 3) { node(html, at); r.reset(new hext::Rule(hext::HtmlTag::A)); for (int i = 0; i < SIZE; ++i) r->append_capture<hext::AttributeCapture>("id", "n" + std::to_string(i)); }
  else { node(html, -1); values = 1; r.reset(new hext::Rule(leaf(0))); for (int i = 0; i < SIZE; ++i) { const bool b = i != at || hit; r->append_match<hext::FunctionMatch>([b](const GumboNode*) { return b; }); } }
  const hext::Result wr = see(*r); hsx::observe(wr.size());
  if (shape != 2) { hsx::check(wr.size() == (hit ? 1 : 0), "every rule, match and level counts, however many there are"); if (hit) { hsx::check(wr[0].size() == values, "every capture contributes its value"); if (shape != 4) { int k = 0; bool found = false; for (auto& p : wr[0]) { k += p.first == "n" + std::to_string(at); found = found | (p.second == v); } hsx::check(found & (k == 1), "the value at any place is captured"); } } }
  else { size_t odds = 0; for (auto& g : wr) for (auto& p : g) odds += p.first == "n" + std::to_string(at); hsx::check(hit ? odds >= 1 : wr.empty(), "every nested rule has to match"); }
  if (hit) hsx::reach("match"); else hsx::reach("no match");
  std::unique_ptr<hext::Rule> o(new hext::Rule(std::string("x-q"))); o->append_child(leaf(0)); o->append_next(leaf(1)); o->append_nested(leaf(2));
  switch (hsx::pick("operation", 0, 4)) {
    case 0: { hext::Rule c(*r); hsx::check(see(c) == wr, "a copy behaves like the original"); change(*r); hsx::check(see(c) == wr, "changing the original does not affect the copy"); r.reset(); hsx::check(see(c) == wr, "a copy outlives the original"); break; }
    case 1: { *o = *r; r.reset(); hsx::check(see(*o) == wr, "an assigned rule is independent of its source"); break; }
    case 2: { hext::Rule c(std::move(*r)); r.reset(); hsx::check(see(c) == wr, "moving transfers the behaviour"); break; }
    case 3: { const hext::Result wo = see(*o); std::swap(*r, *o); hsx::check(see(*o) == wr && see(*r) == wo, "swap exchanges the behaviour"); break; }
    default: { hext::Rule& x = *r; x = *r; hsx::check(see(*r) == wr, "self assignment changes nothing"); break; }
  }
}
#elif WHAT == 2
// C18/C17: many rules written in hext
extern "C" void hsx_main() {
  std::string s; const int at = place(); const std::string name(1, hsx::ch("name"));
  auto x = [&](int i) { return i == at ? name : std::string("a"); };
  const int shape = hsx::pick("shape", 0, 4);
  if (shape == 0) { for (int i = 0; i < SIZE; ++i) s += "<a>"; for (int i = 0; i < SIZE; ++i) s += "</" + x(i) + ">"; }
  else if (shape == 1) { for (int i = 0; i < SIZE; ++i) s += "<" + x(i) + "/>"; }
  else if (shape == 2) { for (int i = 0; i < SIZE; ++i) s += "<a>{"; s += "<i/>"; for (int i = 0; i < SIZE; ++i) s += "}</" + x(i) + ">"; }
  else if (shape == 3) { s = "<b>"; for (int i = 0; i < SIZE; ++i) s += "{<" + x(i) + "/>}"; s += "</b>"; }
  else { for (int i = 0; i < SIZE; ++i) s += "<a>"; for (int i = 0; i < at; ++i) s += "</a>"; s += "</" + name; }
  Parsed p; run(p, s.data(), s.size()); hsx::observe(p.how); hsx::observe(p.what); hsx::reach(p.how ? "rejected" : "accepted"); agree(s, p);
}
#elif WHAT == 3
// C25/C26/C16: many patterns or traits in one rule
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); auto* top = t.element(html, GUMBO_TAG_DIV);
  auto *a = t.element(top, GUMBO_TAG_A), *b = t.element(top, GUMBO_TAG_A); const std::string v = hsx::text("value", 1); t.attr(a, "c", v); t.attr(b, "c", "aB"); t.attr(b, "d", "q Q"); t.text(b, "T");
#ifdef TRAITS
  static const char* const usual[] = {":not(:first-of-type)", ":attribute-count(2)", ":nth-child(even)"}; static const char* const odd[] = {":first-child", ":last-child", ":nth-child(3n+1)", ":last-of-type", ":type-matches(/^A$/i)", ":child-count(1)", ":empty"};
  static const char* const listed[] = {":child-count(7)", ":nth-child(4n+3)", ":type-matches(/b/)"}; const bool list = hsx::flip("in a list");
  std::string s = "<a"; if (list) s += ":not("; const int at = place(), k = hsx::pick("odd", 0, 6), u = hsx::pick("usual", 0, 2);
  for (int i = 0; i < SIZE; ++i) s += i == at ? odd[k] : list ? listed[u] : usual[u];
  if (list) s += ")"; s += " c:x/>";
#else
  static const char* const usual[] = {" c", " c='q'!", " c*='a'", " c:x", " @text:append('z'):t", " d:y?"}; static const char* const odd[] = {" c='a'", " d!", " c=~/B/i", " d", " c^=\"a\"", " c:toupper:o", " d:o", " d:o?", " @text='T'"};
  std::string s = "<a"; const int at = place(), k = hsx::pick("odd", 0, 8), u = hsx::pick("usual", 0, 5);
  for (int i = 0; i < SIZE; ++i) s += i == at ? odd[k] : usual[u];
  s += " c:end/>";
#endif
  Parsed p; run(p, s.data(), s.size()); hsx::check(!p.how, "every one of these rules is well-formed"); if (p.how) return;
  rh::Reader ref(s); ref.read(closes); std::vector<mean::Pairs> want; mean::results(ref.rules.at(0), {top}, want);
  const auto got = p.rule->extract(top); hsx::observe(got.size()); if (want.empty()) hsx::reach("nothing selected"); else hsx::reach("something selected");
  hsx::check(mean::sameResult(got, want), "every trait and pattern counts, however many there are");
}
#elif WHAT == 4
// C03: long and deeply nested negations
extern "C" void hsx_main() {
  hsx::Tree t; auto* n = t.element(t.element(t.doc(), GUMBO_TAG_HTML), GUMBO_TAG_A); const int at = place(); const bool truth = hsx::flip("truth"), deep = hsx::flip("deep"); const GumboTag tag = truth ? GUMBO_TAG_A : GUMBO_TAG_B;
  std::unique_ptr<hext::NegateMatch> m; bool want = !truth;
  auto is = [&](bool b) { return std::unique_ptr<hext::Match>(new hext::FunctionMatch([b](const GumboNode*) { return b; })); };
  if (deep) { m.reset(new hext::NegateMatch(is(truth))); const int levels = SIZE + (hsx::flip("one more") ? 1 : 0); for (int i = 1; i < levels; ++i) { m.reset(new hext::NegateMatch(std::unique_ptr<hext::Match>(m.release()))); want = !want; } }
  else { std::vector<std::unique_ptr<hext::Match>> v; for (int i = 0; i < SIZE; ++i) v.push_back(is(i == at && truth)); m.reset(new hext::NegateMatch(std::move(v))); }
  hext::NegateMatch copy(*m), assigned; assigned = copy; auto clone = m->clone(); (void)tag;
  const bool got = m->matches(n); hsx::observe(got); hsx::check(got == want, ":not holds iff none of the listed traits holds, however many there are"); if (got) hsx::reach("holds"); else hsx::reach("does not hold");
  m.reset(); hsx::check(copy.matches(n) == want && assigned.matches(n) == want && clone->matches(n) == want, "copies of long negations decide like the original");
}
#elif WHAT == 5
// C11: many optional and greedy rules
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML); const int at = place(), mode = hsx::pick("marks", 0, 3);
  auto marks = [&](ref::Rule& r, int i) { if (mode == 0) r.optional = i == at; else if (mode == 1) r.optional = i != at; else if (mode == 2) r.optional = i % 2 && i != SIZE - 1; else r.greedy = i == at; };
  ref::Seq s(SIZE); for (int i = 0; i < SIZE; ++i) { s[(size_t)i].idx = i; s[(size_t)i].tag = i % 2 ? GUMBO_TAG_A : GUMBO_TAG_B; marks(s[(size_t)i], i); }
  const int missing = hsx::pick("missing", 0, 3), copies = hsx::pick("copies", 1, 2);
  for (int c = 0; c < copies; ++c) for (int i = 0; i < SIZE; ++i) {
    if ((missing == 1 && i == at) || (missing == 2 && i == SIZE / 3)) continue;
    w.add(root, true, s[(size_t)i].tag); if (missing == 3 && i == at) for (int k = 0; k < (copies == 1 ? SIZE : 1); ++k) w.add(root, true, s[(size_t)i].tag);
  }
  const hext::Rule r = ref::real(s); const hext::Result got = r.extract(root->g); hsx::observe(got.size());
  ref::Matcher m; const auto want = m.search(s, {root});
  // groups as lists of values: which node took part, in the order of the rules
  bool ok = got.size() == want.size(); if (!want.empty()) hsx::reach("something selected");
  if (ok) for (size_t g = 0; g < want.size(); ++g) { std::vector<std::string> a, b; for (auto& p : want[g]) a.push_back(std::to_string(p.first) + ":" + ref::nodeName(p.second)); for (auto& kv : got[g]) b.push_back(kv.first + ":" + kv.second); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); ok = ok && a == b; }
  hsx::check(ok, "many rules, optional or greedy, give exactly the occurrences");
}
#elif WHAT == 7
// C04: many words, many attributes
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); const int at = place(); const std::string v = hsx::text("value", 1), b = hsx::text("byte", 1);
  if (hsx::flip("words")) {
    hsx::assume((v[0] != ' ') & (b[0] != ' '));
    // the literal lists the words in any of two orders; the word at one place is free
    auto word = [&](int i, const std::string& x) { return std::string(1, (char)('a' + i % 26)) + std::to_string(i) + (i == at ? x : "k"); };
    std::string value, literal; const bool back = hsx::flip("backwards"), subset = hsx::flip("one word only"), dup = hsx::flip("another like it");
    for (int i = 0; i < SIZE; ++i) { value += (i ? " " : "") + word(i, v); if (!subset) literal += (i ? " " : "") + word(back ? SIZE - 1 - i : i, b); }
    if (subset) literal = word(at, b); if (dup) value += " " + word(at, "kk");
    const bool got = hext::ContainsWordsTest(literal).test(value.c_str()); hsx::observe(got);
    hsx::check(got == (v[0] == b[0]), "every word counts, however many there are"); if (got) hsx::reach("holds"); else hsx::reach("does not hold"); return;
  }
  auto* n = t.element(html, GUMBO_TAG_A); auto name = [&](int i) { return i == at ? std::string("x") + v : "k" + std::to_string(i); };
  for (int i = 0; i < SIZE; ++i) t.attr(n, name(i), i == at ? "here" : "there");
  hsx::assume((v[0] > ' ') & (b[0] > ' ') & (v[0] != '=') & (v[0] != '/') & (v[0] != '>')); auto low = [](char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; };
  hsx::assume(!((v[0] >= 'A') & (v[0] <= 'Z'))); // the parser leaves attribute names in lower case
  const bool want = low(b[0]) == v[0], got = hext::AttributeMatch("x" + b).matches(n), eq = hext::AttributeMatch("x" + b, std::make_unique<hext::EqualsTest>("here")).matches(n);
  const auto cap = hext::AttributeCapture("x" + b, "c").capture(n); hsx::observe(got);
  hsx::check(got == want && eq == want, "an attribute is found among however many"); hsx::check(cap.has_value() == want && (!want || cap->second == "here"), "an attribute is captured among however many");
  hsx::check(hext::AttributeCountMatch(SIZE).matches(n), "all attributes are counted"); if (got) hsx::reach("holds"); else hsx::reach("does not hold");
}
#elif WHAT == 6
// C25/C05/C16/C18/C24: literals, names, blanks, expressions and numbers of SIZE bytes
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); auto* top = t.element(html, GUMBO_TAG_DIV);
  std::string fixed; for (int i = 0; i < SIZE; ++i) fixed += i % 7 == 3 ? '-' : (char)('a' + i % 26);
  const int at = place(); const std::string v = hsx::text("value", 1); std::string value = fixed; value[(size_t)at] = v[0];
  
#ifdef KIND
  const int kind = KIND;
#else
  const int kind = hsx::pick("kind", 0, 10);
#endif
  const bool custom = kind == 6 || kind == 9;
  if (custom) hsx::assume((v[0] > ' ') & (v[0] != '/') & (v[0] != '>') & (v[0] < 127)); if (kind == 5 || kind == 0) hsx::assume((v[0] > ' ') & (v[0] < 127) & (v[0] != '"'));
  auto* n = custom ? t.element(top, GUMBO_TAG_UNKNOWN, ("<x" + value + ">").c_str()) : t.element(top, GUMBO_TAG_A);
  if (kind == 5) t.attr(n, value, "1"); t.attr(n, "c", value); t.attr(n, "d", "q"); t.element(top, GUMBO_TAG_B);
  const std::string b = hsx::text("byte", 1); std::string lit = fixed; lit[(size_t)at] = b[0];
  hsx::assume((b[0] != '"') & (b[0] != '\\'));
  std::string s = "<*"; const bool neg = kind == 0 && hsx::flip("negated");
  switch (kind) {
    case 0: { static const char* const ops[] = {"==", "^=", "*=", "$="}; s += std::string(" c") + ops[hsx::pick("operator", 0, 3)] + "\"" + lit + "\"" + (neg ? "!" : "") + " d:d?"; break; }
    case 1: s += " d:\"" + lit + "\""; break;
    case 2: { static const char* const pipes[] = {"append", "prepend", "trim", "replace(/q/i,"}; const int k = hsx::pick("pipe", 0, 3); s += std::string(k == 2 ? " c:" : " d:") + pipes[k] + (k == 3 ? "" : "(") + "\"" + lit + "\"):p"; break; }
    case 3: { std::string g(SIZE, ' '); g[(size_t)at] = b[0]; hsx::assume(rh::space((unsigned char)b[0])); s += " c:c" + g + "d:d" + g; break; }
    case 4: hsx::assume((b[0] >= 'a') & (b[0] <= 'z')); s += std::string(" c=~/") + (hsx::flip("anchors") ? "^" + lit + "$" : lit) + "/" + (hsx::flip("i") ? "i" : "") + " d:d c:filter(/" + lit + "/):f"; break;
    case 5: hsx::assume((rh::word((unsigned char)b[0])) | (b[0] == '-')); if (at == 0) hsx::assume(rh::alpha((unsigned char)b[0])); s += " " + lit + ":p d:d"; break;
    case 6: hsx::assume((rh::word((unsigned char)b[0])) | (b[0] == '-')); s = "<x" + lit + " d:d></x" + lit + ">"; break;
    case 10: hsx::assume((rh::word((unsigned char)b[0])) | (b[0] == '-')); s += " d:" + lit; break;
    case 9: hsx::assume((b[0] >= 'a') & (b[0] <= 'z')); s += std::string(":type-matches(/") + (hsx::flip("anchors") ? "^x" + lit + "$" : lit) + "/) d:d"; break;
    case 7: { hsx::assume((b[0] >= '0') & (b[0] <= '9')); const std::string zeros(SIZE, '0'); static const char* const f[] = {"nth-child(", "attribute-count(", "nth-last-child(1n+"}; s += std::string(":") + f[hsx::pick("number", 0, 2)] + zeros + b + ") d:d"; break; }
    default: { const std::string c(SIZE, 'k'); s = "#" + c + b + "\n<* d:d" + (hsx::flip("another") ? "/>#" + lit + "\n" : "/>"); break; }
  }
  if (s.back() != '>' && s.back() != '\n') s += "/>";
  Parsed p; run(p, s.data(), s.size()); rh::Reader ref(s); ref.read(closes); hsx::observe(p.how);
  hsx::check((p.how == 0) == (ref.outcome == rh::OK), "accepted exactly when it is well-formed hext"); if (p.how) return;
  std::vector<mean::Pairs> want; mean::results(ref.rules.at(0), {top}, want);
  const auto got = p.rule->extract(top); hsx::observe(got.size()); if (want.empty()) hsx::reach("nothing selected"); else hsx::reach("something selected");
  hsx::check(mean::sameResult(got, want), "literals, names, expressions and numbers mean what is written, however long they are");
}
#endif
