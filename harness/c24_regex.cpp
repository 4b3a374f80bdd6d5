// C24: =~, filter, replace and type-matches against a small backtracking
// matcher.  Expressions: sequences of up to ATOMS atoms with quantifiers.
// MODE 0: on an attribute or builtin.  MODE 1: type-matches.
// MODE 2: on the result of a pipe, which may contain NUL.
// FORMS=1: every delimiter, every combination of flags, replacements with
// references.  LINES=1: values with line breaks (where . matches a line break
// and ^ and $ also match next to one, as boost's perl syntax has it).
#include "meaning.h"
#ifndef ATOMS
#define ATOMS 2
#endif
#ifndef FORMS
#define FORMS 0
#endif
#ifndef PAD
#define PAD 0
#endif
#ifndef LINES
#define LINES 0
#endif
// one atom: its source, its alternatives (as bytes; \1 any byte, \2 a to c, \3 all but a, \4 a digit), whether it is a group
struct Atom { const char* src; std::vector<std::string> alts; bool group; int anchor; };
struct Item { const Atom* a; int quant; };
struct Rx {
  std::vector<Item> items; bool icase = false; const std::string* s = nullptr;
  long g0 = -1, g1 = -1; bool groups = false; long notEmptyAt = -1; // no occurrence of nothing right here
  bool one(char p, char c) const {
    char l = c; if (icase) l = (c >= 'A' && c <= 'Z') ? c + 32 : c;
    switch (p) { case 1: return true; case 2: return l >= 'a' && l <= 'c'; case 3: return l != 'a'; case 4: return c >= '0' && c <= '9'; default: return l == (icase && p >= 'A' && p <= 'Z' ? p + 32 : p); }
  }
  static bool sep(char c) { return c == 10 || c == 12 || c == 13; }
  bool anchored(int kind, long i) const {
    const long n = (long)s->size(); const auto at = [&](long k) { return (*s)[(size_t)k]; };
    if (i == (kind == 1 ? 0 : n)) return true;
    if (i > 0 && i < n && at(i - 1) == 13 && at(i) == 10) return false;
    return sep(kind == 1 ? at(i - 1) : at(i));
  }
  // matches items[k...] from i on; returns the end or -1
  long seq(size_t k, long i) {
    if (k == items.size()) return i == notEmptyAt ? -1 : i;
    const Item& it = items[k];
    if (it.a->anchor) return anchored(it.a->anchor, i) ? seq(k + 1, i) : -1;
    return rep(k, i, 0);
  }
  long rep(size_t k, long i, int count) {
    const Item& it = items[k]; const int lo = it.quant == 0 || it.quant == 2 ? 1 : 0, hi = it.quant == 0 || it.quant == 3 ? 1 : 1000; const bool lazy = it.quant == 4;
    if (lazy) { const long e = seq(k + 1, i); if (e >= 0) return e; }
    if (count < hi) for (auto& alt : it.a->alts) {
      long j = i; bool ok = true; for (char p : alt) { if (j >= (long)s->size() || !one(p, (*s)[(size_t)j])) { ok = false; break; } ++j; }
      if (!ok) continue;
      const long a = g0, b = g1; if (it.a->group) { g0 = i; g1 = j; }
      const long e = rep(k, j, count + 1); if (e >= 0) return e;
      g0 = a; g1 = b;
    }
    return !lazy && count >= lo ? seq(k + 1, i) : -1;
  }
  // first occurrence from position `from`
  bool find(const std::string& text, long from, long& b, long& e) {
    s = &text;
    for (b = from; b <= (long)text.size(); ++b) { g0 = g1 = -1; e = seq(0, b); if (e >= 0) return true; }
    return false;
  }
  bool first(const std::string& text, std::string& hit) {
    long b, e; if (!find(text, 0, b, e)) return false;
    hit = groups ? (g0 < 0 ? std::string() : text.substr((size_t)g0, (size_t)(g1 - g0))) : text.substr((size_t)b, (size_t)(e - b)); return true;
  }
};
static const std::vector<Atom>& atoms() {
  static const std::vector<Atom>* v = new std::vector<Atom>{{"a", {"a"}, false, 0}, {"B", {"B"}, false, 0}, {".", {"\1"}, false, 0}, {"[a-c]", {"\2"}, false, 0}, {"[^a]", {"\3"}, false, 0}, {"(a)", {"a"}, true, 0}, {"(ab|b)", {"ab", "b"}, true, 0}, {"(?:ab|a)", {"ab", "a"}, false, 0}, {"\\/", {"/"}, false, 0}, {"\\d", {"\4"}, false, 0}, {"^", {}, false, 1}, {"$", {}, false, 2}};
  return *v;
}
extern "C" void hsx_main() {
  hsx_leak_ok(); // the table of atoms
  Rx rx; std::string src; const int n = hsx::pick("atoms", 1, ATOMS);
  for (int i = 0; i < n; ++i) {
    const Atom* a = &atoms()[(size_t)hsx::pick("atom", 0, (int)atoms().size() - 1)]; if (a->group && rx.groups) return;
    static const char* const q[] = {"", "*", "+", "?", "*?"}; const int k = a->anchor ? 0 : hsx::pick("quantifier", 0, 4);
    rx.items.push_back({a, k}); src += std::string(a->src) + q[k]; rx.groups = rx.groups || a->group;
  }
  rx.icase = hsx::flip("i");
  std::string lit = "/" + src + "/" + (rx.icase ? "i" : "");
#if FORMS
  { static const char* const delimiter[] = {"/", "'", "\""}; static const char* const cased[] = {"", "c", "cc"}; static const char* const uncased[] = {"i", "ic", "ci", "ii"};
    const char* const d = delimiter[hsx::pick("delimiter", 0, 2)]; lit = d + src + d + (rx.icase ? uncased[hsx::pick("flags", 0, 3)] : cased[hsx::pick("flags", 0, 2)]); }
  struct Format { const char* src; bool whole, group; const char *before, *after; };
  static const Format formats[] = {{"<>", false, false, "<", ">"}, {"", false, false, "", ""}, {"<$&>", true, false, "<", ">"}, {"<$1>", false, true, "<", ">"}, {"$$&", false, false, "$", "&"}, {"&1", false, false, "&1", ""}};
  const Format& format = formats[lit[0] == '/' && lit.back() != 'c' ? hsx::pick("replacement", 0, 5) : 0];
#endif
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML);
#if MODE != 1
  const bool onText = hsx::flip("builtin"); std::string v = hsx::text("value", (size_t)hsx::pick("length", 0, LEN));
  for (char c : v) {
#if !LINES
    hsx::assume((c != 10) & (c != 12) & (c != 13));
#endif
    if (onText) hsx::assume((c != ' ') & (c != 9) & (c != 11) & (c != 10) & (c != 12) & (c != 13)); }
  if (PAD) v.insert(hsx::flip("free bytes last") ? 0 : v.size(), std::string(PAD, '-'));
  auto* a = t.element(html, GUMBO_TAG_A); if (!onText) t.attr(a, "c", v); t.attr(a, "m", "");
  if (onText && !v.empty()) t.text(a, v);
  std::string on = onText ? " @text" : " c", subject = v;
#if MODE == 2
  { const std::string tail = hsx::text("appended", (size_t)hsx::pick("length of appended", 0, 1)); for (char c : tail) hsx::assume((c != '"') & (c != '\\') & (c != 10) & (c != 12) & (c != 13));
    subject += std::string(1, 0) + tail; on += ":append(\"" + (std::string(1, 0) + tail) + "\")"; }
#endif
  std::string hit; const bool found = rx.first(subject, hit);
  // every occurrence is replaced: after one of nothing the next one at the same place may not be empty
  std::string replaced; bool empty = false; long at = 0, b, e;
  while (rx.find(subject, at, b, e)) {
    empty = empty || b == e; rx.notEmptyAt = b == e ? e : -1;
    replaced += subject.substr((size_t)at, (size_t)(b - at)); at = e;
#if FORMS
    replaced += format.before; if (format.whole) replaced += subject.substr((size_t)b, (size_t)(e - b)); if (format.group && rx.g0 >= 0) replaced += subject.substr((size_t)rx.g0, (size_t)(rx.g1 - rx.g0)); replaced += format.after;
#else
    replaced += "<>";
#endif
  }
  replaced += subject.substr((size_t)at);
  if (found) hsx::reach("found"); else hsx::reach("not found");
  hsx::observe(found);
#if FORMS
  const std::string shape = format.src;
#else
  const std::string shape = "<>";
#endif
#if MODE == 0
  const bool neg = hsx::flip("negated");
  { const std::string r = "<a" + on + "=~" + lit + (neg ? "!" : "") + " m:m/>"; Parsed p; run(p, r.data(), r.size()); hsx::check(!p.how, "the rule is accepted"); if (p.how) return;
    hsx::check((p.rule->extract(a).size() == 1) == (found != neg), "=~ holds exactly when the expression is found"); }
#endif
  { const std::string r = "<a" + on + ":filter(" + lit + "):f" + on + ":replace(" + lit + ",'" + shape + "'):r/>"; Parsed p; run(p, r.data(), r.size()); hsx::check(!p.how, "the rule is accepted"); if (p.how) return;
    const auto got = p.rule->extract(a); hsx::check(got.size() == 1 && got[0].size() == 2, "one value each"); if (got.size() != 1 || got[0].size() != 2) return;
    hsx::check(val::same(got[0].find("f")->second, hit), "filter yields the first group or the whole of the first occurrence, or nothing");
    if (empty) hsx::reach("occurrence of nothing"); else hsx::reach("replacement compared");
    hsx::check(val::same(got[0].find("r")->second, replaced), "replace substitutes every occurrence"); }
#else
  GumboNode* a; std::string name;
  if (hsx::flip("custom")) { std::string b = hsx::text("name", LEN); for (char c : b) hsx::assume((c >= 'a' && c <= 'z') | (c == '-') | (c >= '0' && c <= '9')); name = "x-" + b; a = t.element(html, GUMBO_TAG_UNKNOWN, ("<" + name + (hsx::flip("attribute") ? " b=ab>" : ">")).c_str()); }
  else { const int k = hsx::pick("tag", 0, (int)GUMBO_TAG_UNKNOWN - 1); name = gumbo_normalized_tagname((GumboTag)k); a = t.element(html, (GumboTag)k); }
  t.attr(a, "m", "");
  std::string hit; const bool found = rx.first(name, hit), neg = hsx::flip("not");
  if (found) hsx::reach("found"); else hsx::reach("not found");
  hsx::observe(found);
  const std::string r = std::string("<*") + (neg ? ":not(" : "") + ":type-matches(" + lit + ")" + (neg ? ")" : "") + " m:m/>"; Parsed p; run(p, r.data(), r.size()); hsx::check(!p.how, "the rule is accepted"); if (p.how) return;
  hsx::check((p.rule->extract(a).size() == 1) == (found != neg), "type-matches holds exactly when the expression is found in the tag name");
#endif
}
