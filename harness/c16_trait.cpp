// C16: the rule parsed from a trait selects what the trait says.
// MODE 0: every argument of up to LEN bytes out of the alphabet of numbers and
// formulas.  MODE 1: numbers around the limits of int and unsigned, last two
// digits free.  MODE 2: lists of traits inside and outside of :not.
#include "meaning.h"
#ifndef LEN
#define LEN 3
#endif
struct Scene {
  hsx::Tree t; GumboNode* top; int ids = 0;
  GumboNode* add(GumboNode* p, GumboTag tag, const char* o = nullptr, int attrs = 0) {
    auto* n = t.element(p, tag, o); t.attr(n, "id", std::to_string(ids++));
    static const char* const more[] = {"x", "y", "z"}; for (int i = 0; i < attrs; ++i) t.attr(n, more[i], "");
    return n;
  }
  Scene() {
    auto* html = t.element(t.doc(), GUMBO_TAG_HTML); top = add(html, GUMBO_TAG_DIV);
    // siblings of several types, with and without children, attributes and texts between
    add(top, GUMBO_TAG_A); t.text(top, " "); auto* b = add(top, GUMBO_TAG_B, nullptr, 1); add(top, GUMBO_TAG_A, nullptr, 2); add(top, GUMBO_TAG_UNKNOWN, "<x-q>");
    t.text(top, "c", GUMBO_NODE_COMMENT); auto* a = add(top, GUMBO_TAG_A); add(top, GUMBO_TAG_B, nullptr, 3); add(top, GUMBO_TAG_UNKNOWN, "<x-y a=b>"); add(top, GUMBO_TAG_A); auto* i = add(top, GUMBO_TAG_I); add(top, GUMBO_TAG_UNKNOWN, "<x-q/>"); add(top, GUMBO_TAG_A);
    add(b, GUMBO_TAG_B); t.text(b, "t"); add(b, GUMBO_TAG_A); add(a, GUMBO_TAG_I); t.text(i, "t"); add(i, GUMBO_TAG_B, nullptr, 1); add(i, GUMBO_TAG_B); add(i, GUMBO_TAG_B);
  }
};
static const char* const numeric[] = {"child-count", "attribute-count", "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"};
static std::string traitText(int level) {
  static const char* const simple[] = {":empty", ":first-child", ":last-child", ":first-of-type", ":last-of-type", ":only-child", ":only-of-type", ":child-count(2)", ":attribute-count(2)", ":nth-child(2n+1)", ":nth-last-child(even)", ":nth-of-type(-1n+2)", ":nth-last-of-type(odd)"};
  const int k = hsx::pick("trait", 0, level ? 12 : 13);
  if (k < 13) return simple[k];
  std::string s = ":not("; const int n = hsx::pick("listed", 1, LEN); for (int i = 0; i < n; ++i) s += traitText(level + 1);
  return s + ")";
}
extern "C" void hsx_main() {
  std::string text = "<"; static const char* const tags[] = {"*", "a", "x-q"}; text += tags[MODE == 1 ? 0 : hsx::pick("tag", 0, 2)];
#if MODE == 2
  const int n = hsx::pick("traits", 1, 2); for (int i = 0; i < n; ++i) text += traitText(0);
#else
  text += std::string(":") + numeric[hsx::pick("trait", 0, 5)] + "(";
#if MODE == 0
  static const char* const before[] = {"", "2n", "e", "o", "-", "1n-"};
  text += before[hsx::pick("before", 0, 5)];
  std::string arg = hsx::bytes("argument", hsx::pick("length", 0, LEN));
  for (char c : arg) hsx::assume(val::in(c, "0123456789n+-)"));
#else
  static const char* const head[] = {"21474836", "42949672", "184467440737095516", "92233720368547758", "0000000000", "99999999999999999999", "2", "655", "3276", "167772"};
  std::string arg = hsx::flip("minus") ? "-" : ""; arg += head[hsx::pick("head", 0, 9)];
  for (int i = 0; i < 2; ++i) { char c = hsx::ch("digit"); hsx::assume(rh::digit((unsigned char)c)); arg += c; }
  static const char* const tail[] = {"", "n", "n+1", "n-2147483648", "n+2147483648"}; const int form = hsx::pick("form", 0, 6);
  if (form >= 5) arg = "2n" + std::string(form == 5 && arg[0] != '-' ? "+" : "") + arg; else arg += tail[form];
#endif
  text += arg + ")";
#endif
  text += " id:i/>";
  Scene s; Parsed p; run(p, text.data(), text.size());
  rh::Reader ref(text); ref.read(closes);
  hsx::observe(p.how);
  #if MODE < 2
  if (p.how) hsx::reach("rejected");
#endif
  hsx::check((p.how == 0) == (ref.outcome == rh::OK), "accepted exactly when every number is representable");
#if MODE == 1
  if (p.how && ref.outcome == rh::NUMBER) { hsx::reach("number out of range"); hsx::check(starts(p.what, "Number out of range at line 1"), "a number that cannot be represented is named as such"); }
#endif
  if (p.how) return;
#if MODE == 1
  for (char c : text) hsx_concretize_((unsigned char)c); // the arithmetic on free numbers is decided in c01_nth.cpp
#endif
  const auto got = p.rule->extract(s.top);
  std::vector<mean::Pairs> want; mean::results(ref.rules.at(0), {s.top}, want);
  hsx::observe(got.size());
  if (!want.empty()) hsx::reach("selects nodes");
  hsx::check(mean::sameResult(got, want), "the rule selects exactly the nodes the traits describe");
}
