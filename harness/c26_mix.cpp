// C26: several traits and patterns in one rule (MODE 0) or in two rules
// (MODE 1) mean what each of them means alone, whatever was parsed before.
#include "meaning.h"
static const char* const traits[] = {":first-child", ":not(:last-child)", ":nth-child(2)", ":nth-last-child(2n)", ":type-matches(/A/i)", ":type-matches(/A/)", ":not(:type-matches(/B/i):empty)", ":attribute-count(3)", ":nth-child(2n-1)", ":nth-last-of-type(-1n+1)", ":child-count(0)", ":only-of-type"};
static const char* const patterns[] = {" c", " c!", " c='aB'", " c==\"a'\"!", " c^='a'", " c=~/B/i", " c=~/b/", " @text=~/T/!", " c:x", " c:trim:x", " d:y?", " f:w?", " e:prepend('<'):append(\">\"):z", " @text:toupper:t", " c:filter(/B/i):f", " c:filter(/(b)/):f", " c:replace(/a/i,'-'):r", " c:replace(/a/,''):r", " @inner-html*='a'!", " @strip-tags:tolower:\"s t\"", " f!", " f"};
enum { NT = sizeof traits / sizeof *traits, NP = sizeof patterns / sizeof *patterns };
static std::string some(int nt, int np) {
  std::string s; const int a = hsx::pick("traits", 0, nt), b = hsx::pick("patterns", 0, np);
  for (int i = 0; i < a; ++i) s += traits[hsx::pick("trait", 0, NT - 1)];
  for (int i = 0; i < b; ++i) s += patterns[hsx::pick("pattern", 0, NP - 1)];
  return s;
}
static std::string other() { return hsx::flip("traits of the other rule") ? some(1, 0) : some(0, 1); }
static void attrs(hsx::Tree& t, GumboNode* n, const std::string& c) { t.attr(n, "c", c); t.attr(n, "d", "q Q"); t.attr(n, "e", ""); }
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); auto* top = t.element(html, GUMBO_TAG_DIV);
  auto* a = t.element(top, GUMBO_TAG_A); auto* b = t.element(top, GUMBO_TAG_B);
  const std::string v = hsx::text("value", VLEN); attrs(t, a, v); attrs(t, b, "aB"); t.attr(top, "c", "a'");
  t.text(a, "tT"); t.text(t.element(b, GUMBO_TAG_I), "t");
  // something parsed before: a complete rule, or one that breaks off
  const int before = MODE ? 0 : hsx::pick("before", 0, 2);
  if (before) {
    static const char* const earlier[] = {"<a c=~/B/i/>", "<?+b:not(:first-child):nth-child(3n+2) c:trim:append(\"z\"):x? d='r'! @text:t/>"};
    const std::string e = earlier[hsx::pick("earlier", 0, 1)]; Parsed q; run(q, e.data(), before == 1 ? e.size() : hsx::pick("cut", 1, 3) * e.size() / 4);
  }
#if MODE == 0
  std::string text = "<" + std::string(hsx::flip("any") ? "*" : "a") + some(TRAITS, PATTERNS) + " d:mark/>";
#else
  const int shape = hsx::pick("shape", 0, 3); std::string text;
  if (shape == 0) text = "<a" + some(TRAITS, PATTERNS) + " d:mark/><b" + other() + " d:mark/>";
  else if (shape == 1) text = "<div" + other() + "><a" + some(TRAITS, PATTERNS) + " d:mark/></div>";
  else if (shape == 2) text = "<div" + other() + ">{<a" + some(TRAITS, PATTERNS) + " d:mark/>}</div>";
  else text = "<div><a" + some(TRAITS, PATTERNS) + " d:mark/><b" + other() + " d:mark></b></div>";
#endif
  Parsed p; run(p, text.data(), text.size());
  hsx::check(!p.how, "every one of these rules is well-formed"); if (p.how) return;
  rh::Reader ref(text); ref.read(closes);
  std::vector<mean::Pairs> want;
#if MODE == 0
  mean::results(ref.rules.at(0), {top}, want);
#else
  const rh::Rule &r = ref.rules.at(0), &r1 = shape == 0 ? r : shape == 2 ? r.groups.at(0).at(0) : r.kids.at(0), *r2 = shape == 0 ? &ref.rules.at(1) : shape == 3 ? &r.kids.at(1) : nullptr;
  if (mean::rule(r1, a) && (!r2 || mean::rule(*r2, b)) && (shape == 0 || mean::rule(r, top))) {
    // what the inner rules capture comes first
    want.emplace_back(); mean::captures(r1, a, want[0]); if (r2) mean::captures(*r2, b, want[0]); if (shape) mean::captures(r, top, want[0]);
  }
#endif
  const auto got = p.rule->extract(top);
  hsx::observe(got.size());
  if (want.empty()) hsx::reach("nothing selected"); else hsx::reach("something selected");
  hsx::check(mean::sameResult(got, want), "each trait, pattern and rule means what it means alone");
}
