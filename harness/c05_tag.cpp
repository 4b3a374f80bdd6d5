// C05: tag names, standard and custom, compared without regard to ASCII case.
#include "tree.h"
#include "hext/Hext.h"
#include "parse.h"
#ifndef LEN
#define LEN 3
#endif
#ifndef LONG
#define LONG 0
#endif
#ifndef PARSED
#define PARSED 0
#endif
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// what the HTML tokenizer leaves in a tag name (libgumbo's own helper ends a name at a vertical tab, which is left out)
static bool nameChar(char c) { return (c != 0) & (c != ' ') & (c != 9) & (c != 10) & (c != 11) & (c != 12) & (c != 13) & (c != '/') & (c != '>'); }
#if LONG
// names of LONG bytes that differ in one byte anywhere, or in length
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML);
  std::string fixed; for (int i = 0; i < LONG; ++i) fixed += i % 7 == 3 ? '-' : (char)('a' + i % 26);
  std::string rn = fixed, nn = fixed; const int shape = hsx::pick("shape", 0, 3);
  const size_t at = shape ? 0 : (size_t)(hsx::flip("towards the end") ? LONG - 250 : 1) + (size_t)hsx::range("position", 0, 249);
  if (shape == 0) { rn[at] = hsx::text("rule byte", 1)[0]; nn[at] = hsx::text("node byte", 1)[0]; hsx::assume(nameChar(rn[at]) & nameChar(nn[at])); }
  if (shape == 1) rn += "a"; if (shape == 2) nn += "a"; if (shape == 3) { rn.resize(LONG - 256); }
  auto* n = t.element(html, GUMBO_TAG_UNKNOWN, ("<" + nn + ">").c_str());
  const bool eq = shape == 0 && lower(rn[at]) == lower(nn[at]), got = hext::Rule(rn).matches(n); hsx::observe(got);
  if (got) hsx::reach("long match"); else hsx::reach("long mismatch");
  hsx::check(got == eq, "a long custom tag matches exactly elements with that name");
}
#elif PARSED
// names as they are written in hext
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); std::string name; int want = GUMBO_TAG_UNKNOWN;
  if (hsx::flip("custom")) { name = "x" + hsx::text("name", (size_t)hsx::pick("name length", 1, LEN)); for (char c : name) hsx::assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '_')); hsx::assume(lower(name[1]) != 'm'); }
  else { want = hsx::pick("tag", 0, (int)GUMBO_TAG_UNKNOWN - 1); name = gumbo_normalized_tagname((GumboTag)want); const size_t upper = (size_t)hsx::pick("letter in upper case", 0, 8); if (upper < name.size() && name[upper] >= 'a' && name[upper] <= 'z') name[upper] -= 32; }
  static const char* const tail[] = {"/>", " b/>", ":nth-child(1n+0)/>", "></"}; const int k = hsx::pick("after the name", 0, 3);
  const std::string text = "<" + name + tail[k] + (k == 3 ? name + ">" : "");
  Parsed p; run(p, text.data(), text.size()); hsx::check(!p.how, "every tag name can be written"); if (p.how) return;
  GumboNode* n; bool eq;
  if (hsx::flip("custom element")) {
    std::string nn = "x" + hsx::text("element", (size_t)hsx::pick("element length", 1, LEN)); for (char c : nn) hsx::assume(nameChar(c));
    n = t.element(html, GUMBO_TAG_UNKNOWN, ("<" + nn + ">").c_str()); eq = want == GUMBO_TAG_UNKNOWN && nn.size() == name.size(); if (eq) for (size_t i = 0; i < nn.size(); ++i) eq = eq & (lower(nn[i]) == lower(name[i]));
  } else { const uint8_t b = hsx::u8("element tag"); hsx::assume(b < GUMBO_TAG_UNKNOWN); n = t.element(html, (GumboTag)b); eq = want != GUMBO_TAG_UNKNOWN && b == want; }
  t.attr(n, "b", "");
  const bool got = p.rule->matches(n); hsx::observe(got);
  if (got) hsx::reach("parsed match"); else hsx::reach("parsed mismatch");
  hsx::check(got == eq, "a tag written in hext matches exactly elements with that tag");
}
#else
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML);
  const int mode = hsx::pick("mode", 0, 3);
  if (mode == 0) {                                 // any standard tag against any standard tag
    uint8_t a = hsx::u8("rule tag"), b = hsx::u8("node tag"); hsx::assume(a < GUMBO_TAG_UNKNOWN); hsx::assume(b < GUMBO_TAG_UNKNOWN);
    const bool got = hext::Rule((hext::HtmlTag)a).matches(t.element(html, (GumboTag)b)); hsx::observe(got);
    hsx::check(got == (a == b), "a standard tag matches exactly elements with that tag");
    if (got) hsx::reach("standard match");
  } else if (mode == 1) {                          // custom against custom
    std::string rn = "x-" + hsx::text("rule name", hsx::pick("rule name length", 1, LEN)), nn = "x-" + hsx::text("node name", hsx::pick("node name length", 1, LEN));
    for (char c : rn) hsx::assume(c != 0); for (char c : nn) hsx::assume(nameChar(c));
    static const char* tails[] = {">", "/>", " a=\"b\">", "\n>", "\t/>"};
    auto* n = t.element(html, GUMBO_TAG_UNKNOWN, ("<" + nn + tails[hsx::pick("markup", 0, 4)]).c_str());
    bool eq = rn.size() == nn.size(); if (eq) for (size_t i = 0; i < rn.size(); ++i) eq = eq & (lower(rn[i]) == lower(nn[i]));
    const bool got = hext::Rule(rn).matches(n); hsx::observe(got);
    hsx::check(got == eq, "a custom tag matches exactly elements with that name, in any case");
    hext::Rule same(hext::HtmlTag::UNKNOWN); same.set_tagname(rn); hsx::check(same.matches(n) == eq, "set_tagname names the custom tag");
    hsx::check(!hext::Rule(rn).matches(t.element(html, GUMBO_TAG_A, "<a>")), "a custom tag never matches a standard element");
    hsx::check(!hext::Rule(hext::HtmlTag::UNKNOWN).matches(n), "an unknown tag without a name matches nothing");
    if (got) hsx::reach("custom match"); if (!got) hsx::reach("custom mismatch");
  } else if (mode == 2) {                          // a rule given by name, every standard tag, any case
    uint8_t b = hsx::u8("node tag"); hsx::assume(b < GUMBO_TAG_UNKNOWN);
    static const char* names[] = {"a", "h1", "div", "DIV", "sPan", "blockquote", "body", "svg", "foreignObject", "annotation-xml"};
    static const GumboTag tags[] = {GUMBO_TAG_A, GUMBO_TAG_H1, GUMBO_TAG_DIV, GUMBO_TAG_DIV, GUMBO_TAG_SPAN, GUMBO_TAG_BLOCKQUOTE, GUMBO_TAG_BODY, GUMBO_TAG_SVG, GUMBO_TAG_FOREIGNOBJECT, GUMBO_TAG_ANNOTATION_XML};
    const int k = hsx::pick("name", 0, 9);
    const bool got = hext::Rule(std::string(names[k])).matches(t.element(html, (GumboTag)b)); hsx::observe(got);
    hsx::check(got == (b == tags[k]), "a tag given by name matches exactly elements with that tag");
    if (got) hsx::reach("named match");
  } else {                                         // non-elements, any node type; the universal rule
    uint8_t a = hsx::u8("rule tag"); hsx::assume(a <= GUMBO_TAG_UNKNOWN);
    static const GumboNodeType ty[] = {GUMBO_NODE_TEXT, GUMBO_NODE_COMMENT, GUMBO_NODE_WHITESPACE, GUMBO_NODE_CDATA};
    GumboNode* n = t.text(html, "a", ty[hsx::pick("node type", 0, 3)]);
    hext::Rule r((hext::HtmlTag)a); hext::Rule custom(std::string("x-a"));
    hsx::check(!r.matches(n) && !custom.matches(n), "a named tag never matches a non-element");
    hsx::check(!r.matches(t.doc()), "a named tag never matches the document node");
    uint8_t b = hsx::u8("node tag"); hsx::assume(b <= GUMBO_TAG_UNKNOWN);
    hsx::check(hext::Rule(hext::HtmlTag::ANY).matches(t.element(html, (GumboTag)b, "<x-y>")), "the universal rule accepts every element");
    hsx::check(!r.matches(nullptr), "no node, no match");
    hsx::reach("non-element");
  }
}
#endif
