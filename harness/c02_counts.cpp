// C02: only-child, only-of-type, child-count, empty, attribute-count against counting.
#include "tree.h"
#include "hext/Hext.h"
#ifndef KIDS
#define KIDS 4
#endif
struct Sib { int kind; GumboNode* n; uint8_t tag; char custom; };
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool sameType(const Sib& a, const Sib& b) { return a.kind == b.kind && (a.kind == 0 ? a.tag == b.tag : lower(a.custom) == lower(b.custom)); }
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML);
  const int where = hsx::pick("subject is", 0, 2);    // 0: a child, 1: the parent, 2: the root element
  auto* parent = t.element(html, GUMBO_TAG_DIV);
  const int n = hsx::pick("children", 0, KIDS); Sib s[KIDS];
  int elements = 0;
  for (int i = 0; i < n; ++i) {
    s[i].kind = hsx::pick("kind", 0, 2);
    if (s[i].kind == 0) { s[i].tag = hsx::u8("tag"); hsx::assume(s[i].tag < GUMBO_TAG_UNKNOWN); s[i].n = t.element(parent, (GumboTag)s[i].tag); ++elements; }
    else if (s[i].kind == 1) { char c = hsx::ch("custom"); hsx::assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')); s[i].custom = c; char o[] = "<x-q/>"; o[3] = c; s[i].n = t.element(parent, GUMBO_TAG_UNKNOWN, o); ++elements; }
    else { static const GumboNodeType ty[] = {GUMBO_NODE_TEXT, GUMBO_NODE_COMMENT, GUMBO_NODE_WHITESPACE, GUMBO_NODE_CDATA}; s[i].n = t.text(parent, " ", ty[hsx::pick("non-element", 0, 3)]); }
  }
  if (where == 0) {
    if (!n) return; const int k = hsx::pick("subject", 0, n - 1);
    const bool ofType = hsx::flip("of type");
    hext::OnlyChildMatch m(ofType ? hext::OnlyChildMatch::OfType : hext::OnlyChildMatch::AnyType);
    const bool got = m.matches(s[k].n); hsx::observe(got);
    if (s[k].kind == 2) { hsx::check(!got, "a non-element is never an only child"); return; }
    bool want = true;
    for (int i = 0; i < n; ++i) if (i != k && s[i].kind != 2 && (!ofType || sameType(s[i], s[k]))) want = false;
    hsx::check(got == want, "only-child / only-of-type holds iff there is no element sibling (of that type)");
    if (got && elements > 1) hsx::reach("only of type among others"); if (!got) hsx::reach("not only");
  } else if (where == 2) {
    hsx::check(!hext::OnlyChildMatch(hext::OnlyChildMatch::AnyType).matches(html), "an element without a parent element is not an only child");
  } else {
    const unsigned want = hsx::u32("count");
    const bool got = hext::ChildCountMatch(want).matches(parent); hsx::observe(got);
    hsx::check(got == (want == (unsigned)elements), "child-count counts exactly the element children");
    if (got) hsx::reach("child count matches");
    for (int i = 0; i < n; ++i) if (s[i].kind == 2) { hsx::check(!hext::ChildCountMatch(want).matches(s[i].n), "child-count never holds for a non-element"); hsx::check(!hext::AttributeCountMatch(want).matches(s[i].n), "attribute-count never holds for a non-element"); }
    const int na = hsx::pick("attributes", 0, 3);
    for (int i = 0; i < na; ++i) t.attr(parent, std::string(1, (char)('a' + i)), "");
    hsx::check(hext::AttributeCountMatch(want).matches(parent) == (want == (unsigned)na), "attribute-count counts exactly the attributes");
  }
}
