// C01: nth-child family against the arithmetic definition, for every (step, shift).
#include "tree.h"
#include "hext/Hext.h"
#ifndef KIDS
#define KIDS 3
#endif
// one sibling: element with a symbolic standard tag, element with a custom tag, or a non-element
struct Sib { int kind; GumboNode* n; uint8_t tag; char custom; };
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool sameType(const Sib& a, const Sib& b) { return a.kind == b.kind && (a.kind == 0 ? a.tag == b.tag : lower(a.custom) == lower(b.custom)); }
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML);
  auto* parent = t.element(html, GUMBO_TAG_DIV);
  const int n = hsx::pick("siblings", 1, KIDS);
  Sib s[KIDS];
  for (int i = 0; i < n; ++i) {
    s[i].kind = hsx::pick("kind", 0, 2);
    if (s[i].kind == 0) { s[i].tag = hsx::u8("tag"); hsx::assume(s[i].tag < GUMBO_TAG_UNKNOWN); s[i].n = t.element(parent, (GumboTag)s[i].tag); }
    else if (s[i].kind == 1) { char c = hsx::ch("custom"); hsx::assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')); s[i].custom = c; char o[] = "<x-q a=b>"; o[3] = c; s[i].n = t.element(parent, GUMBO_TAG_UNKNOWN, o); }
    else { static const GumboNodeType ty[] = {GUMBO_NODE_TEXT, GUMBO_NODE_COMMENT, GUMBO_NODE_WHITESPACE, GUMBO_NODE_CDATA}; s[i].n = t.text(parent, " ", ty[i & 3]); }
  }
  const int k = hsx::pick("subject", 0, n - 1);
  const bool last = hsx::flip("last"), ofType = hsx::flip("of_type");
#ifdef STEP
  static const int steps[] = {0, 1, -1, 2, -2, 3, -3, 5, -7, 10, 100, -1000, 2147483647, -2147483647 - 1, -2147483647};
  const int step = steps[hsx::pick("step", 0, (int)(sizeof steps / sizeof *steps) - 1)];
#else
  const int step = hsx::i32("step");
#endif
  const int shift = hsx::i32("shift");
  using M = hext::NthChildMatch;
  M::Option o = last ? M::Last : M::First; if (ofType) o = o | M::OfType;
  M m(step, shift, o);
  const bool got = m.matches(s[k].n);
  if (s[k].kind == 2) { hsx::check(!got, "a non-element never matches"); hsx::reach("non-element"); return; }
  long pos = 0;
  for (int i = 0; i < n; ++i) if (s[i].kind != 2 && (last ? i >= k : i <= k) && (!ofType || sameType(s[i], s[k]))) ++pos;
  pos = (long)hsx_concretize_((uint64_t)pos);
  hsx::observe(pos); hsx::observe(got);
  // exists n >= 0 with step * n + shift == pos, over the integers
  const long d = pos - (long)shift; bool want;
  if (step == 0) want = d == 0;
  else if (step > 0) want = d >= 0 && d % step == 0;
  else want = d <= 0 && -d % -(long)step == 0;
  if (want) hsx::reach("match"); else hsx::reach("no match");
  hsx::check(got == want, "matches(node) iff position == step*n + shift for some n >= 0");
}
