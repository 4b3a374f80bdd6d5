// C04 (and the test half of C03): attribute tests as exact string relations,
// for every value and literal up to the length bounds, every byte.
#include "tree.h"
#include "values.h"
#include "hext/Hext.h"
#ifndef VLEN
#define VLEN 4
#endif
#ifndef LLEN
#define LLEN 3
#endif
using namespace val;
extern "C" void hsx_main() {
#ifdef OP
  const int op = OP;
#else
  const int op = hsx::pick("operator", 0, 4);
#endif
  const std::string lit = hsx::bytes("literal", hsx::pick("literal length", 0, LLEN));
  const bool present = hsx::flip("present");
  const std::string val = present ? hsx::text("value", hsx::pick("value length", 0, VLEN)) : "";
#ifdef WORDS
  for (char c : lit) hsx::assume((c == 'a') | (c == 'b') | (c == ' ') | (c == '\t'));
  for (char c : val) hsx::assume((c == 'a') | (c == 'b') | (c == ' ') | (c == '\t'));
#endif
  std::unique_ptr<hext::ValueTest> test; bool want = false;
  switch (op) {
    case 0: test.reset(new hext::EqualsTest(lit)); want = val.size() == lit.size() && begins(val, lit); break;
    case 1: test.reset(new hext::BeginsWithTest(lit)); want = begins(val, lit); break;
    case 2: test.reset(new hext::EndsWithTest(lit)); want = ends(val, lit); break;
    case 3: test.reset(new hext::ContainsTest(lit)); want = contains(val, lit); break;
    default: test.reset(new hext::ContainsWordsTest(lit)); want = words(val, lit); break;
  }
  want = want & present;
  const bool negate = hsx::flip("negate");
  if (negate) { test.reset(new hext::NegateTest(std::move(test))); want = !want; }
  bool got;
  if (hsx::flip("builtin")) {
    if (!present) return;
    hext::FunctionValueMatch m([&val](const GumboNode*) { return val; }, std::move(test));
    hsx::Tree t; got = m.matches(t.element(t.doc(), GUMBO_TAG_A));
    hsx::reach("builtin value");
  } else {
    hsx::Tree t; auto* n = t.element(t.doc(), GUMBO_TAG_A);
    t.attr(n, "clas", lit); if (present) t.attr(n, "class", val); t.attr(n, "classs", lit);
    hext::AttributeMatch m(hsx::flip("upper case name") ? "CLasS" : "class", std::move(test));
    got = m.matches(n);
    hsx::check(!m.matches(t.text(n, "class")), "an attribute test never holds for a non-element");
  }
  hsx::observe(got);
  if (got) hsx::reach("holds"); if (!got) hsx::reach("does not hold");
  hsx::check(got == want, "the test holds iff the string relation does");
}
