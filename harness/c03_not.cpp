// C03: :not(...) over any list of traits, nested to any of the listed depths.
#include "tree.h"
#include "hext/Hext.h"
#ifndef LIST
#define LIST 3
#endif
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); auto* n = t.element(html, GUMBO_TAG_A);
  const uint8_t truth = hsx::u8("truth values");      // what the listed traits say about the node
  const int k = hsx::pick("listed", 0, LIST), levels = hsx::pick("nesting", 1, 3), form = hsx::pick("form", 0, 2);
  std::vector<std::unique_ptr<hext::Match>> v; bool any = false;
  for (int i = 0; i < k; ++i) { bool b = (truth >> i) & 1; any = any | b; v.emplace_back(new hext::FunctionMatch([b](const GumboNode*) { return b; })); }
  std::unique_ptr<hext::NegateMatch> m;
  if (form == 0) m.reset(new hext::NegateMatch(std::move(v)));
  else if (form == 1) { m.reset(new hext::NegateMatch()); for (auto& x : v) m->append_match(std::move(x)); }
  else { if (k != 1) return; m.reset(new hext::NegateMatch(std::move(v[0]))); }
  bool want = !any;
  for (int l = 1; l < levels; ++l) { std::unique_ptr<hext::NegateMatch> o(new hext::NegateMatch()); o->append_match(std::move(m)); m = std::move(o); want = !want; }
  hext::NegateMatch copy(*m), assigned; assigned = copy; auto clone = m->clone();
  const bool got = m->matches(n);
  hsx::observe(got);
  if (got) hsx::reach("holds"); if (!got) hsx::reach("does not hold");
  hsx::check(got == want, ":not holds iff none of the listed traits holds");
  hsx::check(copy.matches(n) == got && assigned.matches(n) == got && clone->matches(n) == got, "copies of a negation decide like the original");
  m.reset(); hsx::check(copy.matches(n) == got && clone->matches(n) == got, "copies outlive the original");
}
