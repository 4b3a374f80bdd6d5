// C12: for every budget (all 2^64), extraction returns the unlimited result or
// throws MaxSearchError, with one threshold per rule and document.
#include "gen.h"
static int run(const hext::Rule& r, const GumboNode* n, uint64_t budget, hext::Result& out) {
  try { out = r.extract(n, budget); return 0; }
  catch (const hext::MaxSearchError&) { return 1; }
  catch (...) { return 2; }
}
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML);
  ref::genTree(w, hsx::pick("nodes", 1, NODES));
  ref::Seq s; ref::genRules(s, hsx::pick("rules", 1, RULES));
  const hext::Rule r = ref::real(s);
  hext::Result all, part;
  hsx::check(run(r, root->g, 0, all) == 0, "a budget of 0 is unlimited");
  ref::Matcher m; m.search(s, {root});
  const uint64_t budget = hsx::u64("budget");
  hsx::assume(budget != 0);
#ifdef WORK
  ref::searches = 0;
#endif
  const int o = run(r, root->g, budget, part);
#ifdef WORK
  const int work = ref::searches;
#endif
  hsx::observe(o); hsx::observe(part.size());
  hsx::check(o != 2, "only MaxSearchError is thrown");
  if (o == 0) { hsx::reach("enough"); hsx::check(part == all, "a sufficient budget gives the unlimited result"); }
  else { hsx::reach("exhausted"); hsx::check(part.empty(), "an exhausted budget gives no result"); }
#ifdef WORK
  // every search of a sibling list looks at its first node once
  int lists = 1; for (auto* k : w.nodes) lists += !k->kids.empty(); // the outermost rules are searched for in each of them once
  hsx::check((uint64_t)(o == 0 ? work + lists : work) < budget, "a budget bounds the number of sibling lists that are searched"); if (work > 1) hsx::reach("several searches");
#elif !defined(FLAGS)
  hsx::check((o == 1) == (budget <= (uint64_t)m.lists), "the budget is exhausted exactly when more sibling lists have to be searched than it allows");
#else
  hext::Result p2; const uint64_t b2 = hsx::u64("larger budget"); hsx::assume(b2 > budget);
  const int o2 = run(r, root->g, b2, p2);
  hsx::check(!(o == 0 && o2 != 0), "a larger budget never fails where a smaller one suffices");
  if (o == 1 && o2 == 0) hsx::reach("between");
#endif
}
