// C11/C10: one sibling list against a flat sequence of rules with every
// combination of optional and greedy.
#include "ref.h"
#ifndef RULES
#define RULES 2
#endif
#ifndef NODES
#define NODES 3
#endif
#ifndef TAGS
#define TAGS 2
#endif
static int tag(const char* n) { uint8_t v = hsx::u8(n); hsx::assume(v < TAGS); return GUMBO_TAG_A + 0 + (int)v; }
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML);
  const int n = hsx::pick("siblings", 1, NODES);
  for (int i = 0; i < n; ++i) w.add(root, true, tag("node tag"));
  const int k = hsx::pick("rules", 1, RULES);
  ref::Seq s(k);
  for (int i = 0; i < k; ++i) { s[i].idx = i; s[i].tag = tag("rule tag"); s[i].optional = hsx::flip("optional"); s[i].greedy = hsx::flip("greedy"); }
  const hext::Rule r = ref::real(s);
  const hext::Result got = r.extract(root->g);
  ref::Matcher m; const auto want = m.search(s, {root});
  hsx::observe(got.size()); for (auto& g : got) for (auto& kv : g) { hsx::observe(kv.first); hsx::observe(kv.second); }
  if (!want.empty()) hsx::reach("found"); else hsx::reach("nothing found");
  if (want.size() > 1) hsx::reach("several groups");
  // a mandatory greedy rule that follows an optional or greedy one: either once (known finding) or repeated
  ref::Matcher m2; m2.repeatStop = true;
  hsx::check(ref::same(got, want, w) || ref::same(got, m2.search(s, {root}), w), "every group pairs exactly the rules with the nodes the matching rules prescribe");
}
