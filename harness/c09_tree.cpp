// C09/C10/C11/C13: every tree shape against every rule shape (children, nested
// rules, siblings). SOUND: each group is judged declaratively (C09); otherwise
// the results are compared with the independent matcher in ref.h.
#include "gen.h"
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML);
  ref::genTree(w, hsx::pick("nodes", 1, NODES));
  ref::Seq s; ref::genRules(s, hsx::pick("rules", 1, RULES));
  const hext::Rule r = ref::real(s);
#ifdef SUBROOT
  // extraction may start at any node: it sees that node's later siblings as well
  ref::Node* from = w.nodes[hsx::pick("start", 0, (int)w.nodes.size() - 1)];
  ref::List list{from};
  for (auto* p : w.nodes) for (size_t i = 0; i < p->kids.size(); ++i) if (p->kids[i] == from) list.assign(p->kids.begin() + i, p->kids.end());
#else
  ref::Node* from = root; ref::List list{root};
#endif
  const hext::Result got = ref::frozenExtract(r, from->g);
  ref::Matcher m; const auto want = m.search(s, list);
  hsx::observe(got.size()); for (auto& g : got) for (auto& kv : g) { hsx::observe(kv.first); hsx::observe(kv.second); }
  if (!want.empty()) hsx::reach("found");
  if (want.empty()) hsx::reach("nothing found");
  if (want.size() > 1) hsx::reach("several groups");
  if (!want.empty() && want[0].size() > 1) hsx::reach("group of several rules");
#ifdef SOUND
  for (auto& g : got) hsx::check(ref::Judge::justified(g, s, list), "each group is one occurrence of the pattern in the document");
#elif defined(FLAGS)
  ref::Matcher m2; m2.repeatStop = true;
  hsx::check(ref::same(got, want, w) || ref::same(got, m2.search(s, list), w), "results are exactly the occurrences the matching rules prescribe");
#else
  hsx::check(ref::same(got, want, w), "results are exactly the occurrences the matching rules prescribe");
#endif
#ifdef TWICE
  const hext::Result again = ref::frozenExtract(r, from->g);
  hsx::check(got == again, "extracting again gives the same result");
#endif
#ifdef CHANGED
  // another document at the same addresses: what was seen before must not matter
  ref::Node* c = w.nodes[(size_t)hsx::pick("changed", 0, (int)w.nodes.size() - 1)];
  if (hsx::flip("new child")) w.add(c, true, ref::genTag("new tag", TAGS)); else { c->tag = ref::genTag("new tag", TAGS); c->g->v.element.tag = (GumboTag)c->tag; }
  const hext::Result next = ref::frozenExtract(r, from->g);
  ref::Matcher n; bool ok = ref::same(next, n.search(s, list), w);
#ifdef FLAGS
  ref::Matcher n2; n2.repeatStop = true; ok = ok || ref::same(next, n2.search(s, list), w);
#endif
  hsx::check(ok, "the extraction sees the document as it is now");
#endif
}
