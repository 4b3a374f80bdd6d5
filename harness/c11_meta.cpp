// C11: an optional rule that captures nothing can be removed without changing
// the results, and each group obeys the order the rules prescribe.
// Stated over the results alone, without a model of the matching algorithm.
#include "ref.h"
#ifndef RULES
#define RULES 3
#endif
#ifndef NODES
#define NODES 4
#endif
static int tag(const char* n) { uint8_t v = hsx::u8(n); hsx::assume(v < 3); return GUMBO_TAG_A + (int)v; }
static bool sameAfterDrop(const hext::Result& a, const hext::Result& b, int dropped) {
  if (a.size() != b.size()) return false; bool ok = true;
  for (size_t i = 0; i < a.size(); ++i) { auto x = a[i].begin(), y = b[i].begin(); if (a[i].size() != b[i].size()) return false;
    for (; x != a[i].end(); ++x, ++y) { int r = x->first[0] - 'a'; ok = ok && r != dropped && y->first[0] - 'a' == r && x->second == y->second; } }
  return ok;
}
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML);
  const int n = hsx::pick("siblings", 1, NODES);
  for (int i = 0; i < n; ++i) w.add(root, true, tag("node tag"));
  const int k = hsx::pick("rules", 1, RULES);
  ref::Seq s(k); bool anyMandatory = false;
  for (int i = 0; i < k; ++i) {
    s[i].idx = i; s[i].tag = tag("rule tag"); s[i].optional = hsx::flip("optional"); s[i].greedy = hsx::flip("greedy"); anyMandatory = anyMandatory || !s[i].optional;
    // mandatory greedy rules after an optional or greedy one: see the unit on known findings
    if (i && s[i].greedy && !s[i].optional && (s[i - 1].optional || s[i - 1].greedy)) return;
  }
  const hext::Rule r = ref::real(s);
  const hext::Result got = r.extract(root->g);
  std::vector<int> count(k, 0); std::vector<int> usedBy(n + 2, 0);
  for (auto& g : got) {
    std::vector<std::vector<int>> at(k);
    for (auto& kv : g) { int ri = kv.first[0] - 'a', ni = kv.second[0] - 'a'; at[ri].push_back(ni); ++count[ri]; ++usedBy[ni]; hsx::check(s[ri].tag == w.nodes[ni]->tag, "a captured node satisfies the rule that captured it"); }
    int prev = 0;                                  // last node taken by an earlier rule
    for (int i = 0; i < k; ++i) {
      if (!s[i].optional) hsx::check(!at[i].empty(), "every mandatory rule contributes to every group");
      if (!s[i].greedy) hsx::check(at[i].size() <= 1, "a rule that is not greedy matches at most once per group");
      for (int x : at[i]) { hsx::check(x > prev, "rules of one group match distinct siblings in order"); prev = x; }
      // greedy: every matching sibling between its first match and the next mandatory rule's match
      if (s[i].greedy && !at[i].empty() && !(i && !s[i].optional && (s[i - 1].optional || s[i - 1].greedy))) {
        int bound = -1; for (int j = i + 1; j < k && bound < 0; ++j) if (!s[j].optional && !at[j].empty()) bound = at[j][0];
        if (bound >= 0) { size_t c = 0; for (int x = at[i][0]; x < bound; ++x) c += w.nodes[x]->tag == s[i].tag; hsx::check(c == at[i].size(), "a greedy rule takes every match up to the next mandatory rule"); hsx::reach("greedy bounded"); }
      }
    }
  }
  for (int i = 1; i <= n; ++i) hsx::check(usedBy[i] <= 1, "no node belongs to two groups");
  hsx::observe(got.size());
  if (k > 1) {
    const int d = hsx::pick("dropped", 0, k - 1);
    if (s[d].optional && !count[d]) {
      ref::Seq t(s); t.erase(t.begin() + d);
      for (size_t i = 1; i < t.size(); ++i) if (t[i].greedy && !t[i].optional && (t[i - 1].optional || t[i - 1].greedy)) return;
      hext::Result less = ref::real(t).extract(root->g);
      hsx::check(sameAfterDrop(got, less, d), "removing an optional rule that matched nothing changes nothing");
      hsx::reach("dropped an idle optional rule");
    }
  }
}
