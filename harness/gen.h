// every tree and rule shape within the bounds NODES, RULES, TAGS (and the
// switches FLAGS, TEXTS, ANYRULE)
#pragma once
#include "ref.h"
#ifndef RULES
#define RULES 2
#endif
#ifndef NODES
#define NODES 3
#endif
#ifndef TAGS
#define TAGS 2
#endif
namespace ref {
inline int genTag(const char* n, int k) { uint8_t v = hsx::u8(n); hsx::assume(v < k); return GUMBO_TAG_A + (int)v; }
// rules in written order; depth says where each one hangs
inline void genRules(Seq& top, int k) {
  std::vector<Rule> flat(k); std::vector<int> depth(k, 0), nest(k, 0);
  for (int i = 0; i < k; ++i) {
    auto& r = flat[i]; r.idx = i;
#ifdef ANYRULE
    if (hsx::flip("any")) r.tag = ANYTAG; else
#endif
    r.tag = genTag("rule tag", TAGS);
#ifdef FLAGS
    r.optional = hsx::flip("optional"); r.greedy = hsx::flip("greedy");
#endif
    // below its parent a rule is a child (0), starts a nested group (1) or continues the latest nested group (2)
    if (i) { depth[i] = hsx::pick("rule depth", 0, depth[i - 1] + 1); if (depth[i]) { int j = i - 1, grouped = 0; while (depth[j] >= depth[i]) { grouped = grouped || (depth[j] == depth[i] && nest[j]); --j; } nest[i] = hsx::pick("nested", 0, grouped ? 2 : 1); } }
  }
  // attach from the deepest level up
  for (int d = 8; d >= 1; --d)
    for (int i = 0; i < k; ++i) if (depth[i] == d - 1)
      for (int j = i + 1; j < k && depth[j] >= d; ++j) if (depth[j] == d) { if (!nest[j]) flat[i].kids.push_back(flat[j]); else if (nest[j] == 1) flat[i].nested.push_back({flat[j]}); else flat[i].nested.back().push_back(flat[j]); }
  for (int i = 0; i < k; ++i) if (!depth[i]) top.push_back(flat[i]);
}
inline void genTree(World& w, int n) {
  std::vector<Node*> path{w.nodes[0]};
  for (int i = 0; i < n; ++i) {
    int d = hsx::pick("node depth", 1, (int)path.size()); path.resize(d);
#ifdef TEXTS
    if (hsx::flip("text node")) { w.add(path.back(), false, 0); continue; }
#endif
#ifdef EVERYTAG
    const uint16_t tag = (uint16_t)hsx_sym_("node tag", 16); hsx::assume(tag < GUMBO_TAG_UNKNOWN); path.push_back(w.add(path.back(), true, tag));
#else
    path.push_back(w.add(path.back(), true, genTag("node tag", TAGS)));
#endif
  }
}
}
