// C09/C10: one mandatory rule with several matches and captures of arbitrary
// outcome per node: every element that satisfies tag and all matches gives
// exactly one group, holding exactly the values captured from that element.
#include "gen.h"
#ifndef MATCHES
#define MATCHES 2
#endif
#ifndef CAPTURES
#define CAPTURES 2
#endif
static ref::World* W; static uint8_t holds[MATCHES][NODES + 1], gives[CAPTURES][NODES + 1];
// names and values of the captures: 0 different names; 1 the same name, the same value; 2 the same name, different values
static int naming;
static hext::ResultPair what(int k, int i) { return {std::string(1, (char)(naming ? 'a' : 'a' + k)), ref::name(i) + (naming == 2 ? std::string(1, (char)('z' - k)) : std::string())}; }
static int where(const GumboNode* g) { for (auto* n : W->nodes) if (n->g == g) return n->idx; hsx::check(false, "only nodes of the document are looked at"); return 0; }
struct Oracle final : hext::Cloneable<Oracle, hext::Match> { int k; explicit Oracle(int i) : k(i) {} bool matches(const GumboNode* n) const override { return holds[k][where(n)] != 0; } };
struct Source final : hext::Cloneable<Source, hext::Capture> { int k; explicit Source(int i) : k(i) {}
  std::optional<hext::ResultPair> capture(const GumboNode* n) const override { int i = where(n); if (!gives[k][i]) return {}; return what(k, i); } };
extern "C" void hsx_main() {
  ref::World w; W = &w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML);
  ref::genTree(w, hsx::pick("nodes", 1, NODES));
  int ms = hsx::pick("matches", 0, MATCHES), cs = hsx::pick("captures", 1, CAPTURES), tag = GUMBO_TAG_A;
  for (int k = 0; k < MATCHES; ++k) for (int i = 0; i <= NODES; ++i) { holds[k][i] = hsx::u8("match"); hsx::assume(holds[k][i] < 2); }
  for (int k = 0; k < CAPTURES; ++k) for (int i = 0; i <= NODES; ++i) { gives[k][i] = hsx::u8("capture"); hsx::assume(gives[k][i] < 2); }
  naming = cs > 1 ? hsx::pick("names", 0, 2) : 0;
  hext::Rule r((hext::HtmlTag)tag);
  for (int k = 0; k < ms; ++k) r.append_match<Oracle>(k);
  for (int k = 0; k < cs; ++k) r.append_capture<Source>(k);
  const hext::Result got = ref::frozenExtract(r, root->g);
  size_t k = 0; bool ok = true;
  // siblings in document order, each list before the lists below it
  struct Walk { int ms, cs, tag; const hext::Result& got; size_t& k; bool& ok;
    void list(const ref::List& l) {
      for (auto* n : l) {
        bool m = n->element && n->tag == tag; for (int i = 0; i < ms; ++i) m = m && holds[i][n->idx];
        if (!m) continue;
        hext::ResultMap want; for (int i = 0; i < cs; ++i) if (gives[i][n->idx]) want.insert(what(i, n->idx));
        if (want.empty()) continue;
        if (k >= got.size()) { ok = false; continue; }
        ok = ok && got[k] == want; ++k; hsx::reach("captured");
      }
      for (auto* n : l) if (n->element && !n->kids.empty()) list(n->kids);
    } } walk{ms, cs, tag, got, k, ok};
  walk.list(ref::List{root});
  hsx::observe(got.size());
  hsx::check(ok && k == got.size(), "every element that satisfies the rule gives exactly one group with its own values");
}
