// C11, known finding: a mandatory greedy rule that directly follows an
// optional or greedy rule.  REPEAT 1 states the documented meaning.
#include "ref.h"
static int tag(const char* n) { uint8_t v = hsx::u8(n); hsx::assume(v < 3); return GUMBO_TAG_A + (int)v; }
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML);
  const int n = hsx::pick("siblings", 1, 4);
  for (int i = 0; i < n; ++i) w.add(root, true, tag("node tag"));
  ref::Seq s(2);
  for (int i = 0; i < 2; ++i) { s[i].idx = i; s[i].tag = tag("rule tag"); }
  s[0].optional = hsx::flip("first is optional"); s[0].greedy = !s[0].optional; s[1].greedy = true;
  hsx::assume(s[0].tag != s[1].tag);
  const hext::Result got = ref::real(s).extract(root->g);
  ref::Matcher m; m.repeatStop = true;
  hsx::check(ref::same(got, m.search(s, {root}), w), "a greedy rule that follows an optional or greedy rule repeats");
}
