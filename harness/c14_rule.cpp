// C14 for whole rules: every rule shape, every value operation, followed by
// changing and destroying the other object.
#include "gen.h"
static const GumboNode* g_root;
static hext::Result see(const hext::Rule& r) { return ref::frozenExtract(r, g_root); }
static hext::Rule extra() { hext::Rule r(hext::HtmlTag::B); r.append_capture(std::unique_ptr<hext::Capture>(new hext::AttributeCapture("id", "extra"))); return r; }
static void change(hext::Rule& r) {
  r.set_tag(hext::HtmlTag::ANY).set_optional(true).set_greedy(true);
  r.append_capture(std::unique_ptr<hext::Capture>(new hext::AttributeCapture("id", "changed")));
  r.append_match(std::unique_ptr<hext::Match>(new hext::FunctionMatch([](const GumboNode*) { return false; })));
  r.append_child(extra()); r.append_next(extra()); r.append_nested(extra());
  if (r.child()) r.child()->set_tag(hext::HtmlTag::LI); for (auto& n : r.nested()) n.set_tag(hext::HtmlTag::LI);
}
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML); g_root = root->g;
  auto* a = w.add(root, true, ref::genTag("node tag", TAGS)); w.add(a, true, ref::genTag("node tag", TAGS)); w.add(root, true, ref::genTag("node tag", TAGS));
  auto* x = w.add(root, true, GUMBO_TAG_UNKNOWN); w.t.setOriginal(x->g, "<x-custom>"); auto* y = w.add(root, true, GUMBO_TAG_UNKNOWN); w.t.setOriginal(y->g, "<x-other>");
  w.add(root, true, GUMBO_TAG_A); w.add(root, true, GUMBO_TAG_A);
  ref::Seq s; ref::genRules(s, hsx::pick("rules", 1, RULES));
  std::unique_ptr<hext::Rule> r(new hext::Rule(ref::real(s)));
  if (hsx::flip("custom tag")) { std::unique_ptr<hext::Rule> c(new hext::Rule(std::string("x-other"), r->is_optional(), r->is_greedy())); c->append_capture(std::unique_ptr<hext::Capture>(new hext::AttributeCapture("id", "own"))); c->append_next(std::move(*r)); r = std::move(c); }
  if (hsx::flip("with a match")) { r->append_match(std::unique_ptr<hext::Match>(new hext::AttributeMatch("id"))); r->append_match(nullptr); r->append_capture(nullptr); }
  std::unique_ptr<hext::Rule> o(new hext::Rule(std::string("x-custom"))); o->append_child(extra()); o->append_nested(extra()); o->append_next(extra());
  const hext::Result wr = see(*r), wo = see(*o);
  switch (hsx::pick("operation", 0, 7)) {
    case 0: { hext::Rule c(*r); change(*r); hsx::check(see(c) == wr, "changing the original does not affect the copy"); r.reset(); hsx::check(see(c) == wr, "a copy outlives the original"); break; }
    case 1: { hext::Rule c(*r); change(c); hsx::check(see(*r) == wr, "changing the copy does not affect the original"); break; }
    case 2: { *o = *r; change(*r); r.reset(); hsx::check(see(*o) == wr, "an assigned rule is independent of its source"); break; }
    case 3: { hext::Rule& x = *r; x = *r; hsx::check(see(*r) == wr, "self assignment changes nothing"); break; }
    case 4: { hext::Rule c(std::move(*r)); r.reset(); hsx::check(see(c) == wr, "moving transfers the behaviour"); break; }
    case 5: { *o = std::move(*r); r.reset(); hsx::check(see(*o) == wr, "move assignment transfers the behaviour"); break; }
    case 6: { using std::swap; swap(*r, *o); hsx::check(see(*r) == wo && see(*o) == wr, "swap exchanges the behaviour"); swap(*r, *r); hsx::check(see(*r) == wo, "swap with itself changes nothing"); break; }
    default: { hext::Rule custom(std::string("x-custom")); hext::Rule c(custom); hext::Rule d(hext::HtmlTag::DIV); d = custom;
      hsx::check(c.get_tagname() == custom.get_tagname() && d.get_tagname() == custom.get_tagname() && d.get_tag() == custom.get_tag(), "the tag name is copied");
      hext::Rule f(hext::HtmlTag::A, true, true), g(f), h; h = f; hsx::check(g.is_optional() && g.is_greedy() && h.is_optional() && h.is_greedy() && h.get_tag() == hext::HtmlTag::A, "the flags are copied"); break; }
  }
  if (!wr.empty()) hsx::reach("with results");
}
