// C22: on every small tree of every kind of node, every match, capture and
// extraction stays inside the objects it was given; what it allocates is
// released, also when the budget runs out.
// MODE 0: one object of every class on one node.  MODE 1: extraction.
#include "gen.h"
#define REGEX
#include "objects.h"
static GumboNode* any(hsx::Tree& t, GumboNode* parent) {
  const int k = hsx::pick("kind", 0, 8); GumboNode* n = nullptr;
  switch (k) {
    case 0: n = t.element(parent, GUMBO_TAG_A); break;                               // implied: no original text
    case 1: { static const char* const o[] = {"<b>", "<B c=d>", "<b/>"}; n = t.element(parent, GUMBO_TAG_B, o[hsx::pick("original", 0, 2)]); break; }
    case 2: { std::string o = "<x" + hsx::text("original", 2) + ">"; for (size_t i = 2; i < 4; ++i) hsx::assume(o[i] != '>' && o[i] != '<'); n = t.element(parent, GUMBO_TAG_UNKNOWN); t.setOriginal(n, o); break; }
    case 3: n = t.element(parent, GUMBO_TAG_TEMPLATE); n->type = GUMBO_NODE_TEMPLATE; break;
    case 4: n = t.text(parent, hsx::text("text", hsx::pick("text length", 0, 1))); break;
    case 5: n = t.text(parent, " ", GUMBO_NODE_WHITESPACE); break;
    case 6: n = t.text(parent, "c", GUMBO_NODE_COMMENT); break;
    case 7: n = t.text(parent, "d", GUMBO_NODE_CDATA); break;
    default: { n = t.element(parent, GUMBO_TAG_SVG); n->v.element.tag_namespace = GUMBO_NAMESPACE_SVG; auto* a = t.attr(n, "e", "f"); a->attr_namespace = (GumboAttributeNamespaceEnum)hsx::pick("attribute namespace", 0, 3); break; }
  }
  if (hsx::Tree::isElement(n) && k < 4 && hsx::flip("attribute")) t.attr(n, "c", hsx::text("value", hsx::pick("value length", 0, 1)));
  return n;
}
struct Use { template <class T> void operator()(std::unique_ptr<T> a, std::unique_ptr<T>) { hsx::observe(see(*a)); } };
static std::unique_ptr<Match> type() { return std::unique_ptr<Match>(new TypeRegexMatch(boost::regex("x.|b"))); }
extern "C" void hsx_main() {
  hsx::Tree t; t.doc()->v.document.has_doctype = hsx::flip("doctype");
  auto* html = t.element(t.doc(), GUMBO_TAG_HTML); std::vector<GumboNode*> inner{html};
  for (int i = 0; i < NODES; ++i) { GumboNode* p = inner[(size_t)hsx::pick("parent", 0, (int)inner.size() - 1)]; auto* n = any(t, p); if (hsx::Tree::isElement(n)) inner.push_back(n); }
  GumboNode* at = t.nodes[(size_t)hsx::pick("node", 0, (int)t.nodes.size() - 1)];
#if MODE == 0
  g_node = at; g_other = t.nodes.back(); g_text = "ab";
  const int cls = hsx::pick("class", 0, 16);
  if (cls < 8) pairs(cls, hsx::pick("a", 0, 2), 0, Use());
  else if (cls < 10) pairs(cls + 6, hsx::pick("a", 0, 2), 0, Use());
  else if (cls == 10) { auto m = type(); hsx::observe(m->matches(at)); }
  else if (cls == 11) hsx::observe(hext::StripTagsBuiltin(at));
  else { using M = NthChildMatch; const int o = cls - 12; M m(2, 1, o == 0 ? M::First : o == 1 ? M::Last : o == 2 ? M::First | M::OfType : M::Last | M::OfType); hsx::observe(m.matches(at)); if (o == 0) hsx::observe(OnlyChildMatch(OnlyChildMatch::OfType).matches(at)); }
  hsx::reach("used");
#else
  ref::Seq s; ref::genRules(s, hsx::pick("rules", 1, RULES)); hext::Rule r = ref::real(s);
  switch (hsx::pick("with", 0, 5)) {
    case 0: r.append_match(type()); break;
    case 1: r.append_match<FunctionValueMatch>(TextBuiltin, test(2)); break;
    case 2: r.append_capture<FunctionCapture>(InnerHtmlBuiltin, "h", pipe(2)); break;
    case 3: r.append_match<NthChildMatch>(-1, 2, NthChildMatch::Last | NthChildMatch::OfType); break;
    case 4: r.append_match<AttributeMatch>("c", test(1)); break;
    default: break;
  }
  const uint64_t budget = hsx::u64("budget");
  try { auto got = r.extract(at, budget); hsx::observe(got.size()); hsx::reach("result"); if (!got.empty()) hsx::reach("groups"); }
  catch (const hext::MaxSearchError& e) { hsx::observe(99); hsx::check(e.what() != nullptr, "the error says something"); hsx::reach("budget exhausted"); }
#endif
}
