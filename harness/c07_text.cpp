// C07: @text and @strip-tags over every small tree with symbolic text bytes and tags.
#include "tree.h"
#include "hext/Hext.h"
#ifndef NODES
#define NODES 4
#endif
#ifndef TLEN
#define TLEN 2
#endif
static bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\r'); }
// the inline elements of HTML that the documentation lists as not separating words
static bool inlineTag(int t) {
  static const GumboTag in[] = {GUMBO_TAG_A, GUMBO_TAG_ABBR, GUMBO_TAG_ACRONYM, GUMBO_TAG_B, GUMBO_TAG_BDO, GUMBO_TAG_BIG, GUMBO_TAG_CITE, GUMBO_TAG_CODE, GUMBO_TAG_DEL, GUMBO_TAG_DFN, GUMBO_TAG_EM, GUMBO_TAG_FIELDSET, GUMBO_TAG_FONT, GUMBO_TAG_I, GUMBO_TAG_IMG, GUMBO_TAG_INS, GUMBO_TAG_KBD, GUMBO_TAG_LABEL, GUMBO_TAG_LEGEND, GUMBO_TAG_MAP, GUMBO_TAG_OBJECT, GUMBO_TAG_Q, GUMBO_TAG_S, GUMBO_TAG_SAMP, GUMBO_TAG_SMALL, GUMBO_TAG_SPAN, GUMBO_TAG_STRIKE, GUMBO_TAG_STRONG, GUMBO_TAG_SUB, GUMBO_TAG_SUP, GUMBO_TAG_TT, GUMBO_TAG_U, GUMBO_TAG_VAR};
  bool r = false; for (auto x : in) r = r | (t == x); return r;
}
#ifndef PAD
#define PAD 0
#endif
// PAD bytes: words and gaps
static std::string pad() { std::string s; for (int i = 0; i < PAD; ++i) s += i % 7 == 3 || i % 7 == 4 ? ' ' : 'k'; return s; }
struct N { bool element; int tag; std::string text; bool counts; std::vector<N*> kids; GumboNode* g; };
static void strip(const N& n, std::string& out) { if (!n.element) { if (n.counts) out += n.text; return; } for (auto* k : n.kids) strip(*k, out); }
// text with a marker byte around every element that separates words
static void smart(const N& n, std::string& out) { if (!n.element) { if (n.counts) out += n.text; return; } for (auto* k : n.kids) { bool w = k->element && !inlineTag(k->tag); if (w) out += '\n'; smart(*k, out); if (w) out += '\n'; } }
static bool equal(const std::string& a, const std::string& b) { bool r = a.size() == b.size(); if (r) for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
extern "C" void hsx_main() {
  hsx::Tree t; std::vector<N*> all; N root{true, GUMBO_TAG_DIV, "", true, {}, t.element(t.doc(), GUMBO_TAG_DIV)};
  std::vector<N*> path{&root}; const int n = hsx::pick("nodes", 0, NODES);
  for (int i = 0; i < n; ++i) {
    int d = hsx::pick("depth", 1, (int)path.size()); path.resize(d); N* p = path.back();
    N* c = new N; all.push_back(c); p->kids.push_back(c);
    int kind = hsx::pick("kind", 0, 2);
    c->element = kind == 0;
    if (kind == 0) { uint8_t x = hsx::u8("tag"); hsx::assume(x <= GUMBO_TAG_UNKNOWN); c->tag = x; c->g = t.element(p->g, (GumboTag)x, "<x-y>"); path.push_back(c); }
    else if (kind == 1) { c->text = pad() + hsx::text("text", hsx::pick("text length", 0, TLEN)); c->counts = true; c->g = t.text(p->g, c->text, hsx::flip("whitespace node") ? GUMBO_NODE_WHITESPACE : GUMBO_NODE_TEXT); }
    else { c->text = "x"; c->counts = false; c->g = t.text(p->g, "x", hsx::flip("comment") ? GUMBO_NODE_COMMENT : GUMBO_NODE_CDATA); }
  }
  const std::string st = hext::StripTagsBuiltin(root.g), tx = hext::TextBuiltin(root.g);
  hsx::observe(st); hsx::observe(tx);
  std::string want; strip(root, want);
  hsx::check(equal(st, want), "@strip-tags is the concatenation of all text below the node");
  std::string raw, collapsed; smart(root, raw); bool gap = false;
  for (char c : raw) { if (ws(c)) { gap = true; continue; } if (gap && !collapsed.empty()) collapsed += ' '; gap = false; collapsed += c; }
  hsx::check(equal(tx, collapsed), "@text is the text with separating elements set off, whitespace collapsed and trimmed");
  for (auto* k : root.kids) if (!k->element) { std::string own = k->counts ? k->text : ""; hsx::check(equal(hext::StripTagsBuiltin(k->g), own), "@strip-tags of a text node is its text"); }
  if (!tx.empty()) hsx::reach("text"); if (tx.empty() && !st.empty()) hsx::reach("whitespace only");
  for (auto* x : all) delete x;
}
