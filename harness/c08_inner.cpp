// C08: @inner-html over small trees with symbolic bytes: the markup is read
// back by an independent reader and must give the same tree.
#include "tree.h"
#include "hext/Hext.h"
#ifndef NODES
#define NODES 3
#endif
#ifndef TLEN
#define TLEN 2
#endif
#ifndef ATTRS
#define ATTRS 1
#endif
#ifndef PAD
#define PAD 0
#endif
static std::string pad(const char* of) { std::string s; for (int i = 0; i < PAD; ++i) s += of[i % 5]; return s; }
struct N { int kind; int tag; std::string text; std::vector<std::pair<std::string, std::string>> attrs; int ns = 0; int space = 0; std::vector<N*> kids; GumboNode* g; };
static bool voidTag(int t) { static const GumboTag v[] = {GUMBO_TAG_AREA, GUMBO_TAG_BASE, GUMBO_TAG_BR, GUMBO_TAG_COL, GUMBO_TAG_EMBED, GUMBO_TAG_HR, GUMBO_TAG_IMG, GUMBO_TAG_INPUT, GUMBO_TAG_KEYGEN, GUMBO_TAG_LINK, GUMBO_TAG_META, GUMBO_TAG_PARAM, GUMBO_TAG_SOURCE, GUMBO_TAG_TRACK, GUMBO_TAG_WBR}; for (auto x : v) if (x == t) return true; return false; }
// void elements are HTML's; those of SVG and MathML may have content
static bool isVoid(const N& n) { return n.space == 0 && voidTag(n.tag); }
struct Reader {
  const std::string& s; size_t p = 0; bool ok = true;
  void lit(const std::string& l) { if (s.size() - p < l.size()) { ok = false; p = s.size(); return; } bool r = true; for (size_t i = 0; i < l.size(); ++i) r = r & (s[p + i] == l[i]); ok = ok & r; p += l.size(); }
  bool at(char c) { return p < s.size() && s[p] == c; }
  static bool digit(char c) { return (c >= '0') & (c <= '9'); }
  static bool alnum(char c) { return digit(c) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
  char ahead(size_t k) { return p + k < s.size() ? s[p + k] : '"'; }
  bool reference() {
    const char a = ahead(1), b = ahead(2);
    if (a == '#') return digit(b) || (((b == 'x') | (b == 'X')) && (digit(ahead(3)) | ((ahead(3) >= 'a') & (ahead(3) <= 'f')) | ((ahead(3) >= 'A') & (ahead(3) <= 'F'))));
    if ((((a == 'l') | (a == 'g')) & (b == 't')) | (((a == 'L') | (a == 'G')) & (b == 'T'))) { const char c = ahead(3); return !((c == '=') | alnum(c)); }
    return false;
  }
  // an attribute value as an HTML tokenizer reads it: up to the next double quote, &quot; and &amp; decoded
  std::string value() {
    std::string v;
    while (p < s.size() && s[p] != '"') {
      if (s[p] == '&' && s.size() - p >= 6 && s.compare(p, 6, "&quot;") == 0) { v += '"'; p += 6; }
      else if (s[p] == '&' && s.size() - p >= 5 && s.compare(p, 5, "&amp;") == 0) { v += '&'; p += 5; }
      else if (s[p] == '&' && s.size() - p >= 5 && s.compare(p, 5, "&#34;") == 0) { v += '"'; p += 5; }
      // any other reference stands for another character: numeric ones with or without a semicolon, of the named ones the shortest
      else if (s[p] == '&' && reference()) { ok = false; ++p; }
      else v += s[p++];
    }
    lit("\""); return v;
  }
};
static void read(Reader& r, const N& n) {
  static const char* ns[] = {"", "xlink:", "xml:", "xmlns:"};
  if (n.kind == 1) { r.lit(n.text); return; }
  if (n.kind == 2) { r.lit("<!--"); r.lit(n.text); r.lit("-->"); return; }
  const std::string name = n.tag == GUMBO_TAG_UNKNOWN ? "x-q" : gumbo_normalized_tagname((GumboTag)n.tag);
  r.lit("<"); r.lit(name);
  for (auto& a : n.attrs) {
    r.lit(" "); r.lit(ns[n.ns]); r.lit(a.first); r.lit("=\"");
    std::string v = r.value(); bool eq = v.size() == a.second.size(); if (eq) for (size_t i = 0; i < v.size(); ++i) eq = eq & (v[i] == a.second[i]);
    r.ok = r.ok & eq;
  }
  if (isVoid(n)) { if (r.at('/')) r.lit("/"); r.lit(">"); return; }
  if (n.space && n.kids.empty() && r.at('/')) { r.lit("/>"); return; }
  r.lit(">"); for (auto* k : n.kids) read(r, *k); r.lit("</"); r.lit(name); r.lit(">");
}
extern "C" void hsx_main() {
  hsx::Tree t; std::vector<N*> all; N root{0, GUMBO_TAG_DIV}; root.g = t.element(t.element(t.doc(), GUMBO_TAG_BODY), GUMBO_TAG_DIV); t.attr(root.g, "own", "attribute");
  std::vector<N*> path{&root}; const int n = hsx::pick("nodes", 0, NODES);
  for (int i = 0; i < n; ++i) {
    int d = hsx::pick("depth", 1, (int)path.size()); path.resize(d); N* p = path.back();
    N* c = new N; all.push_back(c); p->kids.push_back(c); c->kind = hsx::pick("kind", 0, 2);
    if (c->kind == 0) {
#ifdef ALLTAGS
      c->tag = hsx::pick("tag", 0, GUMBO_TAG_UNKNOWN);
#elif defined(FOREIGN)
      static const int some[] = {GUMBO_TAG_AREA, GUMBO_TAG_BASE, GUMBO_TAG_BR, GUMBO_TAG_COL, GUMBO_TAG_EMBED, GUMBO_TAG_HR, GUMBO_TAG_IMG, GUMBO_TAG_INPUT, GUMBO_TAG_KEYGEN, GUMBO_TAG_LINK, GUMBO_TAG_META, GUMBO_TAG_PARAM, GUMBO_TAG_SOURCE, GUMBO_TAG_TRACK, GUMBO_TAG_WBR, GUMBO_TAG_SVG, GUMBO_TAG_FOREIGNOBJECT, GUMBO_TAG_UNKNOWN};
      c->tag = some[hsx::pick("tag", 0, 17)]; c->space = hsx::pick("namespace", 0, 2);
#else
      static const int some[] = {GUMBO_TAG_B, GUMBO_TAG_BR, GUMBO_TAG_UNKNOWN, GUMBO_TAG_TEMPLATE}; c->tag = some[hsx::pick("tag", 0, 3)];
#endif
      c->g = t.element(p->g, (GumboTag)c->tag, "<x-q  a=b>"); c->g->v.element.tag_namespace = (GumboNamespaceEnum)c->space; if (c->tag == GUMBO_TAG_TEMPLATE) c->g->type = GUMBO_NODE_TEMPLATE;
      if (!isVoid(*c)) path.push_back(c);
      const int na = hsx::pick("attributes", 0, ATTRS); c->ns = na ? hsx::pick("attribute namespace", 0, 3) : 0;
      for (int k = 0; k < na; ++k) { std::string v = pad("k\"l &") + hsx::text("value", hsx::pick("value length", 0, TLEN)), nm(1 + PAD, (char)('m' + k)); c->attrs.push_back({nm, v}); t.attr(c->g, nm, v)->attr_namespace = (GumboAttributeNamespaceEnum)c->ns; }
    } else { c->text = pad("k lm\n") + hsx::text("text", hsx::pick("text length", 0, TLEN)); c->g = t.text(p->g, c->text, c->kind == 2 ? GUMBO_NODE_COMMENT : hsx::flip("whitespace node") ? GUMBO_NODE_WHITESPACE : GUMBO_NODE_TEXT); }
  }
  const std::string got = hext::InnerHtmlBuiltin(root.g);
  hsx::observe(got);
  Reader r{got}; for (auto* k : root.kids) read(r, *k);
  hsx::check(r.p == got.size(), "@inner-html contains nothing but the children");
  hsx::check(r.ok, "@inner-html reads back as exactly the children");
  for (auto* k : root.kids) if (k->kind != 0) hsx::check(hext::InnerHtmlBuiltin(k->g).empty(), "@inner-html of a non-element is empty");
  if (!got.empty()) hsx::reach("markup"); for (auto* k : all) if (!k->attrs.empty()) hsx::reach("attributes"); for (auto* k : all) if (k->kind == 0 && isVoid(*k)) hsx::reach("void");
  for (auto* x : all) delete x;
}
