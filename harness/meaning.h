// What a rule without inner rules, as read by the reference reader, says about
// a node, and what it captures.
#pragma once
#include "parse.h"
#include "tree.h"
#include "values.h"
#include <boost/regex.hpp>
#include <utility>
namespace mean {
using Pairs = std::vector<std::pair<std::string, std::string>>;
inline bool isElement(const GumboNode* n) { return n->type == GUMBO_NODE_ELEMENT; }
inline std::string typeName(const GumboNode* n) {
  if (n->v.element.tag != GUMBO_TAG_UNKNOWN) return gumbo_normalized_tagname(n->v.element.tag);
  std::string s; const auto& o = n->v.element.original_tag;
  for (size_t i = 1; i < o.length && !val::ws(o.data[i]) && o.data[i] != '>' && o.data[i] != '/'; ++i) s += o.data[i];
  return s;
}
inline bool sameType(const GumboNode* a, const GumboNode* b) { return val::lower(typeName(a)) == val::lower(typeName(b)); }
inline std::vector<const GumboNode*> elements(const GumboNode* parent) {
  std::vector<const GumboNode*> v; const GumboVector* c = parent->type == GUMBO_NODE_DOCUMENT ? &parent->v.document.children : isElement(parent) ? &parent->v.element.children : nullptr;
  if (c) for (unsigned i = 0; i < c->length; ++i) { auto* n = (const GumboNode*)c->data[i]; if (isElement(n)) v.push_back(n); }
  return v;
}
inline boost::regex compile(const rh::Re& r) { boost::regex::flag_type f = boost::regex::perl; if (r.icase) f |= boost::regex::icase; if (r.collate) f |= boost::regex::collate; return boost::regex(r.src, f); }
inline long position(const GumboNode* n, bool last, bool ofType) {
  long pos = 0; bool here = false;
  for (auto* s : elements(n->parent)) { const bool counts = !ofType || sameType(s, n); if (last && s == n) here = true; if (counts && (!last || here)) ++pos; if (!last && s == n) break; }
  return pos;
}
// exists k >= 0 with step * k + shift == pos
inline bool nth(long step, long shift, long pos) {
  const long d = pos - shift;
  if (step == 0) return d == 0;
  if (step > 0) return d >= 0 && d % step == 0;
  return d <= 0 && -d % -step == 0;
}
// type-matches of a non-element is outside: nothing but elements is in the scenes
inline bool trait(const rh::Trait& t, const GumboNode* n) {
  using namespace rh;
  if (t.kind == T_NOT) { for (auto& x : t.list) if (trait(x, n)) return false; return true; }
  if (!isElement(n)) return false;
  switch (t.kind) {
    case T_EMPTY: return elements(n).empty();
    case T_CHILDCOUNT: return (long)elements(n).size() == t.shift;
    case T_ATTRCOUNT: return (long)n->v.element.attributes.length == t.shift;
    case T_NTHCHILD: return nth(t.step, t.shift, position(n, false, false));
    case T_NTHLASTCHILD: return nth(t.step, t.shift, position(n, true, false));
    case T_NTHOFTYPE: return nth(t.step, t.shift, position(n, false, true));
    case T_NTHLASTOFTYPE: return nth(t.step, t.shift, position(n, true, true));
    case T_FIRSTCHILD: return position(n, false, false) == 1;
    case T_LASTCHILD: return position(n, true, false) == 1;
    case T_FIRSTOFTYPE: return position(n, false, true) == 1;
    case T_LASTOFTYPE: return position(n, true, true) == 1;
    // an element directly below the document is not an only child
    case T_ONLYCHILD: return n->parent->type != GUMBO_NODE_DOCUMENT && elements(n->parent).size() == 1;
    case T_ONLYOFTYPE: return n->parent->type != GUMBO_NODE_DOCUMENT && position(n, false, true) == 1 && position(n, true, true) == 1;
    default: { const std::string s = typeName(n); return boost::regex_search(s, compile(t.re)); }
  }
}
inline const GumboAttribute* attribute(const std::string& name, const GumboNode* n) {
  if (!isElement(n)) return nullptr;
  for (unsigned i = 0; i < n->v.element.attributes.length; ++i) { auto* a = (const GumboAttribute*)n->v.element.attributes.data[i]; if (val::same(val::lower(a->name), val::lower(name))) return a; }
  return nullptr;
}
inline std::string builtin(int k, const GumboNode* n) { return k == 0 ? hext::TextBuiltin(n) : k == 1 ? hext::InnerHtmlBuiltin(n) : hext::StripTagsBuiltin(n); }
inline bool test(const rh::Pattern& p, const std::string& v) {
  // a literal ends at its first NUL byte, as do the values it is compared with
  switch (p.op) {
    case rh::O_WORDS: return val::words(v, p.lit);
    case rh::O_EQUALS: return val::same(v, p.lit);
    case rh::O_BEGINS: return val::begins(v, p.lit);
    case rh::O_CONTAINS: return val::contains(v, p.lit);
    case rh::O_ENDS: return val::ends(v, p.lit);
    default: return boost::regex_search(v, compile(p.re));
  }
}
inline bool pattern(const rh::Pattern& p, const GumboNode* n) {
  if (p.builtin >= 0) return p.op == rh::O_CAPTURE || test(p, builtin(p.builtin, n)) != p.neg;
  if (!isElement(n)) return p.op == rh::O_CAPTURE && p.optional;
  const auto* a = attribute(p.attr, n);
  if (p.op == rh::O_CAPTURE) return p.optional || a;
  if (p.op == rh::O_EXISTS) return !!a != p.neg;
  return (a && test(p, a->value)) != p.neg;
}
inline std::string piped(const std::vector<rh::Pipe>& ps, std::string s) {
  for (auto& p : ps) switch (p.kind) {
    case rh::P_TRIM: s = val::trim(s, p.arg ? p.lit : " "); break;
    case rh::P_COLLAPSE: s = val::collapse(s); break;
    case rh::P_LOWER: s = val::lower(s); break;
    case rh::P_UPPER: s = val::upper(s); break;
    case rh::P_PREPEND: s = p.lit + s; break;
    case rh::P_APPEND: s = s + p.lit; break;
    case rh::P_FILTER: { boost::smatch m; const auto re = compile(p.re); if (boost::regex_search(s, m, re)) { const std::string r = m.size() > 1 ? m[1].str() : m[0].str(); s = r; } else s.clear(); break; }
    default: s = boost::regex_replace(s, compile(p.re), p.lit); break;
  }
  return s;
}
inline bool rule(const rh::Rule& r, const GumboNode* n) {
  if (r.tag != "*") { if (!isElement(n)) return false; if (val::lower(r.tag) != val::lower(typeName(n))) return false; }
  bool all = true; for (auto& t : r.traits) all = all && trait(t, n); for (auto& p : r.patterns) all = all && pattern(p, n);
  return all;
}
inline void captures(const rh::Rule& r, const GumboNode* n, Pairs& out) {
  for (auto& p : r.patterns) if (p.op == rh::O_CAPTURE) {
    if (p.builtin >= 0) out.push_back({p.var, piped(p.pipes, builtin(p.builtin, n))});
    else if (auto* a = attribute(p.attr, n)) out.push_back({p.var, piped(p.pipes, a->value)});
  }
}
inline std::vector<const GumboNode*> nodes(const GumboNode* parent) {
  std::vector<const GumboNode*> v; if (isElement(parent)) for (unsigned i = 0; i < parent->v.element.children.length; ++i) v.push_back((const GumboNode*)parent->v.element.children.data[i]);
  return v;
}
// one mandatory rule: a group for every matching node that captures something,
// list by list, each list before the lists below it
inline void results(const rh::Rule& r, const std::vector<const GumboNode*>& list, std::vector<Pairs>& out) {
  for (auto* n : list) if (rule(r, n)) { Pairs p; captures(r, n, p); if (!p.empty()) out.push_back(p); }
  for (auto* n : list) results(r, nodes(n), out);
}
inline bool sameGroup(const hext::ResultMap& m, Pairs p) {
  if (m.size() != p.size()) return false;
  // the map keeps the captures of one name in order
  size_t i = 0; bool ok = true;
  for (auto& kv : m) {
    size_t j = 0; while (j < p.size() && !val::same(p[j].first, kv.first)) ++j;
    if (j == p.size()) return false;
    ok = ok & val::same(p[j].second, kv.second); p.erase(p.begin() + (long)j); ++i;
  }
  return ok;
}
inline bool sameResult(const hext::Result& r, const std::vector<Pairs>& want) {
  if (r.size() != want.size()) return false;
  bool ok = true; for (size_t i = 0; i < want.size(); ++i) ok = ok & sameGroup(r[i], want[i]);
  return ok;
}
}
