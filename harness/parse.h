// Parsing with the library and with the reference reader, side by side.
#pragma once
#include "hext_ref.h"
#include "hext/Hext.h"
#include <gumbo.h>
// an array of exactly the bytes, so that reading outside is seen
struct Exact { char* p; size_t n; explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { for (size_t i = 0; i < n; ++i) p[i] = s[i]; } ~Exact() { delete[] p; } };
struct Parsed { int how = 0; std::string what; std::unique_ptr<hext::Rule> rule; };
static void run(Parsed& p, const char* s, size_t n) {
  try { p.rule.reset(new hext::Rule(hext::ParseHext(s, n))); }
  catch (const hext::SyntaxError& e) { p.how = 1; p.what = e.what(); }
}
static bool eqs(const std::string& a, const std::string& b) { bool r = a.size() == b.size(); if (r) for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
static bool closes(const std::string& open, const std::string& name) {
  if (open == "*" || name == "*") return open == name;
  const GumboTag t = gumbo_tag_enum(open.c_str()); return t == GUMBO_TAG_UNKNOWN ? open == name : gumbo_tag_enum(name.c_str()) == t;
}
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool sameRules(const std::vector<rh::Rule>& want, const hext::Rule* got);
static bool sameRule(const rh::Rule& w, const hext::Rule& g) {
  const auto name = g.get_tagname(); const GumboTag t = w.tag == "*" ? GUMBO_TAG_LAST : gumbo_tag_enum(w.tag.c_str());
  if (w.tag == "*" ? g.get_tag() != hext::HtmlTag::ANY : (int)g.get_tag() != (int)t) return false;
  if (t == GUMBO_TAG_UNKNOWN ? !(name && *name == w.tag) : (bool)name) return false;
  if (g.is_optional() != w.optional || g.is_greedy() != w.greedy) return false;
  if (!sameRules(w.kids, g.child()) || g.nested().size() != w.groups.size()) return false;
  for (size_t i = 0; i < w.groups.size(); ++i) if (!sameRules(w.groups[i], &g.nested()[i])) return false;
  return true;
}
static bool sameRules(const std::vector<rh::Rule>& want, const hext::Rule* got) {
  for (auto& w : want) { if (!got || !sameRule(w, *got)) return false; got = got->next(); }
  return !got;
}
// the text is treated as the reference says
static void agree(const std::string& text, const Parsed& p) {
  if (p.how && starts(p.what, "In regular expression ")) return; // the expression's own syntax is not modelled
  rh::Reader ref(text); ref.read(closes);
  hsx::check((p.how == 0) == (ref.outcome == rh::OK), "accepted exactly when it is well-formed hext");
  if (ref.outcome == rh::OK) { const bool none = ref.rules.empty(); hsx::check(none ? !p.rule->next() && !p.rule->child() && p.rule->nested().empty() : sameRules(ref.rules, p.rule.get()), "the rules are the ones written"); return; }
  if (ref.outcome == rh::UNEXPECTED || ref.outcome == rh::PREMATURE) {
    hsx::reach(ref.outcome == rh::PREMATURE ? "premature end" : "unexpected character");
    const std::string want = rh::message(text, ref.i);
    hsx::check(eqs(p.what, want.substr(0, strlen(want.c_str()))), "the message names, locates and marks the first impossible character");
  } else hsx::check(!starts(p.what, "Unexpected character") && !starts(p.what, "Premature"), "other errors are told apart");
}
