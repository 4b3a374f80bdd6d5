// Every small result of an extraction, and stand-ins for what the bindings call:
// parsing a rule, parsing a document, extracting.
#pragma once
#include "hsx.h"
#include "tree.h"
#include "hext/Hext.h"
#include <stdexcept>
#ifndef GROUPS
#define GROUPS 0
#define PAIRS 0
#define KLEN 0
#endif
#ifndef VLEN
#define VLEN 0
#endif
#ifndef PLAIN
#define PLAIN 0
#endif
namespace res {
inline std::string some(const char* what, size_t n) {
  std::string s = hsx::bytes(what, n);
  if (PLAIN) for (char c : s) hsx::assume(c >= 'a' && c <= 'z'); // structure only
#ifdef PAD
  s.insert(0, PAD, 'p');
#endif
  return s;
}
inline hext::Result any() {
#ifdef MANY
  // MANY values of one name, MANY names, or MANY groups; the values at two places are free
  hext::Result all; const int shape = hsx::pick("shape", 0, 2); const std::string a = some("early value", 1), z = some("late value", 1);
  for (int g = 0; g < (shape == 2 ? MANY : 1); ++g) { hext::ResultMap m; for (int p = 0; p < (shape == 2 ? 1 : MANY); ++p) { const int i = g + p; m.insert(m.end(), {shape == 1 ? std::string(1, (char)('a' + i / 4096)) + (char)('0' + i / 64 % 64) + (char)('0' + i % 64) : "k", i == 1 ? a : i == MANY - 2 ? z : std::to_string(i)}); } all.push_back(std::move(m)); }
  return all;
#endif
  hext::Result r; const int groups = hsx::pick("groups", 0, GROUPS);
  for (int g = 0; g < groups; ++g) {
    hext::ResultMap m; const int pairs = hsx::pick("pairs", 0, PAIRS);
    for (int p = 0; p < pairs; ++p) { std::string k = some("name", (size_t)hsx::pick("name length", 0, KLEN)), v = some("value", (size_t)hsx::pick("value length", 0, VLEN)); m.insert({k, v}); }
    r.push_back(m);
  }
  return r;
}
// what a group has to become: each name with its values in order
typedef std::vector<std::pair<std::string, std::vector<std::string>>> Group;
inline Group group(const hext::ResultMap& g) {
  Group want; for (const auto& p : g) { if (want.empty() || want.back().first != p.first) want.push_back({p.first, {}}); want.back().second.push_back(p.second); }
  return want;
}
// the stand-ins
struct World {
  hext::Result result; int outcome = 0;                     // 0 result, 1 MaxSearchError, 2 another exception
  uint64_t budget = 0; const GumboNode* root = nullptr; int extractions = 0;
  std::string text; bool syntaxError = false; int parsed = 0; // ParseHext
  std::string html; int documents = 0, released = 0;          // libgumbo
};
inline World& world() { static World w; return w; }
}
namespace hext {
__attribute__((noinline)) Rule ParseHext(const char* t, std::size_t n) { auto& w = res::world(); ++w.parsed; w.text.assign(t, n); if (w.syntaxError) throw SyntaxError("no rule"); return Rule(HtmlTag::A); }
__attribute__((noinline)) Rule ParseHext(const char* t) { return ParseHext(t, strlen(t)); }
__attribute__((noinline)) Result Rule::extract(const GumboNode* root, std::uint64_t budget) const {
  auto& w = res::world(); ++w.extractions; w.budget = budget; w.root = root;
  if (w.outcome == 1) throw MaxSearchError("too many"); if (w.outcome == 2) throw std::runtime_error("too complex");
  return w.result;
}
}
static GumboOutput g_output; static GumboNode g_root, g_document;
extern "C" GumboOutput* gumbo_parse_with_options(const GumboOptions*, const char* b, size_t n) { auto& w = res::world(); ++w.documents; w.html.assign(b, n); g_output.root = &g_root; g_output.document = &g_document; return &g_output; }
extern "C" GumboOutput* gumbo_parse(const char* b) { return gumbo_parse_with_options(&kGumboDefaultOptions, b, strlen(b)); }
extern "C" void gumbo_destroy_output(const GumboOptions*, GumboOutput*) { ++res::world().released; }
