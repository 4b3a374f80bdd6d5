// C19: what PrintJson writes for every small result decodes, by a strict
// reader written here, to exactly that result.
#include "hsx.h"
#include <map>
#include <sstream>
#include <utility>
#include <vector>
#include "htmlext/Json.cpp"
namespace {
struct Bad {};
// a strict reader of the JSON written: arrays, objects and strings
struct Value { enum { String, Array, Object } type; std::string s; std::vector<Value> list; std::vector<std::string> keys; };
struct Reader {
  const std::string& t; size_t at = 0;
  char peek() const { return at < t.size() ? t[at] : 0; }
  bool blank(char c) const { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  void blanks() { while (at < t.size() && blank(t[at])) ++at; }
  void want(char c) { if (at >= t.size() || t[at] != c) throw Bad(); ++at; }
  static void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  std::string str() {
    std::string o; want('"');
    for (;;) {
      if (at >= t.size()) throw Bad();
      const char c = t[at++];
      if (c == '"') return o;
      if ((unsigned char)c < 0x20) throw Bad(); // JSON forbids control characters inside a string
      if (c != '\\') { o += c; continue; }
      if (at >= t.size()) throw Bad();
      const char e = t[at++];
      switch (e) {
        case '"': case '\\': case '/': o += e; break;
        case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': {
          unsigned v = 0;
          for (int i = 0; i < 4; ++i) { if (at >= t.size()) throw Bad(); const char h = t[at++]; unsigned d; if (h >= '0' && h <= '9') d = (unsigned)(h - '0'); else if (h >= 'a' && h <= 'f') d = (unsigned)(h - 'a' + 10); else if (h >= 'A' && h <= 'F') d = (unsigned)(h - 'A' + 10); else throw Bad(); v = v * 16 + d; }
          utf8(o, v); break;
        }
        default: throw Bad();
      }
    }
  }
  Value value() {
    Value v; blanks(); const char c = peek();
    if (c == '"') { v.type = Value::String; v.s = str(); return v; }
    const char close = c == '{' ? '}' : ']'; v.type = c == '{' ? Value::Object : Value::Array; want(c == '{' ? '{' : '[');
    blanks(); if (peek() == close) { ++at; return v; }
    for (;;) {
      blanks(); if (v.type == Value::Object) { v.keys.push_back(str()); blanks(); want(':'); }
      v.list.push_back(value()); blanks();
      if (peek() == ',') { ++at; continue; }
      want(close); return v;
    }
  }
};
bool same(const Value& v, const hext::ResultMap& g) {
  if (v.type != Value::Object) return false;
  std::vector<std::pair<std::string, std::vector<std::string>>> want;
  for (const auto& p : g) { if (want.empty() || want.back().first != p.first) want.push_back({p.first, {}}); want.back().second.push_back(p.second); }
  if (v.keys.size() != want.size()) return false;
  for (const auto& w : want) {
    size_t at = v.keys.size(); for (size_t i = 0; i < v.keys.size(); ++i) if (v.keys[i] == w.first) at = i;
    if (at == v.keys.size()) return false;
    const Value& x = v.list[at];
    if (w.second.size() == 1) { if (x.type != Value::String || x.s != w.second[0]) return false; continue; }
    if (x.type != Value::Array || x.list.size() != w.second.size()) return false;
    for (size_t i = 0; i < w.second.size(); ++i) if (x.list[i].type != Value::String || x.list[i].s != w.second[i]) return false;
  }
  return true;
}
}
#ifndef PLAIN
#define PLAIN 0
#endif
static std::string some(const char* what, size_t n) {
  std::string s = hsx::bytes(what, n);
  if (PLAIN) for (char c : s) hsx::assume(c >= 'a' && c <= 'z'); // structure only: no byte needs escaping
#ifdef PAD
  s.insert(0, PAD, 'p');
#endif
  return s;
}
extern "C" void hsx_main() {
#ifdef MANY
  // MANY values of one name, MANY names, or MANY groups; the values at two places are free
  hext::Result r; const int shape = hsx::pick("shape", 0, 2); const std::string a = some("early value", 1), z = some("late value", 1);
  for (int g = 0; g < (shape == 2 ? MANY : 1); ++g) { hext::ResultMap m; for (int p = 0; p < (shape == 2 ? 1 : MANY); ++p) { const int i = g + p; m.insert(m.end(), {shape == 1 ? std::string(1, (char)('a' + i / 4096)) + (char)('0' + i / 64 % 64) + (char)('0' + i % 64) : "k", i == 1 ? a : i == MANY - 2 ? z : std::to_string(i)}); } r.push_back(std::move(m)); }
#else
  hext::Result r; const int groups = hsx::pick("groups", 0, GROUPS);
  for (int g = 0; g < groups; ++g) {
    hext::ResultMap m; const int pairs = hsx::pick("pairs", 0, PAIRS);
    for (int p = 0; p < pairs; ++p) { std::string k = some("name", (size_t)hsx::pick("name length", 0, KLEN)), v = some("value", (size_t)hsx::pick("value length", 0, VLEN)); m.insert({k, v}); }
    r.push_back(m);
  }
#endif
  const bool pretty = hsx::flip("pretty"), array = hsx::flip("array");
  auto opt = htmlext::JsonOption::NoOption; if (pretty) opt = opt | htmlext::JsonOption::PrettyPrint; if (array) opt = opt | htmlext::JsonOption::ArrayEnvelope;
  std::ostringstream out; htmlext::PrintJson(r, opt, out); const std::string text = out.str(); hsx::observe(text);
  if (r.empty()) { hsx::check(text.empty(), "nothing is written for an empty result"); hsx::reach("empty result"); return; }
  bool valid = true, equal = true; size_t lines = 0;
  try {
    Reader in{text};
    if (array) { Value v = in.value(); in.blanks(); valid = in.at == text.size(); equal = v.type == Value::Array && v.list.size() == r.size(); for (size_t i = 0; equal && i < r.size(); ++i) equal = same(v.list[i], r[i]); }
    else { for (size_t i = 0; i < r.size(); ++i) equal = same(in.value(), r[i]) && equal; in.blanks(); valid = in.at == text.size(); }
  } catch (const Bad&) { valid = false; }
  for (char c : text) if (c == '\n') ++lines;
  hsx::check(valid, "the output is valid JSON");
  hsx::check(equal, "the JSON decodes to exactly the result");
  if (!pretty) hsx::check(lines == (array ? 1 : r.size()), "without pretty-printing every object (or the one array) stands on a line of its own");
  hsx::check(!text.empty() && text.back() == '\n', "the output ends with a line break");
  hsx::reach("result");
}
