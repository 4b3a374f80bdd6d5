// Reference string functions: what the tests and pipes mean.  Contents may be
// symbolic, lengths are decided.
#pragma once
#include "hsx.h"
namespace val {
inline bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\r'); }
inline bool same(const std::string& a, const std::string& b) { bool r = a.size() == b.size(); if (r) for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
// pipes
inline bool in(char c, const std::string& set) { bool r = false; for (char s : set) r = r | (c == s); return r; }
inline std::string trim(const std::string& s, const std::string& set) {
  size_t a = 0, b = s.size(); while (a < b && in(s[a], set)) ++a; while (b > a && in(s[b - 1], set)) --b; return s.substr(a, b - a);
}
inline std::string collapse(const std::string& s) {
  std::string out; bool gap = false;
  for (char c : s) { if (ws(c)) { gap = true; continue; } if (gap && !out.empty()) out += ' '; gap = false; out += c; }
  return out;
}
inline std::string lower(std::string s) { for (char& c : s) c = (c >= 'A' && c <= 'Z') ? c + 32 : c; return s; }
inline std::string upper(std::string s) { for (char& c : s) c = (c >= 'a' && c <= 'z') ? c - 32 : c; return s; }
// tests
inline bool begins(const std::string& v, const std::string& l) { bool r = v.size() >= l.size(); if (r) for (size_t i = 0; i < l.size(); ++i) r = r & (v[i] == l[i]); return r; }
inline bool ends(const std::string& v, const std::string& l) { bool r = v.size() >= l.size(); if (r) for (size_t i = 0; i < l.size(); ++i) r = r & (v[v.size() - l.size() + i] == l[i]); return r; }
inline bool contains(const std::string& v, const std::string& l) {
  bool any = false;
  for (size_t p = 0; p + l.size() <= v.size(); ++p) { bool r = true; for (size_t i = 0; i < l.size(); ++i) r = r & (v[p + i] == l[i]); any = any | r; }
  return any;
}
// every maximal run of non-space characters of l is a maximal run of v; no words: false
inline bool words(const std::string& v, const std::string& l) {
  bool all = true, some = false;
  for (size_t a = 0; a < l.size(); ++a) for (size_t b = a + 1; b <= l.size(); ++b) {
    bool w = (a == 0 || l[a - 1] == ' ') & (b == l.size() || l[b] == ' '); for (size_t i = a; i < b; ++i) w = w & (l[i] != ' ');
    bool in = false;
    for (size_t p = 0; p + (b - a) <= v.size(); ++p) { bool m = (p == 0 || v[p - 1] == ' ') & (p + (b - a) == v.size() || v[p + (b - a)] == ' '); for (size_t i = 0; i < b - a; ++i) m = m & (v[p + i] == l[a + i]); in = in | m; }
    all = all & (!w | in); some = some | w;
  }
  return all & some;
}
}
