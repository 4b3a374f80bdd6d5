// Self-test of the environment models (tools/check_models): every computational model is executed on symbolic
// inputs; the inputs of sampled paths are run on the real libraries, whose observations must be identical.
#include "hsx.h"
#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <gumbo.h>
#include <list>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <strings.h>
#include <unordered_map>
#ifndef LEN
#define LEN 3
#endif
static std::string tx(const char* n, int max = LEN) { return hsx::text(n, hsx::pick("length", 0, max)); }
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
static void off(const char* b, const void* p) { hsx::observe(p ? (uint64_t)((const char*)p - b) : ~0ull); }
extern "C" void hsx_main() {
  hsx_leak_ok();
  switch (hsx::pick("model", 0, 13)) {
    case 0: { hsx::reach("ctype"); int c = hsx::u8("c"); unsigned m = 0; int i = 0;
      for (auto f : {isprint, isspace, isdigit, isupper, islower, isalpha, isalnum, isxdigit, iscntrl, isgraph, ispunct, isblank}) m |= (unsigned)(f(c) != 0) << i++;
      hsx::observe(m); hsx::observe((uint64_t)tolower(c)); hsx::observe((uint64_t)toupper(c)); break; }
    case 1: { hsx::reach("comparisons"); std::string a = tx("a"), b = tx("b"); int n = hsx::pick("n", 0, LEN + 1);
      hsx::observe((uint64_t)(sgn(strcmp(a.c_str(), b.c_str())) + 1)); hsx::observe((uint64_t)(sgn(strncmp(a.c_str(), b.c_str(), n)) + 1));
      hsx::observe((uint64_t)(sgn(strcasecmp(a.c_str(), b.c_str())) + 1)); hsx::observe((uint64_t)(sgn(strncasecmp(a.c_str(), b.c_str(), n)) + 1)); hsx::observe((uint64_t)(sgn(a.compare(b)) + 1)); break; }
    case 2: { hsx::reach("searches"); std::string a = tx("a"), b = tx("b", 2); char c = hsx::ch("c"); const char* s = a.c_str();
      off(s, strchr(s, c)); off(s, strrchr(s, c)); off(s, strstr(s, b.c_str())); off(s, strpbrk(s, b.c_str())); off(s, memchr(s, c, a.size()));
      hsx::observe(strspn(s, b.c_str())); hsx::observe(strcspn(s, b.c_str())); hsx::observe(strnlen(s, 2)); hsx::observe(a.find(b)); hsx::observe(a.rfind(b)); hsx::observe(a.find_first_not_of(b)); hsx::observe(a.find_last_of(b)); break; }
    case 3: { hsx::reach("numbers"); std::string a = (hsx::flip("large") ? "922337203685477580" : "") + tx("a"); int base = hsx::pick("base", 0, 2) * 8; char* e; const char* s = a.c_str(); if (base == 8) base = 10;
      errno = 0; hsx::observe((uint64_t)strtol(s, &e, base)); off(s, e); hsx::observe((uint64_t)errno); errno = 0; hsx::observe(strtoul(s, &e, base)); off(s, e); hsx::observe((uint64_t)errno); break; }
    case 4: { hsx::reach("stoi"); std::string a = (hsx::flip("large") ? "214748364" : "") + tx("a"); int r = 0;
      try { size_t p = 0; r = 1 + 4 * 0; hsx::observe((uint64_t)(uint32_t)std::stoi(a, &p)); hsx::observe(p); } catch (const std::invalid_argument&) { r = 2; } catch (const std::out_of_range&) { r = 3; } hsx::observe((uint64_t)r); break; }
    case 5: { hsx::reach("streams"); std::ostringstream o; int w = hsx::pick("width", 0, 4); o.width(w); o.fill('.'); if (hsx::flip("left")) o.setf(std::ios::left, std::ios::adjustfield);
      if (hsx::flip("hex")) o.setf(std::ios::hex, std::ios::basefield); if (hsx::flip("plus")) o.setf(std::ios::showpos);
      int v = (int)hsx_concretize_(hsx::pick("number", 0, 4)); static const int k[] = {0, 7, -13, 2147483647, -2147483647 - 1}; o << k[v]; o.width(w); o << (unsigned)k[v] << '|'; o.width(w); o << "ab"; o.width(w); o << 'c' << std::string("d") << true << (size_t)v << (long long)k[v]; hsx::observe(o.str()); break; }
    case 6: { hsx::reach("extraction"); std::istringstream i(tx("a")); if (hsx::flip("hex")) i.setf(std::ios::hex, std::ios::basefield); int v = 5; i >> v; hsx::observe((uint64_t)(uint32_t)v); hsx::observe((uint64_t)i.rdstate()); break; }
    case 7: { hsx::reach("words"); std::istringstream i(tx("a")); std::string w; int n = 0; while (i >> w) { hsx::observe(w); ++n; } hsx::observe((uint64_t)n); hsx::observe((uint64_t)i.rdstate()); break; }
    case 8: { hsx::reach("lines"); std::istringstream i(tx("a")); std::string w; char d = hsx::ch("separator"); while (std::getline(i, w, d)) hsx::observe(w); hsx::observe((uint64_t)i.rdstate()); break; }
    case 9: { hsx::reach("trees"); std::multimap<int, int> m; std::set<std::string> s; int n = hsx::pick("entries", 0, 4);
      for (int i = 0; i < n; ++i) { int k = hsx::pick("key", 0, 2); m.emplace(k, i); s.insert(std::string(1, (char)('a' + k))); }
      for (auto& p : m) { hsx::observe((uint64_t)p.first); hsx::observe((uint64_t)p.second); } m.erase(hsx::pick("erased", 0, 2)); if (!s.empty()) s.erase(s.begin());
      for (auto& p : m) hsx::observe((uint64_t)p.second); for (auto& p : s) hsx::observe(p); hsx::observe(m.size()); for (auto i = m.rbegin(); i != m.rend(); ++i) hsx::observe((uint64_t)i->second); break; }
    case 10: { hsx::reach("hashes"); std::unordered_map<std::string, int> m; int n = hsx::pick("entries", 0, 20); for (int i = 0; i < n; ++i) m[std::string(1, (char)('a' + i % 15))] += i; int t = 0; for (auto& p : m) t += p.second * p.first[0]; m.erase("c"); hsx::observe((uint64_t)t); hsx::observe(m.size()); hsx::observe(m.count("b")); break; }
    case 11: { hsx::reach("lists"); std::list<int> a, b; int n = hsx::pick("entries", 0, 3), k = hsx::pick("others", 0, 3); for (int i = 0; i < n; ++i) a.push_back((i * 7) % 3); for (int i = 0; i < k; ++i) b.push_front(i); a.sort(); a.reverse(); a.splice(a.begin(), b); a.swap(b); b.remove(1); for (int v : b) hsx::observe((uint64_t)v); hsx::observe(a.size()); break; }
    case 12: { hsx::reach("tags"); std::string a = tx("a"); hsx::observe((uint64_t)gumbo_tag_enum(a.c_str())); hsx::observe((uint64_t)gumbo_tagn_enum(a.c_str(), hsx::pick("part", 0, (int)a.size())));
      std::string t = "<" + std::string(hsx::flip("end") ? "/" : "") + tx("tag") + ">"; GumboStringPiece p{t.data(), t.size()}; gumbo_tag_from_original_text(&p); off(t.data(), p.data); hsx::observe(p.length);
      GumboStringPiece q{a.data(), a.size()}, r{t.data(), t.size()}; hsx::observe((uint64_t)gumbo_string_equals(&q, &p)); hsx::observe((uint64_t)gumbo_string_equals_ignore_case(&q, &p)); (void)r;
      hsx::observe(std::string(gumbo_normalized_tagname((GumboTag)hsx::pick("enum", 0, GUMBO_TAG_LAST)))); break; }
    default: { hsx::reach("attributes"); std::string n[2] = {tx("name", 2), tx("name", 2)}, q = tx("wanted", 2); GumboAttribute at[2] = {}; void* data[2] = {&at[0], &at[1]}; for (int i = 0; i < 2; ++i) at[i].name = n[i].c_str(); GumboVector v{data, (unsigned)hsx::pick("attributes", 0, 2), 2};
      auto* f = gumbo_get_attribute(&v, q.c_str()); hsx::observe(f ? (uint64_t)(f - at) + 1 : 0); break; }
  }
}
