// An independent reader of hext texts: what is written there, or where and how
// the text stops being hext.  Works byte by byte; keeps no scanner tables.
#pragma once
#include "hsx.h"
#include <memory>
#include <vector>
namespace rh {
struct Re { std::string src; bool icase = false, collate = false; };
enum TraitKind { T_EMPTY, T_CHILDCOUNT, T_ATTRCOUNT, T_NTHCHILD, T_NTHLASTCHILD, T_NTHOFTYPE, T_NTHLASTOFTYPE, T_FIRSTCHILD, T_FIRSTOFTYPE, T_LASTCHILD, T_LASTOFTYPE, T_ONLYCHILD, T_ONLYOFTYPE, T_TYPEMATCHES, T_NOT };
struct Trait { int kind = 0; int step = 0, shift = 0; Re re; std::vector<Trait> list; };
enum PipeKind { P_TRIM, P_COLLAPSE, P_LOWER, P_UPPER, P_PREPEND, P_APPEND, P_FILTER, P_REPLACE };
struct Pipe { int kind = 0; bool arg = false; std::string lit; Re re; };
enum Op { O_EXISTS, O_WORDS, O_EQUALS, O_BEGINS, O_CONTAINS, O_ENDS, O_REGEX, O_CAPTURE };
struct Pattern { int builtin = -1; std::string attr; int op = O_EXISTS; std::string lit; Re re; bool neg = false, optional = false; std::string var; std::vector<Pipe> pipes; };
struct Rule { std::string tag; bool optional = false, greedy = false; std::vector<Trait> traits; std::vector<Pattern> patterns; std::vector<Rule> kids; std::vector<std::vector<Rule>> groups; };
enum Outcome { OK, UNEXPECTED, PREMATURE, NUMBER, STRUCTURE, CLOSING, MISSING };
struct Stop { Outcome o; };
inline bool space(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5u); }
inline bool alpha(int c) { return (unsigned)((c | 32) - 'a') < 26u; }
inline bool digit(int c) { return (unsigned)(c - '0') < 10u; }
inline bool word(int c) { return alpha(c) | digit(c) | (c == '-') | (c == '_'); }
struct Reader {
  const std::string& s; size_t i = 0; Outcome outcome = OK; std::vector<Rule> rules;
  explicit Reader(const std::string& text) : s(text) {}
  // is the position at a byte; and which (as unsigned char)
  bool end() const { return i >= s.size(); }
  int at() const { return (unsigned char)s[i]; }
  [[noreturn]] void bad() { throw Stop{end() ? PREMATURE : UNEXPECTED}; }
  bool is(char c) const { return !end() && s[i] == c; }
  bool take(char c) { if (!is(c)) return false; ++i; return true; }
  void need(char c) { if (!take(c)) bad(); }
  // exactly one of the words, none of which is a prefix of another
  int oneOf(const std::vector<const char*>& words) {
    std::vector<int> left; for (size_t k = 0; k < words.size(); ++k) left.push_back((int)k);
    for (size_t n = 0;; ++n, ++i) {
      for (int k : left) if (!words[k][n]) return k;
      std::vector<int> next; if (!end()) for (int k : left) if (words[k][n] == s[i]) next.push_back(k);
      if (next.empty()) bad();
      left = next;
    }
  }
  std::string quoted() {
    if (!is('"') && !is('\'')) bad();
    const char q = s[i++]; std::string lit; bool escape = false;
    for (;; ++i) { if (end()) bad(); if (s[i] == q && !escape) { ++i; return lit; } escape = s[i] == '\\'; lit += s[i]; }
  }
  Re regex() {
    Re r; if (!is('/') && !is('"') && !is('\'')) bad();
    const char q = s[i++]; bool escape = false;
    for (;; ++i) { if (end()) bad(); if (s[i] == q && !escape) { ++i; break; } escape = s[i] == '\\'; r.src += s[i]; }
    for (;;) { if (take('i')) r.icase = true; else if (take('c')) r.collate = true; else return r; }
  }
  // digits up to (not including) the next byte; the value is judged once that byte is known to be one of `after`
  int number(bool neg, const char* after) {
    if (end() || !digit(at())) bad();
    long v = 0; bool big = false;
    while (!end() && digit(at())) { v = v * 10 + (at() - '0'); if (v > 2147483648L) { big = true; v = 2147483649L; } ++i; }
    if (end()) bad();
    bool fits = false; for (const char* p = after; *p; ++p) fits = fits || is(*p); if (!fits) bad();
    if (neg) v = -v;
    if (big || v > 2147483647L || v < -2147483648L) throw Stop{NUMBER};
    return (int)v;
  }
  void nth(Trait& t) {
    if (is('e')) { oneOf({"even"}); t.step = 2; t.shift = 0; return; }
    if (is('o')) { oneOf({"odd"}); t.step = 2; t.shift = 1; return; }
    const bool neg = take('-'); t.shift = number(neg, "n)"); t.step = 0;
    if (!take('n')) return;
    t.step = t.shift; t.shift = 0;
    if (is('+') || is('-')) { const bool n = is('-'); ++i; t.shift = number(n, ")"); }
  }
  Trait trait(bool inner) {
    static const char* const names[] = {"empty", "child-count(", "attribute-count(", "nth-child(", "nth-last-child(", "nth-of-type(", "nth-last-of-type(", "first-child", "first-of-type", "last-child", "last-of-type", "only-child", "only-of-type", "type-matches(", "not("};
    std::vector<const char*> w(names, names + (inner ? 14 : 15)); Trait t; t.kind = oneOf(w);
    switch (t.kind) {
      case T_CHILDCOUNT: case T_ATTRCOUNT: t.shift = number(false, ")"); need(')'); break;
      case T_NTHCHILD: case T_NTHLASTCHILD: case T_NTHOFTYPE: case T_NTHLASTOFTYPE: nth(t); need(')'); break;
      case T_TYPEMATCHES: t.re = regex(); need(')'); break;
      case T_NOT: do { need(':'); t.list.push_back(trait(true)); } while (is(':')); need(')'); break;
      default: break;
    }
    return t;
  }
  void capture(Pattern& p) {
    p.op = O_CAPTURE;
    for (;;) {
      need(':');
      if (is('"') || is('\'')) { p.var = quoted(); return; }
      std::string w; while (!end() && (word(at()) || is('.'))) w += s[i++];
      if (w.empty()) bad();
      if (!is(':') && !is('(')) { p.var = w; return; }
      Pipe q;
      if (is(':')) {
        if (w == "trim") q.kind = P_TRIM; else if (w == "collapsews") q.kind = P_COLLAPSE; else if (w == "tolower") q.kind = P_LOWER; else if (w == "toupper") q.kind = P_UPPER; else bad();
      } else {
        q.arg = true;
        if (w == "trim") q.kind = P_TRIM; else if (w == "prepend") q.kind = P_PREPEND; else if (w == "append") q.kind = P_APPEND; else if (w == "filter") q.kind = P_FILTER; else if (w == "replace") q.kind = P_REPLACE; else bad();
        ++i;
        if (q.kind == P_FILTER) q.re = regex();
        else if (q.kind == P_REPLACE) { q.re = regex(); while (!end() && space(at())) ++i; need(','); while (!end() && space(at())) ++i; q.lit = quoted(); }
        else q.lit = quoted();
        need(')'); if (!is(':')) bad();
      }
      p.pipes.push_back(q);
    }
  }
  // the '=' family; the position is at its first byte
  void test(Pattern& p) {
    if (take('=')) {
      if (take('~')) { p.op = O_REGEX; p.re = regex(); }
      else if (take('=')) { p.op = O_EQUALS; p.lit = quoted(); }
      else { p.op = O_WORDS; p.lit = quoted(); }
    } else {
      if (take('^')) p.op = O_BEGINS; else if (take('*')) p.op = O_CONTAINS; else { need('$'); p.op = O_ENDS; }
      need('='); p.lit = quoted();
    }
    p.neg = take('!');
  }
  bool operatorAhead() const { return is('=') || is('^') || is('*') || is('$'); }
  Pattern pattern() {
    Pattern p;
    if (take('@')) {
      p.builtin = oneOf({"text", "inner-html", "strip-tags"});
      if (is(':')) capture(p); else if (operatorAhead()) test(p); else bad();
    } else {
      while (!end() && word(at())) p.attr += s[i++];
      if (is(':')) { capture(p); p.optional = take('?'); } else if (operatorAhead()) test(p); else p.neg = take('!');
    }
    return p;
  }
  // after "<": a rule up to its '>' or '/>'; returns whether it is closed already
  bool open(Rule& r) {
    for (;;) { if (take('?')) r.optional = true; else if (take('+')) r.greedy = true; else break; }
    if (take('*')) r.tag = "*";
    else { if (end() || !alpha(at())) bad(); while (!end() && word(at())) r.tag += s[i++]; }
    if (end() || !(space(at()) || is(':') || is('/') || is('>'))) bad();
    while (take(':')) r.traits.push_back(trait(false));
    for (;;) {
      bool gap = false; while (!end() && space(at())) { ++i; gap = true; }
      if (end()) bad();
      if (take('>')) return false;
      if (take('/')) { need('>'); return true; }
      if (!gap || !(alpha(at()) || is('@'))) bad();
      r.patterns.push_back(pattern());
    }
  }
  // nesting: each level is a list of rules being written; open rules are closed by tag or brace
  struct Level { std::vector<Rule> done; std::vector<Rule> open; };
  void finish(Level& l) {
    Rule r = std::move(l.open.back()); l.open.pop_back();
    (l.open.empty() ? l.done : l.open.back().kids).push_back(std::move(r));
  }
  // what happens at a byte is decided once the byte after it is seen to be acceptable
  void read(bool (*sameTag)(const std::string&, const std::string&)) {
    try {
      std::vector<Level> levels(1); enum { NONE, PUSH, POP, DONE } pending = NONE;
      for (;;) {
        const bool e = end();
        if (!e && !(space(at()) || is('#') || is('{') || is('}') || is('<'))) bad();
        if (pending == PUSH) { if (levels.back().open.empty()) throw Stop{STRUCTURE}; levels.emplace_back(); }
        if (pending == POP) {
          if (levels.size() < 2 || !levels.back().open.empty() || levels.back().done.empty()) throw Stop{STRUCTURE};
          auto g = std::move(levels.back().done); levels.pop_back(); levels.back().open.back().groups.push_back(std::move(g));
        }
        if (pending == DONE) finish(levels.back());
        pending = NONE;
        if (e) break;
        if (take('#')) { for (;;) { if (end()) bad(); if (take('\n')) break; ++i; } continue; }
        if (take('{')) { pending = PUSH; continue; }
        if (take('}')) { pending = POP; continue; }
        if (!take('<')) { ++i; continue; }
        if (take('/')) {
          std::string name; if (take('*')) name = "*"; else { if (end() || !alpha(at())) bad(); while (!end() && word(at())) name += s[i++]; }
          if (!is('>')) bad();
          if (levels.back().open.empty() || !sameTag(levels.back().open.back().tag, name)) throw Stop{CLOSING};
          ++i; finish(levels.back()); continue;
        }
        Rule r; if (end() || !(is('?') || is('+') || is('*') || alpha(at()))) bad();
        const bool closed = open(r); levels.back().open.push_back(std::move(r)); if (closed) pending = DONE;
      }
      if (levels.size() > 1) throw Stop{STRUCTURE};
      if (!levels[0].open.empty()) throw Stop{MISSING};
      rules = std::move(levels[0].done);
    } catch (const Stop& x) { outcome = x.o; }
  }
};
// ---- messages
inline std::string dec(long v) { return std::to_string(v); }
inline std::string charName(char c) {
  switch (c) { case '\n': return "[newline]"; case '\t': return "[tab]"; case '\r': return "[carriage-return]"; case ' ': return "[space]"; case 0: return "[nullbyte]"; default: break; }
  if (c > ' ' && c < 127) return std::string(1, c);
  return "[ascii: " + dec((int)(signed char)c) + "]";
}
// the message for a text that cannot be continued at position p
inline std::string message(const std::string& s, size_t p) {
  const bool end = p >= s.size(); size_t line = 1, col = 1; bool ascii = true;
  for (size_t k = 0; k < p; ++k) { if (s[k] == '\n') { ++line; col = 1; } else ++col; }
  for (size_t k = 0; k < s.size(); ++k) if ((signed char)s[k] < 0) ascii = false;
  std::string m = end ? "Premature termination at end of input:\n\n" : "Unexpected character '" + charName(s[p]) + "' at line " + dec(line) + ", char " + dec(col) + ":\n\n";
  const std::string shown = s.substr(0, end || s[p] == '\n' ? p : p + 1); const size_t width = dec(line).size();
  size_t n = 1; std::string cur; auto flush = [&] { const std::string d = dec(n++); m += std::string(width - d.size(), ' ') + d + ": " + cur + "\n"; cur.clear(); };
  for (char c : shown) { if (c == '\n') flush(); else cur += c; }
  flush();
  if (ascii) m += std::string(width + 2 + col - 1, ' ') + "^ here\n";
  return m;
}
}
