// C15/C17: what becomes of a text.  MODE 0: every text of up to LEN bytes.
// MODE 1: every text made of one of the prefixes (one for every state of the
// scanner, see tools/prefixes.cpp) and up to LEN further bytes.  MODE 2:
// prefixes of many lines and columns.
#include "parse.h"
#ifndef LEN
#define LEN 3
#endif
static const char* const prefixTable[] = {
#if MODE == 1
#include "prefixes.inc"
#elif MODE == 2
#define L8 "\n\n\n\n\n\n\n\n"
#define S40 "                                        "
#ifdef LONGEST
"1", "2", "3", "4", "5"
#else
L8, L8 "\n", L8 "\n<a", L8 "\n\n", L8 "#x\n<a b=\"\n", L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 "\n", L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 "\n\n<a>", L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 L8 "\n\n\n\n", S40, S40 "\n" S40 S40 S40 "<a\t", "<a" S40 S40 S40 S40 S40 S40 S40, "# caf\303\251\n<a"
#endif
#elif MODE == 3
"<a b=~/(aaaaaaaaaaa\n", "<a b=~/(aaaaaaaaaaa\n\n/", "<a b=~\"a**\n\naaa\"", "<a\n @text:filter('[\na\n')", "\n\n<a:type-matches(/a\n{/i)", "<a b:replace(/a\n\\/", "<a>\n</bbbbbbbbbbbbbb", "<aaaaaaaaaaaaaa>\n</b"
#else
""
#endif
};
extern "C" void hsx_main() {
  const int count = (int)(sizeof prefixTable / sizeof *prefixTable), block = hsx::pick("block", 0, (count - 1) / 64), which = block * 64 + hsx::pick("prefix", 0, 63); if (which >= count) return;
  std::string text = prefixTable[which];
#ifdef LONGEST
  // LONGEST lines, one line of LONGEST columns, a comment, a value, or blanks in a rule
  switch (which) { case 0: text.assign(LONGEST, '\n'); break; case 1: text.assign(LONGEST, ' '); break; case 2: text = "#" + std::string(LONGEST, 'k') + "\n<a"; break; case 3: text = "<a b='" + std::string(LONGEST, 'k') + "'"; break; default: text = "<a>\n<b" + std::string(LONGEST, '\n') + "c"; }
#endif
  const int n = hsx::pick("length", MODE ? 1 : 0, LEN);
  text += hsx::bytes("text", n);
  // lines and non-ASCII bytes are told apart first: positions and widths stay concrete
  for (size_t i = text.size() - n; i < text.size(); ++i) hsx_concretize_((text[i] == 10) | ((signed char)text[i] < 0) * 2);
  Parsed p; { Exact e(text); run(p, e.p, e.n); }
  hsx::observe(p.how); hsx::observe(p.what);
  hsx::reach(p.how ? "error" : "rule");
#ifdef AGAIN
  // both overloads, and a second parse of the same text
  bool nul = false; for (char c : text) nul = nul | (c == 0);
  if (!nul) { Parsed q; try { q.rule.reset(new hext::Rule(hext::ParseHext(text.c_str()))); } catch (const hext::SyntaxError& e) { q.how = 1; q.what = e.what(); }
    hsx::check(q.how == p.how && eqs(q.what, p.what), "both ways to parse agree, also after an error"); }
  Parsed r; run(r, "<a/>", 4); hsx::check(!r.how && r.rule->get_tag() == hext::HtmlTag::A && !r.rule->next() && !r.rule->child(), "later texts parse as ever");
#else
  agree(text, p);
#endif
}
