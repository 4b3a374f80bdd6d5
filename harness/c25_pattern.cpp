// C25: the rule parsed from a pattern tests, captures and pipes what is written.
// MODE 0: tests.  MODE 1: captures.  MODE 2: pipes.
#include "meaning.h"
#ifndef LEN
#define LEN 2
#endif
// a literal in either kind of quotes, as written
static std::string quoted(int lo, int n) {
  const char q = hsx::flip("single quotes") ? '\'' : '"'; std::string b = hsx::bytes("literal", hsx::pick("literal length", lo, n));
  return q + b + q;
}
// one of the gaps, at most, is any two blanks
static int g_gap, g_free;
static std::string gap() { if (g_gap++ != g_free) return " "; std::string g = hsx::bytes("blank", 2); for (char c : g) hsx::assume(rh::space((unsigned char)c)); return g; }
static const char* const builtins[] = {"@text", "@inner-html", "@strip-tags"};
extern "C" void hsx_main() {
  hsx::Tree t; auto* html = t.element(t.doc(), GUMBO_TAG_HTML); auto* top = t.element(html, GUMBO_TAG_DIV);
  auto* n = t.element(top, GUMBO_TAG_A); auto* m = t.element(top, GUMBO_TAG_B);
  const std::string v = hsx::text("value", hsx::pick("value length", 0, VLEN));
  t.attr(n, "ab", v); t.attr(n, "c", "xY"); t.text(n, "p q"); t.attr(m, "b", "ab"); t.text(t.element(m, GUMBO_TAG_I), v.empty() ? "z" : "p");
  g_gap = 0; g_free = MODE == 2 ? 9 : hsx::pick("free gap", 0, 3);
  std::string text = "<*" + gap();
#if MODE == 0
  static const char* const ops[] = {"", "=", "==", "^=", "*=", "$="};
  static const char* const names[] = {"ab", "b", "AB", "b-_1"};
  const int what = hsx::pick("on", 0, 6), op = hsx::pick("operator", what < 3 ? 1 : 0, 5);
  text += what < 3 ? builtins[what] : names[what - 3]; text += ops[op]; if (op) text += quoted(op == 2 ? 0 : 1, LEN); if (hsx::flip("negated")) text += "!";
  text += gap() + "c:c?" + " @text:t" + (g_free == 2 ? gap() : "") + "/>";
#elif MODE == 1
  static const char* const names[] = {"ab", "b", "c", "@text", "@inner-html", "@strip-tags"};
  const int k = hsx::pick("patterns", 1, 2);
  for (int i = 0; i < k; ++i) {
    const int what = hsx::pick("capture", 0, 5);
    text += names[what]; text += ":";
    const int name = hsx::pick("name", 0, k > 1 ? 1 : 3);
    switch (name) { case 0: text += "n.-_1"; break; case 1: text += "\" \\\"'\""; break; case 2: text += quoted(1, LEN); break; default: { std::string b = hsx::bytes("name", LEN); for (char c : b) hsx::assume((rh::word((unsigned char)c)) | (c == '.')); text += b; } }
    if (what < 3 && hsx::flip("optional")) text += "?";
    if (i + 1 < k || g_free == 3) text += gap();
  }
  text += "/>";
#else
  text += hsx::flip("attribute") ? "ab" : "@text";
  const int k = hsx::pick("pipes", 0, PIPES);
  for (int i = 0; i < k; ++i) switch (hsx::pick("pipe", 0, 7)) {
    case 0: text += ":trim"; break;
    case 1: text += ":trim(" + quoted(1, LEN) + ")"; break;
    case 2: text += ":collapsews"; break;
    case 3: text += ":tolower"; break;
    case 4: text += ":toupper"; break;
    case 5: text += ":prepend(" + quoted(1, LEN) + ")"; break;
    case 6: text += ":append(" + quoted(1, LEN) + ")"; break;
    default: text += ":replace(/p/," + std::string(hsx::flip("blank") ? " " : "") + (hsx::flip("empty") ? "''" : "\"r\"") + ")"; break;
  }
  text += ":n/>";
#endif
  Parsed p; run(p, text.data(), text.size());
  rh::Reader ref(text); ref.read(closes);
  hsx::observe(p.how);
  if (p.how) hsx::reach("rejected");
  hsx::check((p.how == 0) == (ref.outcome == rh::OK), "accepted exactly when it is well-formed hext");
  if (p.how) return;
#ifdef NONUL
  for (auto& x : ref.rules.at(0).patterns) for (char c : x.lit) if (c == 0) return;
#endif
  const auto got = p.rule->extract(top);
  std::vector<mean::Pairs> want; mean::results(ref.rules.at(0), {top}, want);
  hsx::observe(got.size());
  if (!want.empty()) hsx::reach("selects nodes");
  hsx::check(mean::sameResult(got, want), "tests, captures and pipes are the ones written");
}
