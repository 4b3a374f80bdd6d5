// C18: every sequence of TOKENS opening, self-closing and closing tags, braces
// and fillers, with tag names of one free letter or '*' (TWO: of two letters;
// DEEP: a, b or B, without fillers).
#include "parse.h"
#ifdef DEEP
enum { LAST = 4 };
#else
enum { LAST = 5 };
#endif
static std::string name() {
  std::string n(1, hsx::ch("name"));
#ifdef DEEP
  hsx::assume((n[0] == 'a') | (n[0] == 'B') | (n[0] == 'b')); return n;
#endif
  hsx::assume((rh::alpha((unsigned char)n[0])) | (n[0] == '*'));
#ifdef TWO
  if (hsx::flip("longer")) { hsx::assume(n[0] != '*'); n += hsx::ch("second"); hsx::assume(rh::word((unsigned char)n[1])); }
#endif
  return n;
}
extern "C" void hsx_main() {
  std::string text; std::vector<int> open(1, 0), done(1, 0); const int n = hsx::pick("tokens", 0, TOKENS); bool stop = false;
  for (int i = 0; i < n && !stop; ++i) {
    const int k = hsx::pick("token", 0, LAST);
    switch (k) {
      case 0: case 1: {
        text += '<';
#ifdef FLAGS
        static const char* const f[] = {"", "?", "+", "?+", "+?"}; text += f[hsx::pick("marks", 0, 4)];
#endif
        text += name(); text += k ? "/>" : ">"; if (k) { if (!open.back()) ++done.back(); } else ++open.back(); break; }
      case 2: text += "</" + name() + ">"; if (!open.back()) stop = true; else if (!--open.back()) ++done.back(); break;
      case 3: text += '{'; if (!open.back()) stop = true; open.push_back(0); done.push_back(0); break;
      case 4: text += '}'; if (open.size() < 2 || open.back() || !done.back()) stop = true; else { open.pop_back(); done.pop_back(); } break;
      default: text += hsx::flip("comment") ? "#{<\n" : " \n"; break;
    }
  }
  Parsed p; { Exact e(text); run(p, e.p, e.n); }
  hsx::observe(p.how); hsx::observe(p.what);
  hsx::reach(p.how ? "rejected" : "accepted");
  agree(text, p);
}
