// C06: every string pipe alone, and chains of pipes, as exact string functions.
#include "values.h"
#include "hext/Hext.h"
#include <memory>
#include <vector>
#ifndef LEN
#define LEN 4
#endif
#ifndef CHAIN
#define CHAIN 1
#endif
#ifndef ARG
#define ARG 2
#endif
using namespace val;
extern "C" void hsx_main() {
#ifdef LONGCHAIN
  const std::string in = hsx::bytes("text", LEN); const int at = hsx::range("place of the free pipe", 0, LONGCHAIN - 1);
#else
  const std::string in = hsx::bytes("text", hsx::pick("length", 0, LEN));
#endif
  std::unique_ptr<hext::StringPipe> chain; std::string want = in;
#ifdef LONGCHAIN
  const int n = LONGCHAIN;
#else
  const int n = hsx::pick("pipes", 1, CHAIN); std::unique_ptr<hext::StringPipe> rest; const bool parts = n > 2 && hsx::flip("put together from the end");
#endif
  for (int i = 0; i < n; ++i) {
    std::unique_ptr<hext::StringPipe> p;
#ifdef LONGCHAIN
    const int kind = i == at ? hsx::pick("pipe", 0, 6) : 7;
#else
    const int kind = hsx::pick("pipe", 0, 6);
#endif
    switch (kind) {
      case 7: { const std::string a(1, (char)(i % 5 == 2 ? ' ' : 'a' + i % 26)); if (i % 2) { p.reset(new hext::PrependPipe(a)); want = a + want; } else { p.reset(new hext::AppendPipe(a)); want = want + a; } break; }
      case 0: p.reset(new hext::TrimPipe()); want = trim(want, " "); hsx::reach("trim"); break;
      case 1: { std::string set = hsx::bytes("set", hsx::pick("set size", 0, ARG)); p.reset(new hext::TrimPipe(set)); want = trim(want, set); hsx::reach("trim set"); break; }
      case 2: p.reset(new hext::CollapseWsPipe()); want = collapse(want); hsx::reach("collapse"); break;
      case 3: p.reset(new hext::CasePipe(hext::CasePipe::ToLower)); want = lower(want); hsx::reach("lower"); break;
      case 4: p.reset(new hext::CasePipe(hext::CasePipe::ToUpper)); want = upper(want); hsx::reach("upper"); break;
      case 5: { std::string a = hsx::bytes("prefix", hsx::pick("prefix length", 0, ARG)); p.reset(new hext::PrependPipe(a)); want = a + want; hsx::reach("prepend"); break; }
      default: { std::string a = hsx::bytes("suffix", hsx::pick("suffix length", 0, ARG)); p.reset(new hext::AppendPipe(a)); want = want + a; hsx::reach("append"); break; }
    }
#ifndef LONGCHAIN
    // a chain may also be appended to a pipe as a whole
    if (parts && i) { if (!rest) rest = std::move(p); else rest->append(std::move(p)); if (i + 1 == n) chain->append(std::move(rest)); continue; }
#endif
    if (!chain) chain = std::move(p); else chain->append(std::move(p));
  }
  const std::string got = chain->pipe(in);
  hsx::observe(got);
  hsx::check(got.size() == want.size(), "length of the piped text");
  bool eq = true; for (size_t i = 0; i < want.size(); ++i) eq = eq & (got[i] == want[i]);
  hsx::check(eq, "piped text is the composition of the documented functions, left to right");
#ifdef COPY
  auto copy = chain->clone(); chain.reset();
  const std::string again = copy->pipe(in); bool same = again.size() == got.size(); if (same) for (size_t i = 0; i < got.size(); ++i) same = same & (again[i] == got[i]);
  hsx::check(same, "a copied chain outlives the original and computes the same");
#endif
}
