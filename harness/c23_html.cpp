// C23: every sequence of construction, move and destruction of Html objects
// against counted stand-ins for libgumbo's parse and destroy.
#include "hsx.h"
#include "hext/Hext.h"
#include <memory>
#include <utility>
#include <vector>
#ifndef STEPS
#define STEPS 4
#endif
#ifndef SLOTS
#define SLOTS 3
#endif
struct Doc { GumboOutput out; GumboNode root; bool alive; const char* buf; size_t len; const GumboOptions* opt; };
#ifdef MANY
static Doc docs[MANY + 1];
#else
static Doc docs[STEPS + 1];
#endif
static int ndocs;
extern "C" GumboOutput* gumbo_parse_with_options(const GumboOptions* o, const char* b, size_t n) { Doc& d = docs[ndocs++]; d.alive = true; d.buf = b; d.len = n; d.opt = o; d.out.document = &d.root; d.out.root = &d.root; return &d.out; }
extern "C" GumboOutput* gumbo_parse(const char* b) { return gumbo_parse_with_options(&kGumboDefaultOptions, b, strlen(b)); }
extern "C" void gumbo_destroy_output(const GumboOptions* o, GumboOutput* g) {
  for (int i = 0; i < ndocs; ++i) if (&docs[i].out == g) { hsx::check(docs[i].alive, "a document is released at most once"); hsx::check(docs[i].opt == o, "a document is released with the options it was created with"); docs[i].alive = false; return; }
  hsx::check(false, "only documents that were parsed are released");
}
static hext::Html make(const char* b) { return hext::Html(b); }
#ifdef MANY
// a growing and shrinking list of many documents
extern "C" void hsx_main() {
  std::vector<hext::Html> v; char text[] = "x"; text[0] = hsx::ch("html"); const int n = MANY;
  for (int i = 0; i < n; ++i) { if (i % 2) v.emplace_back(text); else v.push_back(hext::Html(text, 1)); }
  const int from = hsx::pick("from", 0, 2) * (n / 2 - 1), to = hsx::flip("all the rest") ? n : from + 1;
  bool ok = ndocs == n; for (int i = 0; i < n; ++i) ok = ok && v[(size_t)i].root() == &docs[i].root && docs[i].alive;
  hsx::check(ok, "every document in a growing list is the one it was made of");
  v.erase(v.begin() + from, v.begin() + to); hsx::observe(v.size());
  for (int i = 0, k = 0; i < n; ++i) { const bool gone = i >= from && i < to; ok = ok && docs[i].alive != gone; if (!gone) ok = ok && v[(size_t)k++].root() == &docs[i].root; }
  hsx::check(ok, "exactly the documents removed from a list are released"); hsx::reach("removed");
  v.clear(); for (int i = 0; i < n; ++i) hsx::check(!docs[i].alive, "every document is released at the end");
}
#else
extern "C" void hsx_main() {
  std::unique_ptr<hext::Html> h[SLOTS]; int owns[SLOTS]; for (int& o : owns) o = -1;
  char text[4]; hsx_bytes_(text, 3, "html"); text[3] = 0;
  for (int s = 0; s < STEPS; ++s) {
    int op = hsx::pick("operation", 0, 6), i = hsx::pick("object", 0, SLOTS - 1), j = i;
    if (op >= 3 && op <= 5) { j = hsx::pick("other", 0, SLOTS - 1); if (!h[j]) return; } // an operation on an object that does not exist is no history
    if (op == 2 || op == 4 || op == 5 || op == 6) if (!h[i]) return;
    switch (op) {
      case 0: h[i].reset(new hext::Html(text)); owns[i] = ndocs - 1; hsx::check(docs[owns[i]].buf == text, "the given text is parsed"); { size_t n = docs[owns[i]].len; hsx::check(n <= 3 && text[n] == 0 && (n < 1 || text[0]) && (n < 2 || text[1]) && (n < 3 || text[2]), "the whole text is parsed"); } break;
      case 1: { size_t n = (size_t)hsx::u64("size"); h[i].reset(new hext::Html(text, n)); owns[i] = ndocs - 1; hsx::check(docs[owns[i]].buf == text && docs[owns[i]].len == n, "exactly the given bytes are parsed"); break; }
      case 2: h[i].reset(); owns[i] = -1; break;
      case 3: if (i == j) return; h[i].reset(new hext::Html(std::move(*h[j]))); owns[i] = owns[j]; owns[j] = -1; break;
      case 4: *h[i] = std::move(*h[j]); if (i != j) { owns[i] = owns[j]; owns[j] = -1; } hsx::reach("move assignment"); break;
      case 5: { using std::swap; swap(*h[i], *h[j]); std::swap(owns[i], owns[j]); hsx::reach("swap"); } break;
      default: *h[i] = make(text); owns[i] = ndocs - 1; break;
    }
    for (int k = 0; k < SLOTS; ++k) if (h[k]) hsx::check(h[k]->root() == (owns[k] >= 0 ? &docs[owns[k]].root : nullptr), "an Html knows its own document, a moved-from Html none");
    for (int d = 0; d < ndocs; ++d) { bool owned = false; for (int k = 0; k < SLOTS; ++k) owned = owned || (h[k] && owns[k] == d); hsx::check(docs[d].alive == owned, "a document lives exactly as long as an Html owns it"); }
  }
  for (auto& x : h) x.reset();
  for (int d = 0; d < ndocs; ++d) hsx::check(!docs[d].alive, "every document is released at the end");
  hsx::observe(ndocs);
}
#endif
