// Sizes far beyond the exhaustive bounds: mostly concrete inputs of SIZE
// elements with symbolic values at chosen places. Finds counters, indices and
// buffers that are too narrow.
#include "ref.h"
#ifndef SIZE
#define SIZE 300
#endif
static GumboTag smallTag(const char* n) { uint8_t v = hsx::u8(n); hsx::assume(v < 2); return (GumboTag)(GUMBO_TAG_A + (int)v); }
#if WHAT == 1
// C01: positions beyond SIZE
extern "C" void hsx_main() {
  hsx::Tree t; auto* p = t.element(t.element(t.doc(), GUMBO_TAG_HTML), GUMBO_TAG_DIV);
  const bool last = hsx::flip("last"), ofType = hsx::flip("of type"); const GumboTag odd = smallTag("tag");
  std::vector<GumboNode*> kids;
  for (int i = 0; i < SIZE; ++i) { kids.push_back(t.element(p, i == SIZE / 2 ? odd : GUMBO_TAG_A)); if (i % 50 == 7) t.text(p, "x"); }
  const int k = hsx::flip("first subject") ? 3 : SIZE - 3;
  const int step = hsx::flip("single") ? 0 : hsx::flip("backwards") ? -7 : 300, shift = hsx::i32("shift");
  using M = hext::NthChildMatch; M::Option o = last ? M::Last : M::First; if (ofType) o = o | M::OfType;
  const bool got = M(step, shift, o).matches(kids[k]); hsx::observe(got);
  long pos = last ? SIZE - k : k + 1; const bool between = last ? SIZE / 2 >= k : SIZE / 2 <= k;
  if (ofType && between && odd != GUMBO_TAG_A) --pos; pos = (long)hsx_concretize_((uint64_t)pos);
  const long d = pos - (long)shift; bool want;
  if (step == 0) want = d == 0; else if (step > 0) want = d >= 0 && d % step == 0; else want = d <= 0 && -d % -(long)step == 0;
  hsx::check(got == want, "positions count exactly, however many siblings there are");
  if (want) hsx::reach("match");
}
#elif WHAT == 2
// C02: counts beyond SIZE
extern "C" void hsx_main() {
  hsx::Tree t; auto* p = t.element(t.element(t.doc(), GUMBO_TAG_HTML), GUMBO_TAG_DIV);
  static const int sizes[] = {SIZE, 256, 257, 258, 65536, 65537, 65538}; const int size = sizes[hsx::pick("size", 0, 6)];
  const GumboTag odd = smallTag("tag"); const int at = hsx::flip("odd one first") ? 0 : size - 1; GumboNode* subject = nullptr;
  for (int i = 0; i < size; ++i) { auto* n = t.element(p, i == at ? odd : GUMBO_TAG_A); if (i == at) subject = n; if (i % 50 == 7) t.text(p, "x"); }
  for (int i = 0; i < size; ++i) t.attr(p, "a" + std::string(1, (char)('a' + i % 26)), "");
  const unsigned n = hsx::u32("count");
  const bool c = hext::ChildCountMatch(n).matches(p), a = hext::AttributeCountMatch(n).matches(p), o = hext::OnlyChildMatch(hext::OnlyChildMatch::OfType).matches(subject);
  hsx::observe(c); hsx::observe(a); hsx::observe(o);
  hsx::check(c == (n == (unsigned)size), "child-count is exact, however many children there are");
  hsx::check(a == (n == (unsigned)size), "attribute-count is exact, however many attributes there are");
  hsx::check(o == (odd != GUMBO_TAG_A), "only-of-type looks at every sibling");
  hsx::check(!hext::OnlyChildMatch(hext::OnlyChildMatch::AnyType).matches(subject), "only-child looks at every sibling");
  if (c) hsx::reach("exact count");
}
#elif WHAT == 3
// C04: long values and literals
extern "C" void hsx_main() {
  std::string v(SIZE, 'a'), w(SIZE, 'a'); const char c = hsx::ch("value byte"), d = hsx::ch("literal byte"); hsx::assume(c != 0 && d != 0 && d != ' ' && c != ' ');
  static const int places[] = {0, 1, SIZE / 2, SIZE - 2, SIZE - 1}; const int at = places[hsx::pick("value place", 0, 4)], al = places[hsx::pick("literal place", 0, 4)];
  const int llen = hsx::flip("same length") ? SIZE : SIZE - 1;
  v[at] = c; w[al] = d; const std::string l = w.substr(0, llen);
  auto eq = [&](int off) { bool r = true; for (int i = 0; i < llen; ++i) r = r & (v[off + i] == l[i]); return r; };
  const bool whole = llen == SIZE && eq(0), begins = eq(0), ends = eq(SIZE - llen);
  hsx::check(hext::EqualsTest(l).test(v.c_str()) == whole, "equality of long values");
  hsx::check(hext::BeginsWithTest(l).test(v.c_str()) == begins, "prefix of long values");
  hsx::check(hext::EndsWithTest(l).test(v.c_str()) == ends, "suffix of long values");
  hsx::check(hext::ContainsTest(l).test(v.c_str()) == (begins | ends), "substring of long values");
  const std::string words = "x " + v + " y"; hsx::check(hext::ContainsWordsTest("y " + l).test(words.c_str()) == whole, "words of long values");
  if (whole) hsx::reach("equal"); if (begins && !whole) hsx::reach("prefix only");
}
#elif WHAT == 4
// C06: long texts
static bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\r'); }
extern "C" void hsx_main() {
  std::string s(SIZE, 'b'); const char a = hsx::ch("first"), m = hsx::ch("middle"), z = hsx::ch("last"); s[0] = a; s[SIZE / 2] = m; s[SIZE - 1] = z;
  std::string want = s, got; std::unique_ptr<hext::StringPipe> p;
  switch (hsx::pick("pipe", 0, 6)) {
    case 6: { // a long run of one kind of white space, around any byte
      static const char kinds[] = " \t\n\f\r"; const char k = kinds[hsx::pick("kind", 0, 4)];
      static const int lengths[] = {SIZE - 2, 127, 128, 255, 256, 257, 512, 1024, 65536}; const int w = lengths[hsx::pick("length", 0, 8)]; const bool split = hsx::flip("byte in the middle");
      s.clear(); s += a; s.append((size_t)w, k); if (split) { s += m; s.append((size_t)w, k); } s += z; want.clear(); p.reset(new hext::CollapseWsPipe());
      for (const char c : {a, split ? m : ' ', z}) if (!ws(c)) { if (!want.empty()) want += ' '; want += c; } break; }
    case 5: { std::string set; for (int i = 0; i < 300; ++i) set += (char)('A' + i % 20); const bool late = hsx::flip("in the set"); if (late) set += "xy"; p.reset(new hext::TrimPipe(set)); auto in = [&](char k) { return (k >= 'A' && k <= 'T') || (late && (k == 'x' || k == 'y')); }; if (in(z)) want.erase(want.size() - 1); if (in(a)) want.erase(0, 1); break; }
    case 0: p.reset(new hext::TrimPipe("xy")); if (a == 'x' || a == 'y') want.erase(0, 1); if (z == 'x' || z == 'y') want.erase(want.size() - 1); break;
    case 1: p.reset(new hext::CollapseWsPipe()); if (ws(m)) want[SIZE / 2] = ' '; if (ws(a)) want.erase(0, 1); if (ws(z)) want.erase(want.size() - 1); break;
    case 2: p.reset(new hext::CasePipe(hext::CasePipe::ToUpper)); for (char& c : want) c = (c >= 'a' && c <= 'z') ? c - 32 : c; break;
    case 3: p.reset(new hext::AppendPipe(s)); want = want + s; break;
    default: p.reset(new hext::PrependPipe(s)); want = s + want; break;
  }
  got = p->pipe(s); hsx::observe(got.size()); hsx::check(got.size() == want.size(), "length of the piped long text");
  bool eq = true; for (size_t i = 0; i < want.size(); ++i) eq = eq & (got[i] == want[i]); hsx::check(eq, "pipes on long texts");
}
#elif WHAT == 5
// C07/C08: deep nesting, many children, many attributes
extern "C" void hsx_main() {
  if (hsx::flip("attributes")) {
    hsx::Tree t; auto* root = t.element(t.doc(), GUMBO_TAG_DIV); auto* n = t.element(root, GUMBO_TAG_B); std::string want = "<b"; const char c = hsx::ch("byte"); hsx::assume((c != 0) & (c != '"') & (c != '&')); const int at = hsx::flip("late") ? SIZE - 1 : SIZE / 2;
    for (int i = 0; i < SIZE; ++i) { const std::string a = "k" + std::to_string(i), v(1, i == at ? c : 'v'); t.attr(n, a.c_str(), v); want += " " + a + "=\"" + v + "\""; }
    want += "></b>"; const std::string got = hext::InnerHtmlBuiltin(root); bool ok = got.size() == want.size(); if (ok) for (size_t i = 0; i < want.size(); ++i) ok = ok & (got[i] == want[i]);
    hsx::check(ok, "every attribute is serialised, however many there are"); hsx::reach("attributes"); return;
  }
  if (hsx::flip("white space")) {
    // a long run of white space: one text, or one text in each of many elements
    hsx::Tree t; auto* root = t.element(t.doc(), GUMBO_TAG_DIV); static const char kinds[] = " \t\n\f\r"; const char k = kinds[hsx::pick("kind", 0, 4)], c = hsx::ch("byte"); hsx::assume(c != 0);
    static const int lengths[] = {SIZE, 128, 255, 256, 257, 512}; const int len = lengths[hsx::pick("length", 0, 5)]; const std::string w((size_t)len, k); t.text(root, "x" + w);
    if (hsx::flip("many")) for (int i = 0; i < len; ++i) t.text(t.element(root, i % 2 ? GUMBO_TAG_B : GUMBO_TAG_P), std::string(1, k)); t.text(root, std::string(1, c)); t.text(root, w + "y" + w);
    std::string want = "x "; if (!((c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\r'))) { want += c; want += ' '; } want += 'y';
    const std::string got = hext::TextBuiltin(root); bool ok = got.size() == want.size(); if (ok) for (size_t i = 0; i < want.size(); ++i) ok = ok & (got[i] == want[i]);
    hsx::check(ok, "white space collapses, however long it is"); hsx::reach("white space"); return;
  }
  hsx::Tree t; auto* root = t.element(t.doc(), GUMBO_TAG_DIV);
  const char c = hsx::ch("byte"); hsx::assume(c != 0 && c != ' ' && c != '\t' && c != '\n' && c != '\f' && c != '\r'); std::string strip, text, html;
  const bool deep = hsx::flip("deep"), block = hsx::flip("block");
  const GumboTag tag = block ? GUMBO_TAG_P : GUMBO_TAG_B; const std::string open = block ? "<p>" : "<b>", close = block ? "</p>" : "</b>";
  if (deep) {
    auto* n = root; for (int i = 0; i < SIZE; ++i) { n = t.element(n, tag); html += open; }
    t.text(n, std::string(1, c)); strip = text = std::string(1, c); html += strip; for (int i = 0; i < SIZE; ++i) html += close;
  } else {
    for (int i = 0; i < SIZE; ++i) { auto* n = t.element(root, tag); const std::string x(1, i == SIZE - 1 ? c : 'k'); t.text(n, x); strip += x; if (block && !text.empty()) text += ' '; text += x; html += open + x + close; }
  }
  auto same = [](const std::string& a, const std::string& b) { bool r = a.size() == b.size(); if (r) for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; };
  hsx::check(same(hext::StripTagsBuiltin(root), strip), "@strip-tags of large trees");
  hsx::check(same(hext::TextBuiltin(root), text), "@text of large trees");
  hsx::check(same(hext::InnerHtmlBuiltin(root), html), "@inner-html of large trees");
  hsx::observe(html.size()); hsx::reach("done");
}
#else
// C09/C10/C12: deep and wide documents
static int run(const hext::Rule& r, const GumboNode* n, uint64_t budget, hext::Result& out) { try { out = r.extract(n, budget); return 0; } catch (const hext::MaxSearchError&) { return 1; } }
extern "C" void hsx_main() {
  ref::World w; auto* root = w.add(nullptr, true, GUMBO_TAG_HTML);
  const bool deep = hsx::flip("deep"); const int at = hsx::flip("odd one late") ? SIZE - 2 : SIZE / 2; auto* n = root;
  for (int i = 0; i < SIZE; ++i) { auto* k = w.add(deep ? n : root, true, i == at ? smallTag("tag") : GUMBO_TAG_ADDRESS); if (deep) n = k; }
  ref::Seq s(1); s[0].idx = 0; s[0].tag = GUMBO_TAG_A;
  switch (hsx::pick("rule", 0, 3)) {
    case 0: break;
    case 1: { ref::Rule o; o.idx = 1; o.tag = GUMBO_TAG_ABBR; ref::Rule c; c.idx = 2; c.tag = GUMBO_TAG_ADDRESS; o.nested.push_back({s[0]}); s[0] = o; s[0].tag = GUMBO_TAG_HTML; break; }
    case 2: { ref::Rule c; c.idx = 1; c.tag = GUMBO_TAG_ADDRESS; if (deep) s[0].kids.push_back(c); else s.push_back(c); break; }
    default: { s[0].optional = true; ref::Rule c; c.idx = 1; c.tag = GUMBO_TAG_ADDRESS; c.greedy = !deep; s.insert(s.begin() + 1, c); break; }
  }
  const hext::Rule r = ref::real(s); hext::Result all; run(r, root->g, 0, all);
  ref::Matcher m; const auto want = m.search(s, {root});
  hsx::observe(all.size());
  hsx::check(ref::same(all, want, w), "results on large documents are exactly the occurrences");
  const uint64_t budget = hsx::u64("budget"); hsx::assume(budget != 0); hext::Result part;
  const int o = run(r, root->g, budget, part);
  hsx::check((o == 1) == (budget <= (uint64_t)m.lists), "the budget is exact on large documents");
  if (!o) { hsx::reach("enough"); hsx::check(part.size() == all.size(), "a sufficient budget gives everything"); } else hsx::reach("exhausted");
}
#endif
