// C13: no match, test, capture or pipe writes to anything that existed before
// the call, and a repeated call gives the same answer.
#include "objects.h"
template <class T> HSX_NOINLINE std::string* look(const T& x) { return new std::string(see(x)); }
struct Pure { template <class T> void operator()(std::unique_ptr<T> a, std::unique_ptr<T> b) {
  hsx_freeze(); std::string* first = look(*a); hsx_thaw();
  hsx_freeze(); std::string* other = look(*b); hsx_thaw();
  hsx_freeze(); std::string* again = look(*a); hsx_thaw();
  hsx::observe(*first);
  hsx::check(eqs(*first, *again), "a repeated call after any other gives the same answer");
  delete first; delete other; delete again;
} };
#ifdef REPEAT
// the same answer, however often the question is put, and as often to a copy
struct Often { template <class T> void operator()(std::unique_ptr<T> a, std::unique_ptr<T>) {
  std::unique_ptr<std::string> first(look(*a)); hsx::observe(*first); bool ok = true;
  for (int i = 0; i < REPEAT; ++i) { std::unique_ptr<std::string> again(look(*a)); ok = ok & eqs(*first, *again); }
  hsx::check(ok, "the answer does not depend on how often it has been asked for");
} };
#endif
#ifdef CHANGED
// every answer depends on the document as it is now, not on what was seen at
// the same addresses before: the change leads to the answer of a fresh copy
static void changed(hsx::Tree& t, int how) {
  auto* p = g_node->parent;
  switch (how) {
    case 0: break;
    case 1: t.element(p, GUMBO_TAG_A); break;
    case 2: g_node->v.element.tag = GUMBO_TAG_B; break;
    case 3: t.attr(g_node, "e", "ab"); break;
    case 4: const_cast<char*>(((GumboAttribute*)g_node->v.element.attributes.data[0])->value)[0] = 'a'; break;
    case 5: t.element(g_node, GUMBO_TAG_I); break;
    case 6: t.text(g_node, "ab"); break;
    default: const_cast<char*>(((GumboNode*)g_other->v.element.children.data[0])->v.text.text)[0] = 'b';
  }
}
struct Fresh { int how; template <class T> void operator()(std::unique_ptr<T> a, std::unique_ptr<T>) {
  const std::string value = hsx::text("value", 1);
  const bool order = hsx::flip("other node last");
  hsx::Tree t; scene(t, value); g_otherFirst = order; std::string* before = look(*a); g_otherFirst = !order; changed(t, how); hsx_freeze(); std::string* now = look(*a); hsx_thaw();
  hsx::Tree u; scene(u, value); changed(u, how); std::string* fresh = look(*a);
  hsx::Tree o; scene(o, value); std::string* old = look(*a);
  hsx::observe(*now); hsx::check(eqs(*now, *fresh), "the answer is the one for the document as it is now");
  hsx::check(eqs(*old, *before), "the answer for another document with the old contents is the old one");
  if (!eqs(*old, *fresh)) hsx::reach("the change shows");
  delete before; delete now; delete fresh; delete old;
} };
#endif
extern "C" void hsx_main() {
#ifdef REPEAT
  hsx::Tree s; scene(s, 2); pairs(hsx::pick("class", 0, 24), hsx::pick("a", 0, 2), 0, Often()); hsx::reach("done"); return;
#endif
#ifdef CHANGED
  pairs(hsx::pick("class", 0, 24), hsx::pick("a", 0, 2), 0, Fresh{hsx::pick("change", 0, 7)}); hsx::reach("done"); return;
#endif
  hsx::Tree t; scene(t, 2);
  const int ka = hsx::pick("a", 0, 2), kb = hsx::pick("b", 0, 2);
  pairs(hsx::pick("class", 0, 24), ka, kb, Pure());
  hsx::reach("done");
}
