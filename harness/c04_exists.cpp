// C04/C03: attribute existence, its negation, and look-up by name whatever the case.
#include "tree.h"
#include "hext/Hext.h"
#ifndef NLEN
#define NLEN 3
#endif
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" void hsx_main() {
  hsx::Tree t; auto* n = t.element(t.doc(), GUMBO_TAG_A);
  const int na = hsx::pick("attributes", 0, 2);
  const std::string name = hsx::text("name", hsx::pick("name length", 1, NLEN));
  bool want = false; std::string first; bool found = false;
  for (int i = 0; i < na; ++i) {
    std::string a = hsx::text("attribute", hsx::pick("attribute length", 1, NLEN));
    std::string v = hsx::text("value", 1);
    bool eq = a.size() == name.size(); if (eq) for (size_t k = 0; k < a.size(); ++k) eq = eq & (lower(a[k]) == lower(name[k]));
    t.attr(n, a, v);
    if (eq && !found) { found = true; first = v; }
    want = want | eq;
  }
  const bool has = hext::AttributeMatch(name).matches(n);
  const bool hasNot = hext::AttributeMatch(name, std::unique_ptr<hext::ValueTest>(new hext::NegateTest(nullptr))).matches(n);
  hsx::observe(has);
  if (has) hsx::reach("present"); if (!has) hsx::reach("absent");
  hsx::check(has == want, "a bare name holds iff the attribute exists");
  hsx::check(hasNot == !want, "name! holds iff the attribute does not exist");
  auto cap = hext::AttributeCapture(name, "r").capture(n);
  hsx::check(cap.has_value() == want, "a capture yields a value iff the attribute exists");
  if (cap) hsx::check(cap->first == "r" && cap->second == first, "a capture yields the attribute's value under its name");
}
