// C14: copies, assignments, moves and swaps of rules, matches, tests, captures
// and pipes: behaviour is transferred, objects stay independent, nothing leaks.
#include "objects.h"
// every value operation on objects a and b of one class
struct Values { template <class T> void operator()(std::unique_ptr<T> a, std::unique_ptr<T> b) {
  const std::string wa = see(*a), wb = see(*b);
  hsx::observe(wa);
  switch (hsx::pick("operation", 0, 6)) {
    case 0: { T c(*a); a.reset(); hsx::check(eqs(see(c), wa), "a copy behaves like the original and outlives it"); break; }
    case 1: { *b = *a; hsx::check(eqs(see(*b), wa) && eqs(see(*a), wa), "assignment transfers the behaviour and keeps the source"); a.reset(); hsx::check(eqs(see(*b), wa), "an assigned object outlives its source"); break; }
    case 2: { T& r = *a; r = *a; hsx::check(eqs(see(*a), wa), "self assignment changes nothing"); break; }
    case 3: { T c(std::move(*a)); a.reset(); hsx::check(eqs(see(c), wa), "moving transfers the behaviour"); break; }
    case 4: { *b = std::move(*a); a.reset(); hsx::check(eqs(see(*b), wa), "move assignment transfers the behaviour"); break; }
    case 5: { using std::swap; swap(*a, *b); hsx::check(eqs(see(*a), wb) && eqs(see(*b), wa), "swap exchanges the behaviour"); break; }
    default: { auto c = a->clone(); a.reset(); hsx::check(eqs(see(*c), wa), "a clone behaves like the original and outlives it"); auto d = c->clone(); c.reset(); hsx::check(eqs(see(*d), wa), "a clone of a clone behaves the same"); break; }
  }
} };
extern "C" void hsx_main() {
  hsx::Tree t; scene(t, 2);
  const int ka = hsx::pick("a", 0, 2), kb = hsx::pick("b", 0, 2);
  pairs(hsx::pick("class", 0, 24), ka, kb, Values());
  hsx::reach("done");
}
