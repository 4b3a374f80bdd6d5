// An independent executable statement of hext's matching rules, over plain
// lists: which rule is assigned to which node in which result group.
#pragma once
#include "tree.h"
#include "hext/Hext.h"
#include <utility>
#include <vector>
namespace ref {
enum { ANYTAG = -1 };
struct Node { int idx = 0; bool element = true; int tag = 0; GumboNode* g = nullptr; std::vector<Node*> kids; };
struct Rule { int idx = 0; int tag = ANYTAG; bool optional = false, greedy = false; std::vector<Rule> kids; std::vector<std::vector<Rule>> nested; };
using Pair = std::pair<int, int>;                  // rule index, node index
using Group = std::vector<Pair>;
using List = std::vector<Node*>;
using Seq = std::vector<Rule>;
inline bool mandatory(const Seq& s) { for (auto& r : s) if (!r.optional) return true; return false; }
struct Matcher {
  long lists = 0;                                  // sibling lists searched
  bool repeatStop = false;                         // a mandatory greedy rule repeats wherever it stands
  std::vector<Group> search(const Seq& seq, const List& l) {
    std::vector<Group> out; ++lists;
    size_t from = 0; while (from < l.size()) { Group g; from = group(seq, l, from, g); if (!g.empty()) out.push_back(g); }
    for (auto* n : l) if (n->element && !n->kids.empty()) { auto sub = search(seq, n->kids); out.insert(out.end(), sub.begin(), sub.end()); }
    return out;
  }
  // does r, together with everything inside it, hold for n; found: what the inner rules matched
  bool holds(const Rule& r, const Node& n, Group& found) {
    if (r.tag != ANYTAG && !(n.element && n.tag == r.tag)) return false;
    if (r.kids.empty() && r.nested.empty()) return true;
    if (!n.element || n.kids.empty()) return false;
    Group inner;
    if (!r.kids.empty()) {
      bool any = !mandatory(r.kids);
      size_t from = 0; while (from < n.kids.size()) { Group g; from = group(r.kids, n.kids, from, g); if (!g.empty()) { any = true; inner.insert(inner.end(), g.begin(), g.end()); } }
      if (!any) return false;
    }
    for (auto& seq : r.nested) {
      auto gs = search(seq, n.kids); if (gs.empty() && mandatory(seq)) return false;
      for (auto& g : gs) inner.insert(inner.end(), g.begin(), g.end());
    }
    found.insert(found.end(), inner.begin(), inner.end()); return true;
  }
  // first node of l in [from,to) for which r holds, or to
  size_t first(const Rule& r, const List& l, size_t from, size_t to, Group& found) {
    for (; from < to; ++from) if (holds(r, *l[from], found)) return from;
    return to;
  }
  // rules [a,b) each take their first node in [from,to), one after the other; greedy ones take all of theirs.
  // Returns the position after the last node taken, or 0 if none was; exhausted: a greedy rule took it.
  size_t fill(const Seq& s, size_t a, size_t b, const List& l, size_t from, size_t to, Group& g, bool* exhausted = nullptr) {
    size_t last = 0;
    for (; a < b; ++a)
      for (;;) {
        size_t p = first(s[a], l, from, to, g); if (p == to) break;
        g.push_back({s[a].idx, l[p]->idx}); last = from = p + 1; if (exhausted) *exhausted = s[a].greedy;
        if (!s[a].greedy) break;
      }
    return last;
  }
  // one occurrence of the sequence in l, starting at from; g is empty if there is none.
  // Returns where the search for the next occurrence starts.
  size_t group(const Seq& s, const List& l, size_t from, Group& g) {
    const size_t END = l.size(); Group cur; size_t k = 0, pos = from;
    bool again = false;                            // s[k] is greedy and has been matched once
    while (k < s.size() && pos < END) {
      if (!s[k].optional && !again) {
        pos = first(s[k], l, pos, END, cur); if (pos == END) return END;
        cur.push_back({s[k].idx, l[pos]->idx}); ++pos;
        if (!s[k].greedy) { ++k; continue; }
        if (pos == END) { ++k; break; }
      }
      again = false;
      size_t m = k + 1; while (m < s.size() && s[m].optional) ++m;
      if (m < s.size()) {                          // bounded by the next mandatory rule of this group
        size_t stop = first(s[m], l, pos, END, cur); if (stop == END) return END;
        fill(s, k, m, l, pos, stop, cur);
        cur.push_back({s[m].idx, l[stop]->idx}); pos = stop + 1; k = m + 1;
        if (repeatStop && s[m].greedy && pos < END) { k = m; again = true; }
        continue;
      }
      // nothing mandatory follows: bounded by the start of the next occurrence
      size_t f = 0; while (f < k && s[f].optional) ++f;
      if (f == k) { bool ex = false; size_t last = fill(s, k, s.size(), l, pos, END, cur, &ex); g = cur; return last && !ex ? last : END; }
      Group ignored; size_t stop = first(s[f], l, pos, END, ignored);
      size_t last = fill(s, k, s.size(), l, pos, stop, cur); g = cur; return last ? last : pos;
    }
    while (k < s.size() && s[k].optional) ++k;
    if (k == s.size()) { g = cur; return pos; }
    return END;
  }
};
}
// shared by the extraction harnesses: real rules and trees next to their plain counterparts
namespace ref {
inline std::string name(int i) { return std::string(1, (char)('a' + i)); }
#ifdef WHAT
inline std::string nodeName(int i) { return std::to_string(i); }
#else
inline std::string nodeName(int i) { return name(i); }
#endif
// the name rule i captures by; SAMENAME: all rules use one name
#if defined(SAMENAME)
inline std::string capName(int) { return "x"; }
#elif defined(MANYNAMES)
inline std::string capName(int i) { return std::to_string(i); }
#else
inline std::string capName(int i) { return name(i); }
#endif
// WORK: how often the first node of a sibling list was given to a mandatory rule that is searched for on its own
#ifdef WORK
inline int searches = 0;
inline hext::Rule counted(const Seq& s, hext::Rule r) {
  if (s.size() == 1 && !s[0].optional && !s[0].greedy) r.append_match<hext::FunctionMatch>([](const GumboNode* n) { if (n->index_within_parent == 0) ++searches; return true; });
  return r;
}
#else
inline hext::Rule counted(const Seq&, hext::Rule r) { return r; }
#endif
inline hext::Rule real(const Rule& r) {
  hext::Rule h(r.tag == ANYTAG ? hext::HtmlTag::ANY : (hext::HtmlTag)r.tag, r.optional, r.greedy);
  h.append_capture(std::unique_ptr<hext::Capture>(new hext::AttributeCapture("id", capName(r.idx))));
  for (auto& k : r.kids) h.append_child(real(k));
  for (auto& s : r.nested) { hext::Rule first = counted(s, real(s[0])); for (size_t i = 1; i < s.size(); ++i) first.append_next(real(s[i])); h.append_nested(std::move(first)); }
  return h;
}
inline hext::Rule real(const Seq& s) { hext::Rule first = real(s[0]); for (size_t i = 1; i < s.size(); ++i) first.append_next(real(s[i])); return first; }
// the extraction with everything that existed before it frozen; caller deletes
HSX_NOINLINE hext::Result* plainExtract(const hext::Rule& r, const GumboNode* n, uint64_t budget) { return new hext::Result(r.extract(n, budget)); }
inline hext::Result frozenExtract(const hext::Rule& r, const GumboNode* n, uint64_t budget = 0) {
  hsx_freeze(); hext::Result* p = plainExtract(r, n, budget); hsx_thaw();
  hext::Result out(std::move(*p)); delete p; return out;
}
struct World {
  hsx::Tree t; std::vector<Node*> nodes;
  ~World() { for (auto* n : nodes) delete n; }
  Node* add(Node* parent, bool element, int tag) {
    Node* n = new Node; n->idx = (int)nodes.size(); n->element = element; n->tag = tag; nodes.push_back(n);
    n->g = element ? t.element(parent ? parent->g : t.doc(), (GumboTag)tag) : t.text(parent->g, "t");
    if (element) t.attr(n->g, "id", nodeName(n->idx));
    if (parent) parent->kids.push_back(n);
    return n;
  }
};
// flattens a result; groups without captured values (only text nodes matched) vanish, as documented
inline bool same(const hext::Result& got, const std::vector<Group>& want, const World& w) {
  size_t k = 0; bool ok = true;
  for (auto& g : want) {
    // expected map: sorted by rule name, insertion order within
    std::vector<Pair> v; for (int r = 0; r < 16; ++r) for (auto& p : g) if (p.first == r && w.nodes[p.second]->element) v.push_back(p);
    if (v.empty()) continue;
    if (k >= got.size()) return false;
    auto& m = got[k++]; if (m.size() != v.size()) return false;
#ifdef SAMENAME
    // every value as often as it was captured; values of one rule in document order
    std::vector<Pair> open = v; long last[16]; for (long& x : last) x = -1; bool distinct = true;
    for (size_t a = 0; a < v.size(); ++a) for (size_t b = 0; b < a; ++b) distinct = distinct && v[a].second != v[b].second;
    for (auto& kv : m) {
      if (kv.first != "x") return false;
      size_t i = 0; while (i < open.size() && nodeName(open[i].second) != kv.second) ++i; if (i == open.size()) return false;
      if (distinct) { long place = 0; while (v[(size_t)place].second != open[i].second) ++place; if (place < last[open[i].first]) return false; last[open[i].first] = place; }
      open.erase(open.begin() + (long)i);
    }
    continue;
#endif
    size_t i = 0; for (auto& kv : m) { ok = ok && kv.first == name(v[i].first) && kv.second == nodeName(v[i].second); ++i; }
  }
  return ok && k == got.size();
}
}
namespace ref {
// Declarative statement of soundness, without any search strategy: is one
// result group justified by the document?
struct Judge {
  const List& top; std::vector<Pair> pairs; std::vector<char> used;
  // every sibling list below (and including) l
  static void lists(const List& l, std::vector<const List*>& out) { out.push_back(&l); for (auto* n : l) if (!n->kids.empty()) lists(n->kids, out); }
  struct At { size_t pos, rule; };
  std::vector<At> on(const Seq& s, const List& l, bool unique) {
    std::vector<At> v;
    for (size_t k = 0; k < pairs.size(); ++k) for (size_t i = 0; i < s.size(); ++i) if (pairs[k].first == s[i].idx) for (size_t p = 0; p < l.size(); ++p) if (l[p]->idx == pairs[k].second) {
      used[k] = 1; bool dup = false; for (auto& a : v) dup = dup || (a.pos == p && a.rule == i); if (!(unique && dup)) v.push_back({p, i}); }
    for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0 && v[j].pos < v[j - 1].pos; --j) std::swap(v[j], v[j - 1]);
    return v;
  }
  bool satisfied(const Rule& r, const Node& n) {
    if (r.tag != ANYTAG && !(n.element && n.tag == r.tag)) return false;
    if (!r.kids.empty() && !level(r.kids, n.kids, false, !mandatory(r.kids), false)) return false;
    for (auto& s : r.nested) {
      bool any = false, ok = true; std::vector<const List*> ls; if (!n.kids.empty()) lists(n.kids, ls);
      for (auto* l : ls) { if (on(s, *l, true).empty()) continue; any = true; ok = ok && level(s, *l, false, true, true); }
      if (!ok || (!any && mandatory(s))) return false;
    }
    return true;
  }
  // the pairs of sequence s on l form one group (single) or several, one after the other
  bool level(const Seq& s, const List& l, bool single, bool mayBeEmpty, bool unique) {
    const auto v = on(s, l, unique); if (v.empty()) return mayBeEmpty;
    std::vector<int> n(s.size(), 0); auto complete = [&] { for (size_t i = 0; i < s.size(); ++i) if (!s[i].optional && !n[i]) return false; return true; };
    for (size_t k = 0; k < v.size(); ++k) {
      if (k && v[k].pos == v[k - 1].pos) return false; // two rules of one sequence on the same node
      if (k && (v[k].rule < v[k - 1].rule || (v[k].rule == v[k - 1].rule && !s[v[k].rule].greedy))) {
        if (single || !complete()) return false;
        n.assign(s.size(), 0);
      }
      ++n[v[k].rule];
      if (!satisfied(s[v[k].rule], *l[v[k].pos])) return false;
    }
    return complete();
  }
  static bool justified(const hext::ResultMap& m, const Seq& s, const List& top) {
    Judge j{top, {}, {}};
    for (auto& kv : m) { if (kv.first.size() != 1 || kv.second.size() != 1) return false; j.pairs.push_back({kv.first[0] - 'a', kv.second[0] - 'a'}); }
    j.used.assign(j.pairs.size(), 0);
    std::vector<const List*> ls; lists(top, ls); int n = 0; bool ok = true;
    for (auto* l : ls) { bool here = false; for (auto& p : j.pairs) for (auto& r : s) if (p.first == r.idx) for (auto* x : *l) here = here || x->idx == p.second; if (here) { ++n; ok = ok && j.level(s, *l, true, false, false); } }
    for (char u : j.used) ok = ok && u;
    return ok && n == 1;
  }
};
}
