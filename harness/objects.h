// one object of every class of matches, tests, captures and pipes
#pragma once
#include "ref.h"
#include <functional>
using namespace hext;
static std::string g_text;                          // symbolic attribute value
static GumboNode *g_node, *g_other;
static bool eqs(const std::string& a, const std::string& b) { bool r = a.size() == b.size(); if (r) for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
static bool g_otherFirst;                           // the order in which see asks about the two nodes
static std::string see(const Match& m) { bool a, b; if (g_otherFirst) { b = m.matches(g_other); a = m.matches(g_node); } else { a = m.matches(g_node); b = m.matches(g_other); } std::string s; s += a ? '1' : '0'; s += b ? '1' : '0'; return s; }
static std::string see(const ValueTest& t) { std::string s; s += t.test(g_text.c_str()) ? '1' : '0'; s += t.test("ab") ? '1' : '0'; s += t.test(nullptr) ? '1' : '0'; return s; }
static std::string see(const StringPipe& p) { return p.pipe(g_text) + "|" + p.pipe(" aB "); }
static std::string see(const Capture& c) { auto a = c.capture(g_otherFirst ? g_other : g_node), b = c.capture(g_otherFirst ? g_node : g_other); if (g_otherFirst) std::swap(a, b); return (a ? a->first + "=" + a->second : "-") + "|" + (b ? b->first + "=" + b->second : "-"); }
static std::unique_ptr<ValueTest> test(int k) { if (k == 0) return nullptr; if (k == 1) return std::unique_ptr<ValueTest>(new EqualsTest("ab")); return std::unique_ptr<ValueTest>(new NegateTest(std::unique_ptr<ValueTest>(new ContainsTest("a")))); }
static std::unique_ptr<StringPipe> pipe(int k) { if (k == 0) return nullptr; std::unique_ptr<StringPipe> p(new PrependPipe("<")); if (k == 2) { p->emplace<AppendPipe>(">"); p->emplace<CasePipe>(CasePipe::ToUpper); } return p; }
template <class T, class... A> static std::unique_ptr<T> mk(A&&... a) { return std::unique_ptr<T>(new T(std::forward<A>(a)...)); }
template <class T> static std::unique_ptr<T> with(std::unique_ptr<T> p, int k) { if (k) p->append(pipe(k)); return p; }
static std::unique_ptr<Match> truth(bool b) { return std::unique_ptr<Match>(new FunctionMatch([b](const GumboNode*) { return b; })); }
static std::unique_ptr<NegateMatch> neg(int k) { auto m = mk<NegateMatch>(); if (k) m->append_match(truth(false)); if (k == 2) m->append_match(truth(true)); return m; }
inline void scene(hsx::Tree& t, const std::string& value) {
  auto* html = t.element(t.doc(), GUMBO_TAG_HTML); g_node = t.element(html, GUMBO_TAG_A); g_other = t.element(html, GUMBO_TAG_B); t.text(g_other, "q");
  g_text = value; t.attr(g_node, "c", g_text); t.attr(g_other, "d", g_text); t.attr(g_other, "e", "ab");
}
inline void scene(hsx::Tree& t, int n) { scene(t, hsx::text("value", n)); }
template <class V> static void pairs(int cls, int ka, int kb, V&& values) {
  switch (cls) {
    case 0: values(mk<AttributeMatch>("c", test(ka)), mk<AttributeMatch>("d", test(kb))); break;
    case 1: values(mk<AttributeCountMatch>(ka), mk<AttributeCountMatch>(kb)); break;
    case 2: values(mk<ChildCountMatch>(ka), mk<ChildCountMatch>(kb)); break;
    case 3: values(mk<OnlyChildMatch>(ka ? OnlyChildMatch::OfType : OnlyChildMatch::AnyType), mk<OnlyChildMatch>(kb ? OnlyChildMatch::OfType : OnlyChildMatch::AnyType)); break;
    case 4: { typedef NthChildMatch N; static const int oa[] = {N::First, N::First | N::OfType, N::Last | N::OfType}, ob[] = {N::Last, N::Last | N::OfType, N::First};
      values(mk<N>(ka, 1, (N::Option)oa[ka]), mk<N>(kb, 2, (N::Option)ob[kb])); break; }
    case 5: values(neg(ka), neg(kb)); break;
    case 6: values(mk<FunctionMatch>([ka](const GumboNode*) { return ka == 1; }), mk<FunctionMatch>([kb](const GumboNode*) { return kb == 2; })); break;
    case 7: values(mk<FunctionValueMatch>(TextBuiltin, test(ka)), mk<FunctionValueMatch>(InnerHtmlBuiltin, test(kb))); break;
    case 8: values(mk<NegateTest>(test(ka)), mk<NegateTest>(test(kb))); break;
    case 9: values(mk<EqualsTest>(ka ? "ab" : ""), mk<EqualsTest>(kb ? "b" : "")); break;
    case 10: values(mk<BeginsWithTest>(ka ? "a" : ""), mk<BeginsWithTest>(kb ? "b" : "")); break;
    case 11: values(mk<EndsWithTest>(ka ? "a" : ""), mk<EndsWithTest>(kb ? "b" : "")); break;
    case 12: values(mk<ContainsTest>(ka ? "a" : ""), mk<ContainsTest>(kb ? "b" : "")); break;
    case 13: values(mk<ContainsWordsTest>(ka ? "a b" : ""), mk<ContainsWordsTest>(kb ? "ab" : "")); break;
    case 14: values(mk<AttributeCapture>("c", "n", pipe(ka)), mk<AttributeCapture>("e", "m", pipe(kb))); break;
    case 15: values(mk<FunctionCapture>(TextBuiltin, "n", pipe(ka)), mk<FunctionCapture>(InnerHtmlBuiltin, "m", pipe(kb))); break;
    case 16: values(with(mk<TrimPipe>(ka ? "a" : " "), ka), with(mk<TrimPipe>(), kb)); break;
    case 17: values(with(mk<CollapseWsPipe>(), ka), with(mk<CollapseWsPipe>(), kb)); break;
    case 18: values(with(mk<CasePipe>(CasePipe::ToUpper), ka), with(mk<CasePipe>(), kb)); break;
    case 19: values(with(mk<PrependPipe>("x"), ka), with(mk<PrependPipe>(""), kb)); break;
    case 20: values(with(mk<AppendPipe>("x"), ka), with(mk<AppendPipe>(""), kb)); break;
#ifdef REGEX
    case 21: values(mk<RegexTest>(boost::regex(ka ? "a" : "b")), mk<RegexTest>(boost::regex(kb ? "ab" : "x"))); break;
    case 22: values(with(mk<RegexPipe>(boost::regex(ka ? "a" : "b")), ka), with(mk<RegexPipe>(boost::regex("c")), kb)); break;
    case 23: values(with(mk<RegexReplacePipe>(boost::regex(ka ? "a" : "b"), "z"), ka), with(mk<RegexReplacePipe>(boost::regex("c"), "y"), kb)); break;
    case 24: values(mk<TypeRegexMatch>(boost::regex(ka ? "a" : "x")), mk<TypeRegexMatch>(boost::regex(kb ? "b|a" : "^b"))); break;
#endif
    default: break;
  }
}
