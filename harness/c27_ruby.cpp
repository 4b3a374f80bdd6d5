// C27: the wrapper that swig generates from rbhext.i, with stand-ins for the
// functions of the Ruby interpreter that it calls.
#include <ruby.h>
#include <ruby/encoding.h>
#undef RUBY // as rbhext.i does
#include "result.h"
#include <cstdlib>
#include <new>
namespace rb {
struct Raised { VALUE type; };
struct Obj { RBasic basic; };
struct Str { RString s; std::string v; bool utf8; };          // the first member is what Ruby's macros read
struct Arr { RBasic basic; std::vector<VALUE> items; };
struct Hash { RBasic basic; std::vector<std::pair<VALUE, VALUE>> items; };
struct Big { RBasic basic; uint64_t v; bool fits; };
static rb_encoding* utf8enc() { static char e[512]; return (rb_encoding*)e; }
template <class T> static T* make(VALUE type) { T* o = new (std::calloc(1, sizeof(T))) T(); ((RBasic*)o)->flags = type; return o; }
static VALUE str(const std::string& v, bool utf8) { Str* s = make<Str>(T_STRING | RSTRING_NOEMBED); s->v = v; s->utf8 = utf8; s->s.as.heap.ptr = (char*)s->v.data(); s->s.as.heap.aux.capa = (long)v.size(); s->s.as.heap.len = (long)v.size(); return (VALUE)s; }
static bool is(VALUE v, int type) { return v != Qnil && v != Qfalse && v != Qtrue && !(v & 3) && (int)(((RBasic*)v)->flags & T_MASK) == type; }
static int hashes(VALUE h, VALUE k) { auto& it = ((Hash*)h)->items; for (size_t i = 0; i < it.size(); ++i) if (((Str*)it[i].first)->v == ((Str*)k)->v) return (int)i; return -1; }
}
extern "C" {
#define CLS(n) VALUE n;
CLS(rb_eArgError) CLS(rb_eFatal) CLS(rb_eIOError) CLS(rb_eIndexError) CLS(rb_eNoMemError) CLS(rb_eRangeError) CLS(rb_eRuntimeError) CLS(rb_eSyntaxError) CLS(rb_eTypeError) CLS(rb_eZeroDivError) CLS(rb_eStandardError) CLS(rb_cObject) CLS(rb_cFalseClass) CLS(rb_cFloat) CLS(rb_cInteger) CLS(rb_cNilClass) CLS(rb_cSymbol) CLS(rb_cTrueClass)
rb_encoding* (rb_utf8_encoding)(void) { return rb::utf8enc(); }
static VALUE text(const char* p, long n, rb_encoding* e) { std::string s; if (n) s.assign(p, (size_t)n); return rb::str(s, e == rb::utf8enc()); }
VALUE (rb_enc_str_new)(const char* p, long n, rb_encoding* e) { return text(p, n, e); }
VALUE (rb_enc_str_new_static)(const char* p, long n, rb_encoding* e) { return text(p, n, e); }
VALUE (rb_enc_str_new_cstr)(const char* p, rb_encoding* e) { return text(p, (long)strlen(p), e); }
VALUE (rb_utf8_str_new)(const char* p, long n) { return text(p, n, rb::utf8enc()); }
VALUE (rb_utf8_str_new_static)(const char* p, long n) { return text(p, n, rb::utf8enc()); }
VALUE (rb_utf8_str_new_cstr)(const char* p) { return text(p, (long)strlen(p), rb::utf8enc()); }
VALUE (rb_str_new)(const char* p, long n) { return text(p, n, nullptr); }
VALUE (rb_str_new_cstr)(const char* p) { return text(p, (long)strlen(p), nullptr); }
VALUE (rb_str_new_static)(const char* p, long n) { return text(p, n, nullptr); }
VALUE (rb_enc_associate)(VALUE s, rb_encoding* e) { ((rb::Str*)s)->utf8 = e == rb::utf8enc(); return s; }
VALUE (rb_ary_new)(void) { return (VALUE)rb::make<rb::Arr>(T_ARRAY); }
VALUE (rb_ary_new_capa)(long n) { hsx::check(n >= 0, "a capacity"); return rb_ary_new(); }
VALUE (rb_ary_push)(VALUE a, VALUE x) { hsx::check(rb::is(a, T_ARRAY), "only arrays are appended to"); ((rb::Arr*)a)->items.push_back(x); return a; }
void (rb_ary_store)(VALUE a, long i, VALUE x) { auto& it = ((rb::Arr*)a)->items; hsx::check(i >= 0, "an index"); while ((size_t)i >= it.size()) it.push_back(Qnil); it[(size_t)i] = x; }
VALUE (rb_hash_new)(void) { return (VALUE)rb::make<rb::Hash>(T_HASH); }
VALUE (rb_hash_aset)(VALUE h, VALUE k, VALUE v) { hsx::check(rb::is(h, T_HASH) && rb::is(k, T_STRING), "only hashes are set"); const int i = rb::hashes(h, k); if (i >= 0) ((rb::Hash*)h)->items[(size_t)i].second = v; else ((rb::Hash*)h)->items.push_back({k, v}); return v; }
VALUE (rb_hash_aref)(VALUE h, VALUE k) { const int i = rb::hashes(h, k); return i >= 0 ? ((rb::Hash*)h)->items[(size_t)i].second : Qnil; }
VALUE (rb_hash_has_key)(VALUE h, VALUE k) { return rb::hashes(h, k) >= 0 ? Qtrue : Qfalse; }
void (rb_raise)(VALUE t, const char*, ...) { throw rb::Raised{t}; }
VALUE (rb_rescue)(VALUE (*f)(VALUE), VALUE a, VALUE (*r)(VALUE, VALUE), VALUE b) { try { return f(a); } catch (const rb::Raised&) { return r(b, Qnil); } }
unsigned long long (rb_big2ull)(VALUE v) { auto* b = (rb::Big*)v; if (!b->fits) throw rb::Raised{rb_eRangeError}; return b->v; }
unsigned long long (rb_num2ull)(VALUE v) { return rb::is(v, T_BIGNUM) ? rb_big2ull(v) : (unsigned long long)(long)FIX2LONG(v); }
VALUE (rb_funcall)(VALUE, ID, int, ...) { return Qfalse; } // budget < 0
VALUE (rb_iv_get)(VALUE o, const char*) { return ((RData*)o)->basic.klass; }
VALUE (rb_ivar_get)(VALUE o, ID) { return ((RData*)o)->basic.klass; }
VALUE (rb_obj_is_kind_of)(VALUE, VALUE) { return Qtrue; }
VALUE (rb_string_value)(volatile VALUE* v) { return *v; }
char* (rb_string_value_ptr)(volatile VALUE* v) { return (char*)((rb::Str*)*v)->v.data(); }
VALUE (rb_inspect)(VALUE) { return rb::str("", true); }
const char* (rb_obj_classname)(VALUE) { return "object"; }
VALUE (rb_str_cat)(VALUE s, const char*, long) { return s; }
VALUE (rb_str_cat_cstr)(VALUE s, const char*) { return s; }
VALUE (rb_str_append)(VALUE s, VALUE) { return s; }
}
#include "ruby_wrap.cxx"
#include "wrapper/Html.cpp"
#include "wrapper/Rule.cpp"
namespace {
VALUE data(swig_type_info& t, void* p) { RData* d = rb::make<RData>(T_DATA); d->data = p; *(VALUE*)&d->basic.klass = rb::str(t.name, true); return (VALUE)d; }
bool isStr(VALUE v, const std::string& s) { return rb::is(v, T_STRING) && ((rb::Str*)v)->utf8 && ((rb::Str*)v)->v == s; }
bool same(VALUE v, const hext::Result& r) {
  if (!rb::is(v, T_ARRAY)) return false; auto& out = ((rb::Arr*)v)->items; if (out.size() != r.size()) return false;
  for (size_t g = 0; g < r.size(); ++g) {
    if (!rb::is(out[g], T_HASH)) return false; auto& items = ((rb::Hash*)out[g])->items; const res::Group want = res::group(r[g]); if (items.size() != want.size()) return false;
    for (auto& w : want) {
      VALUE x = Qnil; for (auto& p : items) if (isStr(p.first, w.first)) x = p.second;
      if (w.second.size() == 1) { if (!isStr(x, w.second[0])) return false; continue; }
      if (!rb::is(x, T_ARRAY)) return false; auto& l = ((rb::Arr*)x)->items; if (l.size() != w.second.size()) return false;
      for (size_t i = 0; i < l.size(); ++i) if (!isStr(l[i], w.second[i])) return false;
    }
  }
  return true;
}
}
extern "C" void hsx_main() {
  auto& w = res::world(); SWIGTYPE_p_Rule = &_swigt__p_Rule; SWIGTYPE_p_Html = &_swigt__p_Html; _swigt__p_Rule.cast = _swigc__p_Rule; _swigt__p_Html.cast = _swigc__p_Html;
  VALUE* classes[] = {&rb_eArgError, &rb_eRuntimeError, &rb_eTypeError, &rb_eRangeError, &rb_eIndexError, &rb_eNoMemError, &rb_eSyntaxError, &rb_eIOError, &rb_eZeroDivError, &rb_eFatal, &rb_cObject};
  for (auto* c : classes) *c = (VALUE)rb::make<rb::Obj>(T_CLASS);
  VALUE got = Qnil, raised = Qnil;
#if MODE == 0
  w.result = res::any(); w.outcome = hsx::pick("extraction", 0, 2);
  auto* html = new Html("<p>"); auto* rule = new Rule("<a/>"); VALUE self = data(_swigt__p_Rule, rule), args[2] = {data(_swigt__p_Html, html), Qnil};
  const int form = hsx::pick("budget given", 0, 2); const uint64_t budget = form ? hsx::u64("budget") : 0; bool fits = true;
  if (form == 1) { hsx::assume(budget <= (uint64_t)FIXNUM_MAX); args[1] = LONG2FIX((long)budget); }
  if (form == 2) { auto* b = rb::make<rb::Big>(T_BIGNUM); hsx::assume(budget > (uint64_t)FIXNUM_MAX); b->v = budget; b->fits = fits = hsx::flip("the budget fits"); args[1] = (VALUE)b; }
  try { got = _wrap_Rule_extract(form ? 2 : 1, args, self); } catch (const rb::Raised& e) { raised = e.type; }
  if (!fits) { hsx::check(w.extractions == 0 && raised != Qnil, "a budget out of range is an exception"); hsx::reach("budget out of range"); hsx_leak_ok(); return; }
  hsx::check(w.extractions == 1 && w.budget == budget && w.root == &g_root, "one extraction from the root with the given budget");
  if (w.outcome) { hsx::check(raised == rb_eRuntimeError, "a failed extraction is a RuntimeError"); hsx::reach("failure"); }
  else { hsx::check(raised == Qnil && same(got, w.result), "the array is exactly the result"); hsx::reach("result"); }
#else
  const bool rule = hsx::flip("a rule"); w.syntaxError = rule && hsx::flip("syntax error"); const std::string t = res::some("text", (size_t)hsx::pick("length", 0, VLEN));
  VALUE self = data(rule ? _swigt__p_Rule : _swigt__p_Html, nullptr), args[1] = {rb::str(t, true)};
  try { got = rule ? _wrap_new_Rule(1, args, self) : _wrap_new_Html(1, args, self); } catch (const rb::Raised& e) { raised = e.type; }
  hsx::check(rule ? w.parsed == 1 && w.text == t : w.documents == 1 && w.html == t, "the whole text is used");
  if (w.syntaxError) { hsx::check(raised == rb_eArgError, "a syntax error is an ArgumentError"); hsx::reach("syntax error"); }
  else { hsx::check(raised == Qnil && got == self && DATA_PTR(self), "an object is made"); if (rule) free_Rule(DATA_PTR(self)); else free_Html(DATA_PTR(self)); hsx::check(w.released == (rule ? 0 : 1), "freeing releases the document"); hsx::reach("object"); }
#endif
  hsx_leak_ok();
}
