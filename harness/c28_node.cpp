// C28: the Node binding with its real C++ wrapper (node-addon-api), with
// stand-ins for the Node-API functions underneath, which may fail at any call.
#define NAPI_VERSION 8
#include "result.h"
#include <stdexcept>
#include "nodejs/src/Html.cpp"
#include "nodejs/src/Rule.cpp"
namespace js {
enum Kind { UNDEFINED, NUL, NUMBER, STRING, OBJECT, ARRAY, FUNCTION, ERROR };
struct Value { Kind kind; std::string s; int64_t n = 0; std::vector<Value*> items; std::vector<std::pair<std::string, Value*>> props; void* wrapped = nullptr; napi_finalize finalize = nullptr; bool tagged = false; napi_type_tag tag{}; bool typeError = false; };
struct Ref { Value* v; uint32_t count; };
struct Class { napi_callback construct = nullptr; void* data = nullptr; napi_callback extract = nullptr; void* extractData = nullptr; };
struct Call { Value* self; std::vector<Value*> args; void* data; Value* target; };
static std::vector<Value*> all; static Value* pending; static bool mayFail, failed; static int refs; static Class cls[2]; static int classes; static napi_status last; static bool fatal; static std::vector<std::pair<napi_finalize, void*>> finalizers;
static Value* make(Kind k) { auto* v = new Value(); v->kind = k; all.push_back(v); return v; }
static Value* val(napi_value v) { return (Value*)v; }
static napi_value ret(Value* v) { return (napi_value)v; }
static bool object(napi_value v) { return v && val(v)->kind >= OBJECT; }
static napi_status done(napi_status s) { last = s; return s; }
static bool fails() { if (mayFail && !failed && hsx::flip("this call fails")) { failed = true; return true; } return false; }
static void own(Value* o, const std::string& k, Value* v) { for (auto& p : o->props) if (p.first == k) { p.second = v; return; } o->props.push_back({k, v}); }
static bool set(Value* o, const std::string& k, Value* v) { if (k == "__proto__") return true; own(o, k, v); return true; } // an assignment to __proto__ makes no property
}
using js::done; using js::val; using js::ret;
#define MAKE(...) { if (js::fails()) return done(napi_generic_failure); *r = ret(__VA_ARGS__); return done(napi_ok); }
extern "C" {
napi_status napi_create_array(napi_env, napi_value* r) MAKE(js::make(js::ARRAY))
napi_status napi_create_array_with_length(napi_env, size_t n, napi_value* r) { if (js::fails()) return done(napi_generic_failure); auto* a = js::make(js::ARRAY); for (size_t i = 0; i < n; ++i) a->items.push_back(nullptr); *r = ret(a); return done(napi_ok); }
napi_status napi_create_object(napi_env, napi_value* r) MAKE(js::make(js::OBJECT))
napi_status napi_create_string_utf8(napi_env, const char* p, size_t n, napi_value* r) { if (js::fails()) return done(napi_generic_failure); auto* v = js::make(js::STRING); if (n == NAPI_AUTO_LENGTH) v->s = p; else if (n) v->s.assign(p, n); *r = ret(v); return done(napi_ok); }
napi_status napi_create_error(napi_env, napi_value, napi_value, napi_value* r) MAKE(js::make(js::ERROR))
napi_status napi_create_type_error(napi_env, napi_value, napi_value, napi_value* r) { auto* e = js::make(js::ERROR); e->typeError = true; *r = ret(e); return done(napi_ok); }
napi_status napi_create_range_error(napi_env e, napi_value c, napi_value m, napi_value* r) { return napi_create_type_error(e, c, m, r); }
napi_status napi_create_double(napi_env, double d, napi_value* r) { auto* v = js::make(js::NUMBER); v->n = (int64_t)d; *r = ret(v); return done(napi_ok); }
napi_status napi_create_int64(napi_env, int64_t d, napi_value* r) { auto* v = js::make(js::NUMBER); v->n = d; *r = ret(v); return done(napi_ok); }
napi_status napi_create_uint32(napi_env e, uint32_t d, napi_value* r) { return napi_create_int64(e, d, r); }
napi_status napi_create_int32(napi_env e, int32_t d, napi_value* r) { return napi_create_int64(e, d, r); }
napi_status napi_create_function(napi_env, const char*, size_t, napi_callback, void*, napi_value* r) MAKE(js::make(js::FUNCTION))
napi_status napi_create_reference(napi_env, napi_value v, uint32_t n, napi_ref* r) { if (!js::object(v)) return done(napi_object_expected); ++js::refs; *r = (napi_ref) new js::Ref{val(v), n}; return done(napi_ok); }
napi_status napi_delete_reference(napi_env, napi_ref r) { --js::refs; delete (js::Ref*)r; return done(napi_ok); }
napi_status napi_get_reference_value(napi_env, napi_ref r, napi_value* v) { *v = ret(((js::Ref*)r)->v); return done(napi_ok); }
napi_status napi_reference_ref(napi_env, napi_ref r, uint32_t* n) { const uint32_t c = ++((js::Ref*)r)->count; if (n) *n = c; return done(napi_ok); }
napi_status napi_reference_unref(napi_env, napi_ref r, uint32_t* n) { const uint32_t c = --((js::Ref*)r)->count; if (n) *n = c; return done(napi_ok); }
napi_status napi_throw(napi_env, napi_value v) { if (js::pending) return done(napi_pending_exception); js::pending = val(v); return done(napi_ok); }
napi_status napi_throw_error(napi_env, const char*, const char*) { if (js::pending) return done(napi_pending_exception); js::pending = js::make(js::ERROR); return done(napi_ok); }
napi_status napi_throw_type_error(napi_env e, const char* c, const char* m) { const napi_status s = napi_throw_error(e, c, m); if (s == napi_ok) js::pending->typeError = true; return s; }
napi_status napi_throw_range_error(napi_env e, const char* c, const char* m) { return napi_throw_type_error(e, c, m); }
napi_status napi_is_exception_pending(napi_env, bool* r) { *r = js::pending != nullptr; return napi_ok; }
napi_status napi_get_and_clear_last_exception(napi_env, napi_value* r) { *r = ret(js::pending ? js::pending : js::make(js::UNDEFINED)); js::pending = nullptr; return done(napi_ok); }
napi_status napi_get_last_error_info(napi_env, const napi_extended_error_info** r) { static napi_extended_error_info i; i.error_message = "failed"; i.error_code = js::last; *r = &i; return napi_ok; }
void napi_fatal_error(const char*, size_t, const char*, size_t) { hsx::check(false, "the process goes on"); abort(); }
napi_status napi_open_handle_scope(napi_env, napi_handle_scope* s) { *s = (napi_handle_scope)&js::all; return done(napi_ok); }
napi_status napi_close_handle_scope(napi_env, napi_handle_scope) { return done(napi_ok); }
napi_status napi_open_escapable_handle_scope(napi_env, napi_escapable_handle_scope* s) { *s = (napi_escapable_handle_scope)&js::all; return done(napi_ok); }
napi_status napi_close_escapable_handle_scope(napi_env, napi_escapable_handle_scope) { return done(napi_ok); }
napi_status napi_escape_handle(napi_env, napi_escapable_handle_scope, napi_value v, napi_value* r) { *r = v; return done(napi_ok); }
napi_status napi_get_undefined(napi_env, napi_value* r) { static js::Value v{js::UNDEFINED}; *r = ret(&v); return done(napi_ok); }
napi_status napi_get_null(napi_env, napi_value* r) { static js::Value v{js::NUL}; *r = ret(&v); return done(napi_ok); }
napi_status napi_typeof(napi_env, napi_value v, napi_valuetype* t) {
  static const napi_valuetype types[] = {napi_undefined, napi_null, napi_number, napi_string, napi_object, napi_object, napi_function, napi_object};
  if (!v) return done(napi_invalid_arg); *t = types[val(v)->kind]; return done(napi_ok);
}
napi_status napi_is_array(napi_env, napi_value v, bool* r) { *r = v && val(v)->kind == js::ARRAY; return done(napi_ok); }
napi_status napi_get_cb_info(napi_env, napi_callback_info i, size_t* n, napi_value* args, napi_value* self, void** data) {
  auto* c = (js::Call*)i; if (n) { const size_t room = *n; if (args) for (size_t k = 0; k < room; ++k) { if (k < c->args.size()) args[k] = ret(c->args[k]); else napi_get_undefined(nullptr, &args[k]); } *n = c->args.size(); }
  if (self) *self = ret(c->self); if (data) *data = c->data; return done(napi_ok);
}
napi_status napi_get_new_target(napi_env, napi_callback_info i, napi_value* r) { *r = ret(((js::Call*)i)->target); return done(napi_ok); }
napi_status napi_get_value_string_utf8(napi_env, napi_value v, char* b, size_t n, size_t* r) {
  if (val(v)->kind != js::STRING) return done(napi_string_expected); if (js::fails()) return done(napi_generic_failure); const std::string& s = val(v)->s; if (!b) { *r = s.size(); return done(napi_ok); }
  if (!n) { if (r) *r = 0; return done(napi_ok); } const size_t k = s.size() < n - 1 ? s.size() : n - 1; memcpy(b, s.data(), k); b[k] = 0; if (r) *r = k; return done(napi_ok);
}
napi_status napi_get_value_uint32(napi_env, napi_value v, uint32_t* r) { if (val(v)->kind != js::NUMBER) return done(napi_number_expected); *r = (uint32_t)(uint64_t)val(v)->n; return done(napi_ok); }
napi_status napi_get_value_int32(napi_env, napi_value v, int32_t* r) { if (val(v)->kind != js::NUMBER) return done(napi_number_expected); *r = (int32_t)(uint32_t)(uint64_t)val(v)->n; return done(napi_ok); }
napi_status napi_get_value_int64(napi_env, napi_value v, int64_t* r) { if (val(v)->kind != js::NUMBER) return done(napi_number_expected); *r = val(v)->n; return done(napi_ok); }
napi_status napi_get_value_double(napi_env, napi_value v, double* r) { // numbers without fraction; a double has to be a known one
  if (val(v)->kind != js::NUMBER) return done(napi_number_expected);
  static const int64_t known[] = {0, 1, 2, -1, 4294967295, 4294967296, 4294967297, 9007199254740991}; const int i = hsx::pick("number", 0, 7); hsx::assume(val(v)->n == known[i]); *r = (double)known[i]; return done(napi_ok);
}
napi_status napi_coerce_to_number(napi_env, napi_value v, napi_value* r) { if (val(v)->kind != js::NUMBER) return done(napi_number_expected); *r = v; return done(napi_ok); }
napi_status napi_coerce_to_string(napi_env, napi_value v, napi_value* r) { if (val(v)->kind != js::STRING) return done(napi_string_expected); *r = v; return done(napi_ok); }
napi_status napi_coerce_to_object(napi_env, napi_value v, napi_value* r) { if (!js::object(v)) return done(napi_object_expected); *r = v; return done(napi_ok); }
napi_status napi_define_class(napi_env, const char*, size_t, napi_callback f, void* d, size_t n, const napi_property_descriptor* p, napi_value* r) {
  auto& c = js::cls[js::classes++]; c.construct = f; c.data = d; for (size_t i = 0; i < n; ++i) if (p[i].utf8name && !strcmp(p[i].utf8name, "extract")) { c.extract = p[i].method; c.extractData = p[i].data; } *r = ret(js::make(js::FUNCTION)); return done(napi_ok);
}
napi_status napi_define_properties(napi_env, napi_value o, size_t n, const napi_property_descriptor* p) {
  if (!js::object(o)) return done(napi_object_expected); if (js::fails()) return done(napi_generic_failure);
  for (size_t i = 0; i < n; ++i) { if (p[i].value && ((p[i].attributes & napi_default_jsproperty) == napi_default_jsproperty || val(o)->kind == js::ERROR)) js::own(val(o), p[i].name ? val(p[i].name)->s : p[i].utf8name, val(p[i].value)); } return done(napi_ok); // other properties cannot be enumerated or changed
}
napi_status napi_add_finalizer(napi_env, napi_value, void* d, napi_finalize f, void*, napi_ref* r) { js::finalizers.push_back({f, d}); if (r) *r = nullptr; return done(napi_ok); }
napi_status napi_wrap(napi_env, napi_value o, void* p, napi_finalize f, void*, napi_ref* r) { if (!js::object(o)) return done(napi_object_expected); if (js::fails()) return done(napi_generic_failure); val(o)->wrapped = p; val(o)->finalize = f; if (r) { ++js::refs; *r = (napi_ref) new js::Ref{val(o), 0}; } return done(napi_ok); }
napi_status napi_unwrap(napi_env, napi_value o, void** r) { if (!js::object(o)) return done(napi_object_expected); if (!val(o)->wrapped) return done(napi_invalid_arg); *r = val(o)->wrapped; return done(napi_ok); }
napi_status napi_remove_wrap(napi_env, napi_value o, void** r) { if (!js::object(o) || !val(o)->wrapped) return done(napi_invalid_arg); if (r) *r = val(o)->wrapped; val(o)->wrapped = nullptr; return done(napi_ok); }
napi_status napi_type_tag_object(napi_env, napi_value o, const napi_type_tag* t) { if (!js::object(o)) return done(napi_object_expected); if (js::fails()) return done(napi_generic_failure); val(o)->tagged = true; val(o)->tag = *t; return done(napi_ok); }
napi_status napi_check_object_type_tag(napi_env, napi_value o, const napi_type_tag* t, bool* r) { if (!js::object(o)) return done(napi_object_expected); if (js::fails()) return done(napi_generic_failure); *r = val(o)->tagged && val(o)->tag.lower == t->lower && val(o)->tag.upper == t->upper; return done(napi_ok); }
napi_status napi_get_array_length(napi_env, napi_value a, uint32_t* r) { if (val(a)->kind != js::ARRAY) return done(napi_array_expected); *r = (uint32_t)val(a)->items.size(); return done(napi_ok); }
napi_status napi_set_element(napi_env, napi_value a, uint32_t i, napi_value v) {
  if (!js::object(a)) return done(napi_object_expected); if (js::pending) return done(napi_pending_exception); if (js::fails()) return done(napi_generic_failure); if (val(a)->kind != js::ARRAY) { js::own(val(a), std::to_string(i), val(v)); return done(napi_ok); }
  auto& it = val(a)->items; hsx::check(i <= 1000000, "an index"); while (i >= it.size()) it.push_back(nullptr); it[i] = val(v); return done(napi_ok);
}
napi_status napi_set_property(napi_env, napi_value o, napi_value k, napi_value v) { if (!js::object(o)) return done(napi_object_expected); if (js::pending) return done(napi_pending_exception); if (js::fails()) return done(napi_generic_failure); hsx::check(val(k)->kind == js::STRING, "names are strings"); js::set(val(o), val(k)->s, val(v)); return done(napi_ok); }
napi_status napi_set_named_property(napi_env, napi_value o, const char* k, napi_value v) { if (!js::object(o)) return done(napi_object_expected); if (js::pending) return done(napi_pending_exception); if (js::fails()) return done(napi_generic_failure); js::set(val(o), k, val(v)); return done(napi_ok); }
static js::Value* find(napi_value o, const std::string& k) { for (auto& p : val(o)->props) if (p.first == k) return p.second; return nullptr; }
napi_status napi_get_property(napi_env e, napi_value o, napi_value k, napi_value* r) { js::Value* v = find(o, val(k)->s); if (v) *r = ret(v); else napi_get_undefined(e, r); return done(napi_ok); }
napi_status napi_get_named_property(napi_env e, napi_value o, const char* k, napi_value* r) { js::Value* v = find(o, k); if (v) *r = ret(v); else napi_get_undefined(e, r); return done(napi_ok); }
napi_status napi_has_property(napi_env, napi_value o, napi_value k, bool* r) { *r = find(o, val(k)->s) != nullptr; return done(napi_ok); }
napi_status napi_has_own_property(napi_env, napi_value o, napi_value k, bool* r) { *r = find(o, val(k)->s) != nullptr; return done(napi_ok); }
napi_status napi_has_named_property(napi_env, napi_value o, const char* k, bool* r) { *r = find(o, k) != nullptr; return done(napi_ok); }
}
namespace {
js::Value* text(const std::string& s) { auto* v = js::make(js::STRING); v->s = s; return v; }
js::Value* number(int64_t n) { auto* v = js::make(js::NUMBER); v->n = n; return v; }
// calls a function the way the interpreter does; C++ exceptions must not get out
js::Value* call(napi_callback f, void* data, js::Value* self, std::vector<js::Value*> args, js::Value* target = nullptr) {
  js::Call c{self, args, data, target}; napi_env env = (napi_env)&js::all;
  try { return val(f(env, (napi_callback_info)&c)); } catch (...) { hsx::check(false, "no C++ exception reaches the interpreter"); }
  return nullptr;
}
js::Value* construct(int i, std::vector<js::Value*> args) { auto* o = js::make(js::OBJECT); call(js::cls[i].construct, js::cls[i].data, o, args, o); return o; }
bool isStr(js::Value* v, const std::string& s) { return v && v->kind == js::STRING && v->s == s; }
bool same(js::Value* o, const hext::Result& r) {
  if (!o || o->kind != js::ARRAY || o->items.size() != r.size()) return false;
  for (size_t g = 0; g < r.size(); ++g) {
    js::Value* m = o->items[g]; const res::Group want = res::group(r[g]); if (!m || m->kind != js::OBJECT || m->props.size() != want.size()) return false;
    for (auto& w : want) {
      js::Value* x = find(ret(m), w.first); if (w.second.size() == 1) { if (!isStr(x, w.second[0])) return false; continue; }
      if (!x || x->kind != js::ARRAY || x->items.size() != w.second.size()) return false;
      for (size_t i = 0; i < w.second.size(); ++i) if (!isStr(x->items[i], w.second[i])) return false;
    }
  }
  return true;
}
void collect() { // the end of every object
  js::mayFail = false; napi_env env = (napi_env)&js::all;
  for (size_t i = 0; i < js::all.size(); ++i) if (js::all[i]->wrapped) { void* p = js::all[i]->wrapped; js::all[i]->wrapped = nullptr; js::all[i]->finalize(env, p, nullptr); }
  for (auto& f : js::finalizers) f.first(env, f.second, nullptr);
  hsx::check(js::refs == 0, "every reference is released"); hsx::check(res::world().released == res::world().documents, "every document is released once"); for (auto* v : js::all) delete v; js::all.clear(); js::all.shrink_to_fit();
}
}
extern "C" void hsx_main() {
  auto& w = res::world(); Napi::Env env((napi_env)&js::all); Html::GetClass(env); Rule::GetClass(env); js::finalizers.reserve(4);
#if MODE == 0
  // extraction
  js::Value* html = construct(0, {text("<p>")}); js::Value* rule = construct(1, {text("<a/>")}); if (js::pending) { hsx::check(false, "the objects are made"); return; }
  w.result = res::any(); w.outcome = hsx::pick("extraction", 0, 2); const bool two = hsx::flip("with a budget"); int64_t budget = 0;
#ifdef NUMBERS
  if (two) { budget = (int64_t)hsx::u64("budget"); hsx::assume(budget >= -9007199254740991 && budget <= 9007199254740991); }
#endif
  std::vector<js::Value*> args{html}; if (two) args.push_back(number(budget)); js::mayFail = hsx::flip("a call may fail");
  js::Value* got = call(js::cls[1].extract, js::cls[1].extractData, rule, args);
  if (js::failed) { hsx::check(js::pending != nullptr, "a failure is a JavaScript exception"); hsx::reach("failed call"); }
  else if (budget < 0) { hsx::check(w.extractions == 0 && js::pending, "a negative budget is a JavaScript exception"); hsx::reach("negative budget"); }
  else {
    hsx::check(w.extractions == 1 && w.root == &g_root, "one extraction from the root of the document"); hsx::check(w.budget == (uint64_t)budget, "the budget is passed on");
    if (w.outcome) { hsx::check(js::pending != nullptr, "a failed extraction is a JavaScript exception"); hsx::reach("failure"); }
    else { hsx::check(!js::pending && same(got, w.result), "the array is exactly the result"); hsx::reach("result"); }
  }
  w.result.clear(); w.result.shrink_to_fit();
#elif MODE == 1
  // construction
  const bool rule = hsx::flip("a rule"); w.syntaxError = rule && hsx::flip("syntax error"); js::mayFail = hsx::flip("a call may fail"); const std::string t = res::some("text", (size_t)hsx::pick("length", 0, VLEN));
  construct(rule, {text(t)});
  if (js::failed) { hsx::check(js::pending != nullptr, "a failure is a JavaScript exception"); hsx::reach("failed call"); if (rule || w.documents == 0) hsx_leak_ok(); }
  else {
    hsx::check(rule ? w.parsed == 1 && w.text == t : w.documents == 1 && w.html == t, "the whole text is used");
    hsx::check((js::pending != nullptr) == w.syntaxError, "a syntax error is a JavaScript exception"); hsx::reach(w.syntaxError ? "syntax error" : "object");
  }
#else
  // any arguments
  w.syntaxError = hsx::flip("syntax error"); auto any = [](const char* what, js::Value* h, js::Value* r) -> js::Value* { switch (hsx::pick(what, 0, 9)) { case 0: return js::make(js::UNDEFINED); case 1: return js::make(js::NUL); case 2: return number(1); case 3: return text("a"); case 4: return js::make(js::OBJECT); case 5: return js::make(js::ARRAY); case 6: return js::make(js::FUNCTION); case 7: return js::make(js::ERROR); case 8: return h; default: return r; } };
  std::vector<js::Value*> first; const int n = hsx::pick("arguments", 0, 2); 
  js::Value* good = construct(0, {text("<p>")}); js::Value* self = construct(1, {text("<a/>")}); const bool broken = js::pending != nullptr; hsx::check(broken == w.syntaxError, "a syntax error is a JavaScript exception"); js::pending = nullptr;
  for (int i = 0; i < n; ++i) first.push_back(any("argument", good, self));
  const int what = hsx::pick("what", 0, 2);
  if (what < 2) {
    const int documents = w.documents, parsed = w.parsed; js::Value* o = construct(what, first); const bool ok = n >= 1 && first[0]->kind == js::STRING;
    hsx::check((js::pending == nullptr) == (ok && !(what == 1 && w.syntaxError)), "anything but a string is a JavaScript exception"); hsx::check(w.documents - documents + w.parsed - parsed == (ok ? 1 : 0), "only strings are parsed"); hsx::reach(js::pending ? "not constructed" : "constructed");
    if (js::pending && what == 0) { js::pending = nullptr; call(js::cls[1].extract, js::cls[1].extractData, self, {o}); hsx::check(js::pending != nullptr && w.extractions == 0, "an object without document is a JavaScript exception"); hsx::reach("object without document"); }
  } else {
    call(js::cls[1].extract, js::cls[1].extractData, self, first); const bool ok = !broken && n >= 1 && first[0] == good && (n < 2 || first[1]->kind == js::NUMBER);
    hsx::check((js::pending == nullptr) == ok && w.extractions == (ok ? 1 : 0), "wrong arguments are a JavaScript exception"); hsx::reach(ok ? "extracted" : "not extracted");
  }
#endif
  collect();
}
