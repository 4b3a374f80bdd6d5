// C27: the wrapper that swig generates from phphext.i, with stand-ins for the
// functions of the PHP interpreter that it calls.
#include "result.h"
#include <cstdlib>
#include <new>
#include "php_wrap.cxx"
#include "wrapper/Html.cpp"
#include "wrapper/Rule.cpp"
namespace ph {
struct Array { zend_array a; std::vector<std::pair<std::string, zval>> items; bool list; }; // keys are kept as text, as "1" and 1 are the same key
static bool thrown; static zend_class_entry* type; static zval args[2]; static int given;
static Array* arr(zval* z) { hsx::check(Z_TYPE_P(z) == IS_ARRAY, "only arrays are added to"); return (Array*)Z_ARR_P(z); }
static zend_string* str(const char* p, size_t n) { zend_string* s = (zend_string*)calloc(1, sizeof(zend_string) + n + 8); GC_SET_REFCOUNT(s, 1); ZSTR_LEN(s) = n; if (n) memcpy(ZSTR_VAL(s), p, n); return s; }
static zval text(const char* p, size_t n) { zval z; ZVAL_STR(&z, str(p, n)); return z; }
static void set(Array* a, const char* k, size_t n, zval v) { std::string key; if (n) key.assign(k, n); for (auto& p : a->items) if (p.first == key) { p.second = v; return; } a->items.push_back({key, v}); }
static void add(Array* a, zval v) { a->items.push_back({std::to_string(a->items.size()), v}); }
}
extern "C" {
zend_class_entry *zend_ce_type_error, *zend_ce_value_error, *zend_ce_parse_error, *zend_ce_arithmetic_error, *zend_ce_division_by_zero_error;
HashTable* ZEND_FASTCALL _zend_new_array_0(void) { auto* a = new (calloc(1, sizeof(ph::Array))) ph::Array(); GC_SET_REFCOUNT(&a->a, 1); return &a->a; }
HashTable* ZEND_FASTCALL _zend_new_array(uint32_t) { return _zend_new_array_0(); }
void add_assoc_zval_ex(zval* a, const char* k, size_t n, zval* v) { ph::set(ph::arr(a), k, n, *v); }
void add_assoc_string_ex(zval* a, const char* k, size_t n, const char* s) { ph::set(ph::arr(a), k, n, ph::text(s, strlen(s))); }
void add_assoc_stringl_ex(zval* a, const char* k, size_t n, const char* s, size_t l) { ph::set(ph::arr(a), k, n, ph::text(s, l)); }
void add_assoc_str_ex(zval* a, const char* k, size_t n, zend_string* s) { zval z; ZVAL_STR(&z, s); ph::set(ph::arr(a), k, n, z); }
void add_assoc_array_ex(zval* a, const char* k, size_t n, zend_array* v) { zval z; ZVAL_ARR(&z, v); ph::set(ph::arr(a), k, n, z); }
zend_result add_next_index_stringl(zval* a, const char* s, size_t l) { ph::add(ph::arr(a), ph::text(s, l)); return SUCCESS; }
zend_result add_next_index_string(zval* a, const char* s) { return add_next_index_stringl(a, s, strlen(s)); }
zend_result add_next_index_str(zval* a, zend_string* s) { zval z; ZVAL_STR(&z, s); ph::add(ph::arr(a), z); return SUCCESS; }
zend_result add_next_index_array(zval* a, zend_array* v) { zval z; ZVAL_ARR(&z, v); ph::add(ph::arr(a), z); return SUCCESS; }
zval* ZEND_FASTCALL zend_hash_next_index_insert(HashTable* a, zval* v) { auto* x = (ph::Array*)a; ph::add(x, *v); return &x->items.back().second; }
zval* ZEND_FASTCALL zend_hash_next_index_insert_new(HashTable* a, zval* v) { return zend_hash_next_index_insert(a, v); }
zval* ZEND_FASTCALL zend_hash_update(HashTable* a, zend_string* k, zval* v) { ph::set((ph::Array*)a, ZSTR_VAL(k), ZSTR_LEN(k), *v); return v; }
zval* ZEND_FASTCALL zend_hash_str_update(HashTable* a, const char* k, size_t n, zval* v) { ph::set((ph::Array*)a, k, n, *v); return v; }
#define BIN(s) void* ZEND_FASTCALL _emalloc_##s(void) { return malloc(s); }
BIN(8) BIN(16) BIN(24) BIN(32) BIN(40) BIN(48) BIN(56) BIN(64)
void* ZEND_FASTCALL (_emalloc)(size_t n) { return malloc(n); }
void ZEND_FASTCALL (_efree)(void* p) { free(p); }
zend_result zend_get_parameters_array_ex(uint32_t n, zval* out) { if ((int)n > ph::given) return FAILURE; for (uint32_t i = 0; i < n; ++i) out[i] = ph::args[i]; return SUCCESS; }
zend_object* zend_throw_exception(zend_class_entry* t, const char*, zend_long) { ph::thrown = true; ph::type = t; return nullptr; }
void zend_type_error(const char*, ...) { ph::thrown = true; ph::type = zend_ce_type_error; }
void zend_wrong_param_count(void) { ph::thrown = true; ph::type = zend_ce_type_error; }
void ZEND_FASTCALL _convert_to_string(zval*) { hsx::check(false, "only strings are converted"); }
bool zend_class_implements_interface(const zend_class_entry*, const zend_class_entry*) { return false; }
}
namespace {
alignas(16) char g_class[2][sizeof(zend_class_entry)];
swig_object_wrapper g_obj[2]; zval g_this;
void object(int i, swig_type_info& t, swig_cast_info* c, void* p, zval* z) { t.clientdata = g_class[i]; t.cast = c; g_obj[i].ptr = p; g_obj[i].type = &t; g_obj[i].std.ce = (zend_class_entry*)g_class[i]; GC_SET_REFCOUNT(&g_obj[i].std, 1); ZVAL_OBJ(z, &g_obj[i].std); }
bool isStr(const zval& z, const std::string& s) { return Z_TYPE(z) == IS_STRING && std::string(Z_STRVAL(z), Z_STRLEN(z)) == s; }
std::vector<std::pair<std::string, zval>>* items(zval& z) { return Z_TYPE(z) == IS_ARRAY ? &((ph::Array*)Z_ARR(z))->items : nullptr; }
bool same(zval& z, const hext::Result& r) {
  auto* out = items(z); if (!out || out->size() != r.size()) return false;
  for (size_t g = 0; g < r.size(); ++g) {
    auto* m = items((*out)[g].second); const res::Group want = res::group(r[g]); if (!m || m->size() != want.size()) return false;
    for (auto& w : want) {
      zval* x = nullptr; for (auto& p : *m) if (p.first == w.first) x = &p.second;
      if (!x) return false;
      if (w.second.size() == 1) { if (!isStr(*x, w.second[0])) return false; continue; }
      auto* l = items(*x); if (!l || l->size() != w.second.size()) return false;
      for (size_t i = 0; i < l->size(); ++i) if (!isStr((*l)[i].second, w.second[i])) return false;
    }
  }
  return true;
}
}
extern "C" void hsx_main() {
  SWIGTYPE_p_Rule = &_swigt__p_Rule; SWIGTYPE_p_Html = &_swigt__p_Html; auto& w = res::world(); alignas(16) static char classes[5][16]; zend_ce_type_error = (zend_class_entry*)classes[0]; zend_ce_value_error = (zend_class_entry*)classes[1]; zend_ce_parse_error = (zend_class_entry*)classes[2]; zend_ce_arithmetic_error = (zend_class_entry*)classes[3]; zend_ce_division_by_zero_error = (zend_class_entry*)classes[4];
  zval ret; ZVAL_NULL(&ret); static zend_execute_data ex;
#if MODE == 0
  w.result = res::any(); w.outcome = hsx::pick("extraction", 0, 2);
  auto* html = new Html("<p>"); auto* rule = new Rule("<a/>"); object(0, _swigt__p_Rule, _swigc__p_Rule, rule, &ex.This); object(1, _swigt__p_Html, _swigc__p_Html, html, &ph::args[0]);
  const bool two = hsx::flip("with a budget"); const uint64_t budget = two ? hsx::u64("budget") : 0; ph::given = two ? 2 : 1; hsx::assume(budget <= (uint64_t)ZEND_LONG_MAX); ZVAL_LONG(&ph::args[1], (zend_long)budget);
  ex.This.u2.num_args = (uint32_t)ph::given;
  zim_HextRule_extract(&ex, &ret);
  hsx::check(w.extractions == 1 && w.budget == budget && w.root == &g_root, "one extraction from the root with the given budget");
  if (w.outcome) { hsx::check(ph::thrown && Z_TYPE(ret) == IS_NULL, "a failed extraction is an exception"); hsx::reach("failure"); }
  else { hsx::check(!ph::thrown && same(ret, w.result), "the array is exactly the result"); hsx::reach("result"); }
#else
  const bool rule = hsx::flip("a rule"); w.syntaxError = rule && hsx::flip("syntax error"); const std::string t = res::some("text", (size_t)hsx::pick("length", 0, VLEN));
  object(0, rule ? _swigt__p_Rule : _swigt__p_Html, rule ? _swigc__p_Rule : _swigc__p_Html, nullptr, &ex.This); ph::args[0] = ph::text(t.data(), t.size()); ph::given = 1; ex.This.u2.num_args = 1;
  if (rule) zim_HextRule___construct(&ex, &ret); else zim_HextHtml___construct(&ex, &ret);
  hsx::check(rule ? w.parsed == 1 && w.text == t : w.documents == 1 && w.html == t, "the whole text is used");
  if (w.syntaxError) { hsx::check(ph::thrown && ph::type == zend_ce_value_error, "a syntax error is a ValueError"); hsx::reach("syntax error"); }
  else { hsx::check(!ph::thrown && g_obj[0].ptr && w.released == 0, "an object is made"); if (rule) delete (Rule*)g_obj[0].ptr; else delete (Html*)g_obj[0].ptr; hsx::check(w.released == (rule ? 0 : 1), "freeing releases the document"); hsx::reach("object"); }
#endif
  hsx_leak_ok();
}
