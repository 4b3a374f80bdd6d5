// Environment models linked under the code when it is executed symbolically:
// the parts of libstdc++, libc and libgumbo that exist here only as shared
// objects.  Compiled with -fno-access-control.  Every function follows the
// documented contract; tools/check_models compares the computational ones
// with the real libraries on concrete inputs.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <ios>
#include <istream>
#include <locale>
#include <list>
#include <map>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <gumbo.h>
// written byte by byte; the length is made concrete so that buffer positions stay concrete
extern "C" uint64_t hsx_concretize_(uint64_t v);
template <> std::streamsize std::streambuf::xsputn(const char* s, std::streamsize n) {
  n = (std::streamsize)hsx_concretize_((uint64_t)n); for (std::streamsize i = 0; i < n; ++i) if (sputc(s[i]) == EOF) return i; return n;
}
#include "gumbo_tags.inc"   // generated from the installed libgumbo

extern "C" {
// ---------------------------------------------------------------- libc
char __libc_single_threaded = 0;
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; }
int pthread_once(pthread_once_t* c, void (*f)(void)) { if (!*(int*)c) { *(int*)c = 1; f(); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*) noexcept { return 0; }
int isprint(int c) { return ((unsigned)c - 0x20u) < 0x5fu; }
int isspace(int c) { return (c == ' ') | (((unsigned)c - 9u) < 5u); }
int isdigit(int c) { return ((unsigned)c - '0') < 10u; }
int isupper(int c) { return ((unsigned)c - 'A') < 26u; }
int islower(int c) { return ((unsigned)c - 'a') < 26u; }
int isalpha(int c) { return (((unsigned)c | 32u) - 'a') < 26u; }
int isalnum(int c) { return ((((unsigned)c | 32u) - 'a') < 26u) | (((unsigned)c - '0') < 10u); }
int isxdigit(int c) { return (((unsigned)c - '0') < 10u) | ((((unsigned)c | 32u) - 'a') < 6u); }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int isgraph(int c) { return ((unsigned)c - 0x21u) < 0x5eu; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int tolower(int c) noexcept { return ((unsigned)c - 'A') < 26u ? c + 32 : c; }
int toupper(int c) noexcept { return ((unsigned)c - 'a') < 26u ? c - 32 : c; }
size_t strlen(const char* s) noexcept { size_t n = 0; while (*(volatile const char*)(s + n)) ++n; return n; }
size_t strnlen(const char* s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) noexcept { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; ++a, ++b, --n) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static inline unsigned char lo(unsigned char c) { return (unsigned)(c - 'A') < 26u ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) noexcept { for (;; ++a, ++b) { unsigned char x = lo(*a), y = lo(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) noexcept { for (; n; ++a, ++b, --n) { unsigned char x = lo(*a), y = lo(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncat(char* d, const char* s, size_t n) noexcept { char* r = d; while (*d) ++d; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char* stpcpy(char* d, const char* s) noexcept { while ((*d = *s)) { ++d; ++s; } return d; }
char* strndup(const char* s, size_t m) noexcept { size_t n = strnlen(s, m); char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) noexcept { auto* a = (const unsigned char*)h; for (size_t i = 0; nn <= hn && i <= hn - nn; ++i) if (!memcmp(a + i, n, nn)) return (void*)(a + i); return nullptr; }
char* strtok_r(char* s, const char* d, char** save) noexcept {
  if (!s) s = *save; auto in = [d](char c) { for (const char* q = d; *q; ++q) if (*q == c) return true; return false; };
  while (*s && in(*s)) ++s; if (!*s) { *save = s; return nullptr; } char* r = s; while (*s && !in(*s)) ++s; if (*s) *s++ = 0; *save = s; return r;
}
char* strdup(const char* s) noexcept { size_t n = strlen(s); char* r = (char*)malloc(n + 1); memcpy(r, s, n + 1); return r; }
}
extern "C" void* m_memchr(const void* s, int c, size_t n) __asm__("memchr");
extern "C" void* m_memchr(const void* s, int c, size_t n) { auto* p = (const volatile unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
extern "C" char* m_strchr(const char* s, int c) __asm__("strchr");
extern "C" char* m_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
extern "C" char* m_strrchr(const char* s, int c) __asm__("strrchr");
extern "C" char* m_strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
extern "C" char* m_strstr(const char* h, const char* n) __asm__("strstr");
extern "C" char* m_strstr(const char* h, const char* n) { return (char*)memmem(h, strlen(h), n, strlen(n)); }
extern "C" char* m_strpbrk(const char* s, const char* a) __asm__("strpbrk");
extern "C" char* m_strpbrk(const char* s, const char* a) { for (; *s; ++s) for (const char* q = a; *q; ++q) if (*q == *s) return (char*)s; return nullptr; }
extern "C" size_t strspn(const char* s, const char* a) noexcept { size_t n = 0; for (; s[n]; ++n) { const char* q = a; while (*q && *q != s[n]) ++q; if (!*q) break; } return n; }
extern "C" size_t strcspn(const char* s, const char* a) noexcept { size_t n = 0; for (; s[n]; ++n) { const char* q = a; while (*q && *q != s[n]) ++q; if (*q) break; } return n; }

// strtol family: base 0/2..36, saturation with ERANGE
template <class U> static U parse_u(const char* s, char** e, int base, bool& neg, bool& over) {
  const char* p = s; over = false; neg = false; while (isspace((unsigned char)*p)) ++p;
  if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  U v = 0; bool any = false;
  for (;; ++p) { unsigned char c = *p; unsigned d; if ((unsigned)c - '0' < 10u) d = c - '0'; else if (((unsigned)c | 32u) - 'a' < 26u) d = (c | 32) - 'a' + 10; else break; if ((int)d >= base) break; any = true;
    // a possible overflow is decided by a branch so that the multiplication stays exact
    if (v > ((U)~(U)0 - d) / (U)base) over = true; v = v * (U)base + d; }
  if (e) *e = (char*)(any ? p : s); return v;
}
static long c_strtol(const char* s, char** e, int base) noexcept {
  bool neg, over; unsigned long v = parse_u<unsigned long>(s, e, base, neg, over); const unsigned long mx = 0x7fffffffffffffffull;
  if (over || v > mx + (neg ? 1 : 0)) { errno = ERANGE; return neg ? (long)(mx + 1) : (long)mx; }
  return neg ? (long)(0 - v) : (long)v;
}
static unsigned long c_strtoul(const char* s, char** e, int base) noexcept {
  bool neg, over; unsigned long v = parse_u<unsigned long>(s, e, base, neg, over); if (over) { errno = ERANGE; return ~0ul; } return neg ? 0 - v : v;
}
extern "C" long m_strtol(const char* s, char** e, int b) __asm__("strtol"); extern "C" long m_strtol(const char* s, char** e, int b) { return c_strtol(s, e, b); }
extern "C" long m___isoc23_strtol(const char* s, char** e, int b) __asm__("__isoc23_strtol"); extern "C" long m___isoc23_strtol(const char* s, char** e, int b) { return c_strtol(s, e, b); }
extern "C" long m_strtoll(const char* s, char** e, int b) __asm__("strtoll"); extern "C" long m_strtoll(const char* s, char** e, int b) { return c_strtol(s, e, b); }
extern "C" long m___isoc23_strtoll(const char* s, char** e, int b) __asm__("__isoc23_strtoll"); extern "C" long m___isoc23_strtoll(const char* s, char** e, int b) { return c_strtol(s, e, b); }
extern "C" unsigned long m_strtoul(const char* s, char** e, int b) __asm__("strtoul"); extern "C" unsigned long m_strtoul(const char* s, char** e, int b) { return c_strtoul(s, e, b); }
extern "C" unsigned long m___isoc23_strtoul(const char* s, char** e, int b) __asm__("__isoc23_strtoul"); extern "C" unsigned long m___isoc23_strtoul(const char* s, char** e, int b) { return c_strtoul(s, e, b); }
extern "C" unsigned long m_strtoull(const char* s, char** e, int b) __asm__("strtoull"); extern "C" unsigned long m_strtoull(const char* s, char** e, int b) { return c_strtoul(s, e, b); }
extern "C" unsigned long m___isoc23_strtoull(const char* s, char** e, int b) __asm__("__isoc23_strtoull"); extern "C" unsigned long m___isoc23_strtoull(const char* s, char** e, int b) { return c_strtoul(s, e, b); }
extern "C" int m_atoi(const char* s) __asm__("atoi"); extern "C" int m_atoi(const char* s) { return (int)c_strtol(s, nullptr, 10); }

extern "C" long m_atol(const char* s) __asm__("atol"); extern "C" long m_atol(const char* s) { return c_strtol(s, nullptr, 10); }
extern "C" long m_atoll(const char* s) __asm__("atoll"); extern "C" long m_atoll(const char* s) { return c_strtol(s, nullptr, 10); }
extern "C" void* m_memrchr(const void* s, int c, size_t n) __asm__("memrchr"); extern "C" void* m_memrchr(const void* s, int c, size_t n) { auto* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return nullptr; }
// the formats of plain text and integers; any other ends the check
extern "C" void unmodelled_format();
extern "C" int vsnprintf(char* b, size_t cap, const char* f, va_list ap) noexcept {
  size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) b[n] = c; ++n; };
  for (; *f; ++f) {
    if (*f != '%') { put(*f); continue; } ++f;
    bool left = false, zero = false, plus = false; for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else break; }
    long w = 0, prec = -1; if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } ++f; } else while (isdigit(*f)) w = w * 10 + (*f++ - '0');
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    int sz = 0; for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') sz = 3; else if (*f == 'h') sz = sz ? 1 : 2; else break; }
    char t[32]; const char* o = t; long k = 0; char sign = 0;
    switch (*f) {
      case '%': put('%'); continue;
      case 'c': t[0] = (char)va_arg(ap, int); k = 1; zero = false; break;
      case 's': o = va_arg(ap, const char*); k = 0; while ((prec < 0 || k < prec) && o[k]) ++k; zero = false; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
        unsigned long v; if (*f == 'd' || *f == 'i') { long q = sz == 3 ? va_arg(ap, long) : va_arg(ap, int); if (sz == 2) q = (short)q; if (sz == 1) q = (signed char)q; if (q < 0) { sign = '-'; v = 0ul - (unsigned long)q; } else { v = q; if (plus) sign = '+'; } }
        else { v = sz == 3 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (sz == 2) v = (unsigned short)v; if (sz == 1) v = (unsigned char)v; }
        if (prec >= 0) { if (prec > 20) unmodelled_format(); zero = false; }
        const unsigned base = *f == 'o' ? 8 : (*f | 32) == 'x' ? 16 : 10; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; char* e = t + 32; while (v || (k == 0 && prec != 0) || k < prec) { *--e = dg[v % base]; v /= base; ++k; } o = e; break; }
      default: unmodelled_format();
    }
    const long total = k + (sign != 0);
    if (!left && !zero) for (long i = total; i < w; ++i) put(' ');
    if (sign) put(sign); if (!left && zero) for (long i = total; i < w; ++i) put('0');
    for (long i = 0; i < k; ++i) put(o[i]); if (left) for (long i = total; i < w; ++i) put(' ');
  }
  if (cap) b[n < cap ? n : cap - 1] = 0; return (int)n;
}
extern "C" int snprintf(char* b, size_t cap, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r; }
extern "C" int sprintf(char* b, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, 0x7fffffff, f, ap); va_end(ap); return r; }
namespace std { void __throw_out_of_range_fmt(const char* s, ...) { char b[512]; va_list ap; va_start(ap, s); vsnprintf(b, sizeof b, s, ap); va_end(ap); throw out_of_range(b); } }

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static char* dup_(const char* s) { size_t n = strlen(s); char* p = new char[n + 1]; memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() : _M_p(dup_("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(nullptr) { char* p = new char[s.size() + 1]; memcpy(p, s.data(), s.size()); p[s.size()] = 0; _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) : _M_p(nullptr) { char* p = new char[n + 1]; memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup_(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { char* p = dup_(o._M_p); delete[] _M_p; _M_p = p; } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dup_(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }
#define EX_BASE(T) T::T(const string& s) : exception(), _M_msg(s) {} T::T(const char* s) : exception(), _M_msg(s, strlen(s)) {} T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } T::~T() noexcept {} const char* T::what() const noexcept { return _M_msg._M_p; }
EX_BASE(logic_error) EX_BASE(runtime_error)
#define EX_DER(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
EX_DER(domain_error, logic_error) EX_DER(invalid_argument, logic_error) EX_DER(length_error, logic_error) EX_DER(out_of_range, logic_error)
EX_DER(range_error, runtime_error) EX_DER(overflow_error, runtime_error) EX_DER(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system error"); }
}
extern "C" void m_bad_cast() __asm__("__cxa_bad_cast"); extern "C" void m_bad_cast() { throw std::bad_cast(); }
extern "C" void m_bad_anl() __asm__("__cxa_throw_bad_array_new_length"); extern "C" void m_bad_anl() { throw std::bad_array_new_length(); }

namespace std { __thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy() { __once_call(); } }

// ---------------------------------------------------------------- containers
namespace std {
// the ordering and iteration contract of std::map & co. without rebalancing
static _Rb_tree_node_base* inc_(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc_(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc_(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto*& root = h._M_parent; auto*& lm = h._M_left; auto*& rm = h._M_right;
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (u == root) root = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (lm == z) { _Rb_tree_node_base* n = z->_M_right; if (n) { while (n->_M_left) n = n->_M_left; lm = n; } else lm = z->_M_parent; }
  if (rm == z) { _Rb_tree_node_base* n = z->_M_left; if (n) { while (n->_M_right) n = n->_M_right; rm = n; } else rm = z->_M_parent; }
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { auto t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
struct _Prime_rehash_policy;
}
}
extern "C" size_t m_hash_bytes(const void* p, size_t n, size_t seed) __asm__("_ZSt11_Hash_bytesPKvmm");
extern "C" size_t m_hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h << 5) + h + ((const unsigned char*)p)[i]; return h; }
// buckets: powers of two are as good as primes for the contract
struct MRehash { float mlf; size_t next; };
extern "C" size_t m_next_bkt(const MRehash* self, size_t n) __asm__("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
extern "C" size_t m_next_bkt(const MRehash* self, size_t n) { size_t b = 13; while (b < n) b = b * 2 + 1; const_cast<MRehash*>(self)->next = b; return b; }
struct MPair { bool first; size_t second; };
extern "C" MPair m_need_rehash(const MRehash* self, size_t nb, size_t ne, size_t ins) __asm__("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
extern "C" MPair m_need_rehash(const MRehash* self, size_t nb, size_t ne, size_t ins) { if (ne + ins > self->next || nb == 1) { size_t want = ne + ins; if (want < 2 * nb) want = nb == 1 && want < 13 ? 13 : 2 * nb; size_t b = m_next_bkt(self, want); return {true, b}; } return {false, 0}; }

// ---------------------------------------------------------------- locale ("C")
namespace std {
typedef ctype_base::mask mk;
static mk maskOf(int c) {
  unsigned m = 0; if (isupper(c)) m |= ctype_base::upper; if (islower(c)) m |= ctype_base::lower; if (isalpha(c)) m |= ctype_base::alpha; if (isdigit(c)) m |= ctype_base::digit; if (isxdigit(c)) m |= ctype_base::xdigit;
  if (isspace(c)) m |= ctype_base::space; if (isprint(c)) m |= ctype_base::print; if (iscntrl(c)) m |= ctype_base::cntrl; if (ispunct(c)) m |= ctype_base::punct; if (isblank(c)) m |= ctype_base::blank; return (mk)m;
}
extern "C" void unmodelled_facet(); // ends the check
locale::facet::~facet() {}
locale::id ctype<char>::id;
ctype<char>::ctype(const mask* t, bool, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; ++i) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; } }
ctype<char>::~ctype() {}
const mk* ctype<char>::classic_table() noexcept { return nullptr; }
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* l, const char* h) const { for (; l < h; ++l) *l = do_toupper(*l); return h; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* l, const char* h) const { for (; l < h; ++l) *l = do_tolower(*l); return h; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
static mk theMask[256]; 
alignas(ctype<char>) static unsigned char ctypeMem[sizeof(ctype<char>)]; alignas(collate<char>) static unsigned char collMem[sizeof(collate<char>)]; alignas(messages<char>) static unsigned char msgMem[sizeof(messages<char>)]; alignas(locale::_Impl) static unsigned char implMem[sizeof(locale::_Impl)];
alignas(numpunct<char>) static unsigned char punctMem[sizeof(numpunct<char>)]; alignas(__numpunct_cache<char>) static unsigned char punctCache[sizeof(__numpunct_cache<char>)];
static const locale::facet* facetTab[8]; static const locale::facet* cacheTab[8];
static ctype<char>* theCtype; static locale::_Impl* theImpl;
__attribute__((constructor(101))) static void initLocale() {
  for (int i = 0; i < 256; ++i) theMask[i] = maskOf(i);
  theCtype = new (ctypeMem) ctype<char>(theMask, false, 1);
  facetTab[1] = theCtype; facetTab[2] = new (collMem) collate<char>(1); facetTab[3] = new (msgMem) messages<char>(1); facetTab[4] = new (punctMem) numpunct<char>(new (punctCache) __numpunct_cache<char>(1), 1);
  theImpl = (locale::_Impl*)implMem; theImpl->_M_refcount = 1; theImpl->_M_facets = facetTab; theImpl->_M_facets_size = 8; theImpl->_M_caches = cacheTab; theImpl->_M_names = nullptr;
}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
  _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
  _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
template <> int collate<char>::_M_compare(const char* a, const char* b) const noexcept { return strcmp(a, b); }
template <> size_t collate<char>::_M_transform(char* d, const char* s, size_t n) const noexcept { size_t k = strlen(s); for (size_t i = 0; i < n && i <= k; ++i) d[i] = s[i]; return k; }
template <> string messages<char>::do_get(catalog, int, int, const string& d) const { return d; }
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
const char* locale::facet::_S_get_c_name() noexcept { return "C"; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
__c_locale locale::facet::_S_clone_c_locale(__c_locale&) noexcept { return nullptr; }
size_t locale::id::_M_id() const noexcept { if (this == &std::ctype<char>::id) return 1; if (this == &std::collate<char>::id) return 2; if (this == &std::messages<char>::id) return 3; if (this == &std::numpunct<char>::id) return 4; unmodelled_facet(); return 7; }
locale::locale() noexcept : _M_impl(theImpl) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const noexcept { return _M_impl == o._M_impl; }
const locale& locale::classic() { static locale l; return l; }
string locale::name() const { return "C"; }

// ---------------------------------------------------------------- iostreams
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base_library_init() {}
ios_base::Init::Init() {} ios_base::Init::~Init() {}
}
#define OVR(ret, name, sym, ...) extern "C" ret name(__VA_ARGS__) __asm__(sym); extern "C" ret name(__VA_ARGS__)
OVR(bool, m_sync, "_ZNSt8ios_base15sync_with_stdioEb", bool) { return true; }
extern "C" char* strerror_r(int, char* b, size_t n) noexcept { const char t[] = "some error"; if (n < sizeof t) { if (n) b[0] = 0; return b; } for (size_t i = 0; i < sizeof t; ++i) b[i] = t[i]; return b; }
OVR(void, m_ios_init, "_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E", std::ios* s, std::streambuf* b) {
  s->std::ios_base::_M_init(); s->_M_ctype = std::theCtype; s->_M_num_put = nullptr; s->_M_num_get = nullptr; s->_M_fill = ' '; s->_M_fill_init = true; s->_M_tie = nullptr; s->_M_exception = std::ios_base::goodbit; s->_M_streambuf = b; s->_M_streambuf_state = b ? std::ios_base::goodbit : std::ios_base::badbit;
}
static std::ostream& put_num(std::ostream& o, unsigned long v, bool neg, bool sgnd = false) {
  if (o._M_streambuf_state != std::ios_base::goodbit) { o._M_streambuf_state |= std::ios_base::badbit; return o; }
  char b[72]; int n = 0; unsigned base = 10; auto bf = o.flags() & std::ios_base::basefield; if (bf == std::ios_base::hex) base = 16; else if (bf == std::ios_base::oct) base = 8;
  const char* dg = (o.flags() & std::ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
  const bool nz = v != 0; do { b[n++] = dg[v % base]; v /= base; } while (v);
  if ((o.flags() & std::ios_base::showbase) && nz && base != 10) { if (base == 16) b[n++] = (o.flags() & std::ios_base::uppercase) ? 'X' : 'x'; b[n++] = '0'; }
  if (neg) b[n++] = '-'; else if (sgnd && base == 10 && (o.flags() & std::ios_base::showpos)) b[n++] = '+';
  for (int i = 0, j = n - 1; i < j; ++i, --j) { char t = b[i]; b[i] = b[j]; b[j] = t; }
  long w = o.width(); o.width(0); auto adj = o.flags() & std::ios_base::adjustfield; bool left = adj == std::ios_base::left, internal = adj == std::ios_base::internal;
  auto* sb = o.rdbuf(); int k = 0;
  if (!left) { if (internal && (b[0] == '-' || b[0] == '+')) sb->sputc(b[k++]); else if (internal && base == 16 && n > 1 && (b[1] | 32) == 'x') { sb->sputc(b[k++]); sb->sputc(b[k++]); } for (long i = n; i < w; ++i) sb->sputc(o.fill()); }
  sb->sputn(b + k, n - k); if (left) for (long i = n; i < w; ++i) sb->sputc(o.fill());
  return o;
}
static std::ostream& put_signed(std::ostream& o, long v) { bool dec = (o.flags() & std::ios_base::basefield) != std::ios_base::hex && (o.flags() & std::ios_base::basefield) != std::ios_base::oct; return v < 0 && dec ? put_num(o, 0ul - (unsigned long)v, true, true) : put_num(o, (unsigned long)v, false, true); }
OVR(std::ostream&, m_ins_l, "_ZNSo9_M_insertIlEERSoT_", std::ostream* o, long v) { return put_signed(*o, v); }
OVR(std::ostream&, m_ins_ll, "_ZNSo9_M_insertIxEERSoT_", std::ostream* o, long long v) { return put_signed(*o, v); }
OVR(std::ostream&, m_ins_m, "_ZNSo9_M_insertImEERSoT_", std::ostream* o, unsigned long v) { return put_num(*o, v, false); }
OVR(std::ostream&, m_ins_y, "_ZNSo9_M_insertIyEERSoT_", std::ostream* o, unsigned long long v) { return put_num(*o, v, false); }
OVR(std::ostream&, m_ins_b, "_ZNSo9_M_insertIbEERSoT_", std::ostream* o, bool v) {
  if (o->_M_streambuf_state == std::ios_base::goodbit && (o->flags() & std::ios_base::boolalpha)) { const char* t = v ? "true" : "false"; long n = strlen(t), w = o->width(); o->width(0); bool left = (o->flags() & std::ios_base::adjustfield) == std::ios_base::left;
    if (!left) for (long i = n; i < w; ++i) o->rdbuf()->sputc(o->fill()); o->rdbuf()->sputn(t, n); if (left) for (long i = n; i < w; ++i) o->rdbuf()->sputc(o->fill()); return *o; }
  return put_num(*o, v, false, true);
}
// not modelled: ends the check with an error instead of taking the path of a missing facet
extern "C" void unmodelled_stream_operation(); 
OVR(std::ostream&, m_ins_d, "_ZNSo9_M_insertIdEERSoT_", std::ostream* o, double) { unmodelled_stream_operation(); return *o; }
OVR(std::ostream&, m_ins_e, "_ZNSo9_M_insertIeEERSoT_", std::ostream* o, long double) { unmodelled_stream_operation(); return *o; }
OVR(std::ostream&, m_ins_p, "_ZNSo9_M_insertIPKvEERSoT_", std::ostream* o, const void*) { unmodelled_stream_operation(); return *o; }
OVR(std::istream&, m_ext_s, "_ZNSirsERs", std::istream* i, short&) { unmodelled_stream_operation(); return *i; }
OVR(std::istream&, m_ext_f, "_ZNSi10_M_extractIfEERSiRT_", std::istream* i, float&) { unmodelled_stream_operation(); return *i; }
OVR(std::istream&, m_ext_d, "_ZNSi10_M_extractIdEERSiRT_", std::istream* i, double&) { unmodelled_stream_operation(); return *i; }
OVR(std::istream&, m_ext_b, "_ZNSi10_M_extractIbEERSiRT_", std::istream* i, bool&) { unmodelled_stream_operation(); return *i; }
OVR(std::istream&, m_ext_t, "_ZNSi10_M_extractItEERSiRT_", std::istream* i, unsigned short&) { unmodelled_stream_operation(); return *i; }
static std::istream& get_num(std::istream& is, long& out) {
  auto* b = is.rdbuf(); unsigned base = 10; auto bf = is.flags() & std::ios_base::basefield; if (bf == std::ios_base::hex) base = 16; else if (bf == std::ios_base::oct) base = 8; else if (!bf) base = 10;
  int c = b->sgetc(); if (is.flags() & std::ios_base::skipws) while (c != EOF && isspace(c)) c = b->snextc();
  if (c == EOF) { is._M_streambuf_state |= std::ios_base::eofbit | std::ios_base::failbit; return is; }
  bool neg = false, any = false, over = false; if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
  unsigned long v = 0;
  if (base == 16 && c == '0') { any = true; c = b->snextc(); if (c != EOF && (c | 32) == 'x') { any = false; c = b->snextc(); } }
  for (; c != EOF; c = b->snextc()) { unsigned d; if ((unsigned)c - '0' < 10u) d = c - '0'; else if (((unsigned)c | 32u) - 'a' < 26u) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (0x7ffffffffffffffful - d) / base) over = true; else v = v * base + d; }
  auto st = std::ios_base::goodbit; if (c == EOF) st |= std::ios_base::eofbit; if (!any) { out = 0; st |= std::ios_base::failbit; } else if (over) { out = neg ? (long)0x8000000000000000ul : 0x7fffffffffffffffl; st |= std::ios_base::failbit; } else out = neg ? -(long)v : (long)v;
  is._M_streambuf_state |= st; return is;
}
OVR(std::istream&, m_ext_i, "_ZNSirsERi", std::istream* is, int& v) {
  if (is->_M_streambuf_state != std::ios_base::goodbit) { is->_M_streambuf_state |= std::ios_base::failbit; return *is; }
  long t = v; get_num(*is, t); if (t < -2147483648l) { is->_M_streambuf_state |= std::ios_base::failbit; t = -2147483648l; } else if (t > 2147483647l) { is->_M_streambuf_state |= std::ios_base::failbit; t = 2147483647l; } v = (int)t; return *is;
}
OVR(std::istream&, m_ext_l, "_ZNSi10_M_extractIlEERSiRT_", std::istream* is, long& v) { if (is->_M_streambuf_state != std::ios_base::goodbit) { is->_M_streambuf_state |= std::ios_base::failbit; return *is; } return get_num(*is, v); }
OVR(std::istream&, m_ext_x, "_ZNSi10_M_extractIxEERSiRT_", std::istream* is, long long& v) { if (is->_M_streambuf_state != std::ios_base::goodbit) { is->_M_streambuf_state |= std::ios_base::failbit; return *is; } long t = v; get_num(*is, t); v = t; return *is; }
OVR(std::istream&, m_ext_j, "_ZNSi10_M_extractIjEERSiRT_", std::istream* i, unsigned&) { unmodelled_stream_operation(); return *i; }
OVR(std::istream&, m_ext_y, "_ZNSi10_M_extractIyEERSiRT_", std::istream* i, unsigned long long&) { unmodelled_stream_operation(); return *i; }
OVR(std::istream&, m_ext_m, "_ZNSi10_M_extractImEERSiRT_", std::istream* i, unsigned long&) { unmodelled_stream_operation(); return *i; }

OVR(std::istream&, m_ext_str, "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", std::istream& is, std::string& s) {
  if (is._M_streambuf_state != std::ios_base::goodbit) { is._M_streambuf_state |= std::ios_base::failbit; return is; }
  auto* b = is.rdbuf(); int c = b->sgetc(); auto st = std::ios_base::goodbit;
  if (is.flags() & std::ios_base::skipws) while (c != EOF && isspace(c)) c = b->snextc();
  if (c == EOF && (is.flags() & std::ios_base::skipws)) { is._M_streambuf_state |= std::ios_base::eofbit | std::ios_base::failbit; return is; }
  s.clear(); const long w = is.width(); const size_t n = w > 0 ? (size_t)w : s.max_size(); size_t k = 0;
  while (k < n && c != EOF && !isspace(c)) { s += (char)c; ++k; c = b->snextc(); }
  if (k < n && c == EOF) st |= std::ios_base::eofbit; is.width(0); if (!k) st |= std::ios_base::failbit; is._M_streambuf_state |= st; return is;
}
OVR(std::istream&, m_getline, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", std::istream& is, std::string& s, char d) {
  if (is._M_streambuf_state != std::ios_base::goodbit) { is._M_streambuf_state |= std::ios_base::failbit; return is; }
  s.clear(); auto* b = is.rdbuf(); bool any = false; int c = b->sgetc();
  for (;; c = b->sgetc()) { if (c == EOF) { is._M_streambuf_state |= std::ios_base::eofbit; break; } any = true; b->sbumpc(); if (c == (unsigned char)d) break; s += (char)c; }
  if (!any) is._M_streambuf_state |= std::ios_base::failbit; return is;
}

// ---------------------------------------------------------------- gumbo
// libgumbo is installed without source: these follow its documented contract
// (gumbo.h) and are compared with the real library by tools/check_models.
extern "C" {
const GumboOptions kGumboDefaultOptions = {};
const GumboVector kGumboEmptyVector = {nullptr, 0, 0};
const GumboStringPiece kGumboEmptyString = {nullptr, 0};
const GumboSourcePosition kGumboEmptySourcePosition = {0, 0, 0};
GumboTag gumbo_tagn_enum(const char* s, unsigned n) {
  unsigned r = GUMBO_TAG_UNKNOWN;
  for (unsigned i = 0; i < HSX_NTAGS; ++i) if (hsx_taglen[i] == n && n) { unsigned d = 0; for (unsigned j = 0; j < n; ++j) d |= (unsigned)(lo((unsigned char)s[j]) ^ (unsigned char)hsx_tagname[i][j]); r = d ? r : i; }
  return (GumboTag)r;
}
GumboTag gumbo_tag_enum(const char* s) { return gumbo_tagn_enum(s, (unsigned)strlen(s)); }
const char* gumbo_normalized_tagname(GumboTag t) { if (!((unsigned)t <= GUMBO_TAG_LAST)) abort(); return (unsigned)t < HSX_NTAGS ? hsx_tagname[t] : ""; }
void gumbo_tag_from_original_text(GumboStringPiece* t) {
  if (!t->data) return;
  if (!(t->length >= 2 && t->data[0] == '<' && t->data[t->length - 1] == '>')) abort();
  if (t->data[1] == '/') { t->data += 2; t->length -= 3; return; }
  t->data += 1; t->length -= 2;
  for (size_t i = 0; i < t->length; ++i) if (isspace((unsigned char)t->data[i]) || t->data[i] == '/') { t->length = i; break; }
}
bool gumbo_string_equals(const GumboStringPiece* a, const GumboStringPiece* b) { return a->length == b->length && !memcmp(a->data, b->data, a->length); }
bool gumbo_string_equals_ignore_case(const GumboStringPiece* a, const GumboStringPiece* b) {
  if (a->length != b->length) return false; unsigned d = 0; for (size_t i = 0; i < a->length; ++i) d |= (unsigned)(lo((unsigned char)a->data[i]) ^ lo((unsigned char)b->data[i])); return !d;
}
GumboAttribute* gumbo_get_attribute(const GumboVector* v, const char* name) {
  for (unsigned i = 0; i < v->length; ++i) { auto* a = (GumboAttribute*)v->data[i]; if (!strcasecmp(a->name, name)) return a; } return nullptr;
}
}
