// C21: the wrapper that swig generates from pyhext.i, with the Python C API
// replaced by objects that count their references and may fail at any call.
#include <Python.h>
#include "result.h"
#include <map>
#include <new>
#include <vector>
namespace py {
static int live, fallible; static bool mayFail, failed; static PyObject* error;
struct Str { PyObject_HEAD std::string s; };
struct Int { PyObject_HEAD uint64_t v; bool fits; };
struct Dict { PyObject_HEAD std::vector<std::pair<PyObject*, PyObject*>> items; };
static bool fails(PyObject* type) { ++fallible; if (mayFail && !failed && hsx::flip("this call fails")) { failed = true; error = type; return true; } return false; }
static bool utf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    const unsigned char c = (unsigned char)s[i]; auto more = [&](size_t k, unsigned char lo, unsigned char hi) { if (i + k >= s.size()) return false; const unsigned char d = (unsigned char)s[i + k]; return d >= lo && d <= hi; };
    if (c < 0x80) { ++i; continue; }
    if (c < 0xc2 || c > 0xf4) return false;
    if (!more(1, c == 0xe0 ? 0xa0 : c == 0xf0 ? 0x90 : 0x80, c == 0xed ? 0x9f : c == 0xf4 ? 0x8f : 0xbf)) return false;
    if (c < 0xe0) { i += 2; continue; }
    if (!more(2, 0x80, 0xbf)) return false;
    if (c < 0xf0) { i += 3; continue; }
    if (!more(3, 0x80, 0xbf)) return false;
    i += 4;
  }
  return true;
}
template <class T> static T* make(PyTypeObject* t) { T* o = new T(); ((PyObject*)o)->ob_refcnt = 1; ((PyObject*)o)->ob_type = t; ++live; return o; }
static bool is(PyObject* o, PyTypeObject* t) { return o && o->ob_type == t; }
}
extern "C" {
PyTypeObject PyUnicode_Type, PyList_Type, PyDict_Type, PyTuple_Type, PyLong_Type, PyFloat_Type, PyBytes_Type; PyObject _Py_NoneStruct;
#define EXC(n) static PyObject n##_; PyObject* PyExc_##n = &n##_;
EXC(RuntimeError) EXC(ValueError) EXC(TypeError) EXC(MemoryError) EXC(UnicodeDecodeError) EXC(SystemError) EXC(OverflowError) EXC(IOError) EXC(IndexError) EXC(ZeroDivisionError) EXC(SyntaxError) EXC(AttributeError) EXC(StopIteration) EXC(Exception)
PyObject* PyUnicode_FromStringAndSize(const char* s, Py_ssize_t n) {
  if (py::fails(PyExc_MemoryError)) return nullptr; std::string t; if (n) t.assign(s, (size_t)n);
  if (!py::utf8(t)) { py::failed = true; py::error = PyExc_UnicodeDecodeError; return nullptr; }
  auto* o = py::make<py::Str>(&PyUnicode_Type); o->s = t; return (PyObject*)o;
}
PyObject* PyUnicode_FromString(const char* s) { return PyUnicode_FromStringAndSize(s, (Py_ssize_t)strlen(s)); }
PyObject* PyUnicode_DecodeUTF8(const char* s, Py_ssize_t n, const char* errors) { hsx::check(!errors || !strcmp(errors, "strict"), "values are decoded strictly"); return PyUnicode_FromStringAndSize(s, n); }
PyObject* PyUnicode_InternFromString(const char* s) { return PyUnicode_FromString(s); }
const char* PyUnicode_AsUTF8AndSize(PyObject* o, Py_ssize_t* n) { /* what swig does after a failure here is its own affair */ auto* s = (py::Str*)o; if (n) *n = (Py_ssize_t)s->s.size(); return s->s.c_str(); }
const char* PyUnicode_AsUTF8(PyObject* o) { return PyUnicode_AsUTF8AndSize(o, nullptr); }
PyObject* PyList_New(Py_ssize_t n) {
  if (py::fails(PyExc_MemoryError)) return nullptr; auto* l = py::make<PyListObject>(&PyList_Type); ((PyVarObject*)l)->ob_size = n; l->allocated = n; l->ob_item = n ? (PyObject**)calloc((size_t)n, sizeof(PyObject*)) : nullptr; return (PyObject*)l;
}
int PyList_Append(PyObject* o, PyObject* x) {
  hsx::check(py::is(o, &PyList_Type) && x, "only lists are appended to"); if (py::fails(PyExc_MemoryError)) return -1; auto* l = (PyListObject*)o; auto& n = ((PyVarObject*)l)->ob_size;
  if (n == l->allocated) { l->allocated = n * 2 + 2; l->ob_item = (PyObject**)realloc(l->ob_item, (size_t)l->allocated * sizeof(PyObject*)); }
  Py_INCREF(x); l->ob_item[n++] = x; return 0;
}
int PyList_SetItem(PyObject* o, Py_ssize_t i, PyObject* x) { auto* l = (PyListObject*)o; if (i < 0 || i >= ((PyVarObject*)l)->ob_size) { Py_XDECREF(x); py::error = PyExc_IndexError; return -1; } PyObject* old = l->ob_item[i]; l->ob_item[i] = x; Py_XDECREF(old); return 0; }
Py_ssize_t PyList_Size(PyObject* o) { return ((PyVarObject*)o)->ob_size; }
PyObject* PyList_GetItem(PyObject* o, Py_ssize_t i) { return ((PyListObject*)o)->ob_item[i]; }
PyObject* PyDict_New(void) { if (py::fails(PyExc_MemoryError)) return nullptr; return (PyObject*)py::make<py::Dict>(&PyDict_Type); }
static PyObject** dictFind(PyObject* d, PyObject* k) { for (auto& p : ((py::Dict*)d)->items) if (((py::Str*)p.first)->s == ((py::Str*)k)->s) return &p.second; return nullptr; }
int PyDict_SetItem(PyObject* d, PyObject* k, PyObject* v) {
  hsx::check(py::is(d, &PyDict_Type) && py::is(k, &PyUnicode_Type) && v, "only dicts are set"); if (py::fails(PyExc_MemoryError)) return -1;
  if (PyObject** old = dictFind(d, k)) { Py_INCREF(v); PyObject* o = *old; *old = v; Py_DECREF(o); return 0; }
  Py_INCREF(k); Py_INCREF(v); ((py::Dict*)d)->items.push_back({k, v}); return 0;
}
int PyDict_SetItemString(PyObject* d, const char* k, PyObject* v) { PyObject* key = PyUnicode_FromString(k); if (!key) return -1; const int r = PyDict_SetItem(d, key, v); Py_DECREF(key); return r; }
PyObject* PyDict_GetItem(PyObject* d, PyObject* k) { PyObject** v = dictFind(d, k); return v ? *v : nullptr; }
PyObject* PyDict_GetItemWithError(PyObject* d, PyObject* k) { return PyDict_GetItem(d, k); }
PyObject* PyDict_GetItemString(PyObject* d, const char* k) { for (auto& p : ((py::Dict*)d)->items) if (((py::Str*)p.first)->s == k) return p.second; return nullptr; }
int PyDict_Contains(PyObject* d, PyObject* k) { return dictFind(d, k) != nullptr; }
void PyErr_SetString(PyObject* t, const char*) { py::error = t; }
PyObject* PyErr_Format(PyObject* t, const char*, ...) { py::error = t; return nullptr; }
PyObject* PyErr_NoMemory(void) { py::error = PyExc_MemoryError; return nullptr; }
PyObject* PyErr_Occurred(void) { return py::error; }
void PyErr_Clear(void) { py::error = nullptr; }
int PyErr_ExceptionMatches(PyObject* t) { return py::error == t; }
int PyErr_GivenExceptionMatches(PyObject* e, PyObject* t) { return e == t; }
void PyErr_Fetch(PyObject** t, PyObject** v, PyObject** b) { *t = py::error; *v = *b = nullptr; py::error = nullptr; }
void PyErr_Restore(PyObject* t, PyObject* v, PyObject* b) { py::error = t; Py_XDECREF(v); Py_XDECREF(b); }
PyObject* PyUnicode_FromFormat(const char*, ...) { return PyUnicode_FromString("message"); }
unsigned long long PyLong_AsUnsignedLongLong(PyObject* o) { auto* i = (py::Int*)o; if (!i->fits) { py::error = PyExc_OverflowError; return (unsigned long long)-1; } return i->v; }
unsigned long PyLong_AsUnsignedLong(PyObject* o) { return PyLong_AsUnsignedLongLong(o); }
int PyType_Ready(PyTypeObject*) { return 0; }
int PyType_IsSubtype(PyTypeObject* a, PyTypeObject* b) { return a == b; }
PyObject** _PyObject_GetDictPtr(PyObject*) { return nullptr; }
PyObject* PyObject_GetAttr(PyObject*, PyObject*) { py::error = PyExc_AttributeError; return nullptr; }
PyTypeObject _PyWeakref_ProxyType, _PyWeakref_CallableProxyType;
int PyObject_IsInstance(PyObject*, PyObject*) { return 0; }
PyObject* _PyObject_New(PyTypeObject* t) { if (py::fails(PyExc_MemoryError)) return nullptr; auto* o = (PyObject*)calloc(1, (size_t)t->tp_basicsize); o->ob_refcnt = 1; o->ob_type = t; ++py::live; return o; }
void PyObject_Free(void* o) { --py::live; free(o); }
void _Py_Dealloc(PyObject* o) {
  if (py::is(o, &PyUnicode_Type)) { --py::live; delete (py::Str*)o; }
  else if (py::is(o, &PyLong_Type)) { --py::live; delete (py::Int*)o; }
  else if (py::is(o, &PyDict_Type)) { auto* d = (py::Dict*)o; for (auto& p : d->items) { Py_DECREF(p.first); Py_DECREF(p.second); } --py::live; delete d; }
  else if (py::is(o, &PyList_Type) || py::is(o, &PyTuple_Type)) { auto* l = (PyListObject*)o; for (Py_ssize_t i = 0; i < ((PyVarObject*)l)->ob_size; ++i) Py_XDECREF(l->ob_item[i]); free(l->ob_item); --py::live; delete l; }
  else if (o->ob_type && o->ob_type->tp_dealloc) o->ob_type->tp_dealloc(o);
  else hsx::check(false, "only objects with references left are released");
}
}
#include "python_wrap.cxx"
#include "wrapper/Html.cpp"
#include "wrapper/Rule.cpp"
namespace {
PyObject* str(const std::string& s) { auto* o = py::make<py::Str>(&PyUnicode_Type); o->s = s; return (PyObject*)o; }
struct Args { PyVarObject head; PyObject* item[3]; };
bool isStr(PyObject* o, const std::string& s) { return py::is(o, &PyUnicode_Type) && o->ob_refcnt == 1 && ((py::Str*)o)->s == s; }
bool same(PyObject* o, const hext::Result& r) {
  if (!py::is(o, &PyList_Type) || o->ob_refcnt != 1 || (size_t)PyList_Size(o) != r.size()) return false;
  for (size_t g = 0; g < r.size(); ++g) {
    PyObject* d = PyList_GetItem(o, (Py_ssize_t)g); if (!py::is(d, &PyDict_Type) || d->ob_refcnt != 1) return false;
    auto& items = ((py::Dict*)d)->items; const res::Group want = res::group(r[g]); if (items.size() != want.size()) return false;
    for (auto& w : want) {
      PyObject* v = nullptr; for (auto& p : items) if (isStr(p.first, w.first)) v = p.second;
      if (!v) return false;
      if (w.second.size() == 1) { if (!isStr(v, w.second[0])) return false; continue; }
      if (!py::is(v, &PyList_Type) || v->ob_refcnt != 1 || (size_t)PyList_Size(v) != w.second.size()) return false;
      for (size_t i = 0; i < w.second.size(); ++i) if (!isStr(PyList_GetItem(v, (Py_ssize_t)i), w.second[i])) return false;
    }
  }
  return true;
}
bool allText(const hext::Result& r) { for (auto& g : r) for (auto& p : g) if (!py::utf8(p.first) || !py::utf8(p.second)) return false; return true; }
void types() {
  PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS; PyList_Type.tp_flags = Py_TPFLAGS_LIST_SUBCLASS; PyDict_Type.tp_flags = Py_TPFLAGS_DICT_SUBCLASS; PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; PyLong_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS;
  PyTypeObject* all[] = {&PyUnicode_Type, &PyList_Type, &PyDict_Type, &PyTuple_Type, &PyLong_Type}; for (auto* t : all) t->tp_name = "type";
  _Py_NoneStruct.ob_refcnt = 1000; SWIGTYPE_p_Rule = &_swigt__p_Rule; SWIGTYPE_p_Html = &_swigt__p_Html; SwigPyObject_type();
}
}
extern "C" void hsx_main() {
  types(); auto& w = res::world();
#if MODE == 0
  // extraction
  w.result = res::any(); w.outcome = hsx::pick("extraction", 0, 2); 
  auto* html = new Html("<p>"); auto* rule = new Rule("<a/>");
  PyObject *ph = SwigPyObject_New(html, SWIGTYPE_p_Html, 0), *pr = SwigPyObject_New(rule, SWIGTYPE_p_Rule, 0);
  Args args; ((PyObject*)&args)->ob_refcnt = 1; ((PyObject*)&args)->ob_type = &PyTuple_Type; args.item[0] = pr; args.item[1] = ph;
  const bool three = hsx::flip("with a budget"); args.head.ob_size = three ? 3 : 2; auto* budget = py::make<py::Int>(&PyLong_Type); budget->v = hsx::u64("budget"); budget->fits = !three || hsx::flip("the budget fits"); args.item[2] = (PyObject*)budget;
  py::mayFail = hsx::flip("a call may fail"); const int before = py::live;
  PyObject* got = _wrap_Rule_extract(nullptr, (PyObject*)&args);
  if (budget->fits) { hsx::check(w.extractions == 1, "one extraction"); hsx::check(w.budget == (three ? budget->v : 0), "the budget is passed on"); hsx::check(w.root == &g_root, "the extraction starts at the root of the document"); }
  else hsx::check(w.extractions == 0, "no extraction with a wrong budget");
  if (!budget->fits || w.outcome || py::failed || !allText(w.result)) {
    hsx::check(!got, "a failure gives no object"); hsx::check(py::error != nullptr, "a failure is a Python exception"); if (w.outcome == 1 && budget->fits && !py::failed) { hsx::check(py::error == PyExc_RuntimeError, "an exhausted budget is a RuntimeError"); hsx::reach("budget exhausted"); }
    hsx::reach(py::failed ? "failed call" : "failure");
  } else {
    hsx::check(got != nullptr, "an extraction gives an object"); hsx::check(py::error == nullptr, "no exception without failure");
    if (got) { hsx::check(same(got, w.result), "the list is exactly the result"); Py_DECREF(got); } hsx::reach("result");
  }
  hsx::check(py::live == before, "every other object is released"); hsx::check(ph->ob_refcnt == 1 && pr->ob_refcnt == 1, "the arguments keep their references");
  hsx::observe((uint64_t)py::fallible);
  py::mayFail = false; Py_DECREF(ph); Py_DECREF(pr); Py_DECREF((PyObject*)budget); delete rule; delete html;
#else
  // construction and destruction
  const bool rule = hsx::flip("a rule"); w.syntaxError = rule && hsx::flip("syntax error"); py::mayFail = hsx::flip("a call may fail");
  const std::string t = res::some("text", (size_t)hsx::pick("length", 0, VLEN)); PyObject* s = str(t); const int before = py::live;
  PyObject* got = rule ? _wrap_new_Rule(nullptr, s) : _wrap_new_Html(nullptr, s);
  if (py::failed) { hsx::check(!got && py::error, "a failure is a Python exception"); hsx_leak_ok(); hsx::reach("failed call"); }
  else {
    hsx::check(rule ? w.parsed == 1 && w.text == t : w.documents == 1 && w.html == t, "the whole text is used");
    if (w.syntaxError) { hsx::check(!got && py::error == PyExc_ValueError, "a syntax error is a ValueError"); hsx::reach("syntax error"); }
    else {
      hsx::check(got && !py::error, "an object is made"); hsx::check(py::live == before + 1 && w.released == 0, "one object is made");
      PyObject* none = rule ? _wrap_delete_Rule(nullptr, got) : _wrap_delete_Html(nullptr, got); hsx::check(none == Py_None && w.released == (rule ? 0 : 1), "deleting releases"); Py_DECREF(got); hsx::reach("object");
    }
  }
  hsx::check(py::live == before, "every other object is released"); hsx::check(s->ob_refcnt == 1, "the argument keeps its references"); Py_DECREF(s);
#endif
}
