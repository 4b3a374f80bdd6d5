// Symbolic state: copy-on-write memory, frames, path condition.
#pragma once
#include "expr.h"
#include <memory>
#include <set>
#include <map>

namespace hsx {

struct Val { uint64_t c = 0; E e = nullptr; };

template <class T> struct Rc {
  T* p;
  Rc() : p(nullptr) {}
  explicit Rc(T* q) : p(q) {}
  Rc(const Rc& o) : p(o.p) { if (p) ++p->rc; }
  Rc(Rc&& o) noexcept : p(o.p) { o.p = nullptr; }
  Rc& operator=(Rc o) noexcept { std::swap(p, o.p); return *this; }
  ~Rc() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
};

enum Kind : uint8_t { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWA, K_EXC };
static const char* kindName[] = {"global", "stack", "malloc", "new", "new[]", "exception"};

struct Obj {
  uint32_t rc = 1; uint32_t size; Kind kind; bool readonly = false; bool frozen = false;
  const void* site = nullptr;             // allocating instruction / global
  uint8_t* data; E* sym = nullptr; uint8_t* init = nullptr; // init==nullptr: fully initialised
  Obj(uint32_t n, Kind k, bool initialised) : size(n), kind(k) {
    data = (uint8_t*)calloc(1, n ? n : 1);
    if (!initialised && n) init = (uint8_t*)calloc(1, n);
  }
  Obj(const Obj& o) : size(o.size), kind(o.kind), readonly(o.readonly), frozen(o.frozen), site(o.site) {
    data = (uint8_t*)malloc(size ? size : 1); memcpy(data, o.data, size);
    if (o.sym) { sym = (E*)malloc(size * sizeof(E)); memcpy(sym, o.sym, size * sizeof(E)); }
    if (o.init) { init = (uint8_t*)malloc(size); memcpy(init, o.init, size); }
  }
  ~Obj() { free(data); free(sym); free(init); }
};

struct Chunk { uint32_t rc = 1; uint32_t live = 0; Rc<Obj> o[64]; };

struct Mem {
  std::vector<Rc<Chunk>> top;
  uint64_t nextId = 1;
  Obj* get(uint64_t id) const {
    uint64_t t = id >> 6; if (t >= top.size() || !top[t].p) return nullptr; return top[t].p->o[id & 63].p;
  }
  Chunk* wchunk(uint64_t t) {
    if (t >= top.size()) top.resize(t + 1);
    auto& r = top[t];
    if (!r.p) r = Rc<Chunk>(new Chunk);
    else if (r.p->rc > 1) { Chunk* n = new Chunk(); n->live = r.p->live; for (int i = 0; i < 64; ++i) n->o[i] = r.p->o[i]; r = Rc<Chunk>(n); }
    return r.p;
  }
  Obj* getw(uint64_t id) {
    Chunk* c = wchunk(id >> 6); auto& r = c->o[id & 63];
    if (r.p && r.p->rc > 1) { Obj* n = new Obj(*r.p); r = Rc<Obj>(n); }
    return r.p;
  }
  uint64_t add(Obj* o) { uint64_t id = nextId++; Chunk* c = wchunk(id >> 6); c->o[id & 63] = Rc<Obj>(o); c->live++; return id; }
  void del(uint64_t id) {
    Chunk* c = wchunk(id >> 6); c->o[id & 63] = Rc<Obj>(); if (--c->live == 0 && (id >> 6) != (nextId >> 6)) top[id >> 6] = Rc<Chunk>();
  }
};

struct Func; struct Inst;

struct Frame {
  const Func* f; uint32_t base; const Inst* pc; uint32_t allocMark; uint64_t onRetFree; uint64_t frameId; uint64_t varargs = 0;
};

struct ExcInfo { uint64_t obj, ti, dtor; int handlers; bool rethrown; uint64_t adj; };

struct Model { uint32_t rc = 1; uint64_t stamp; std::vector<uint64_t> v; };

struct DomNode { uint32_t rc = 1; ExprCtx::Dom d; };

struct State {
  std::vector<Frame> frames; std::vector<Val> regs; std::vector<uint64_t> allocas;
  Mem mem;
  std::vector<ExcInfo> excs;        // live exceptions
  std::vector<uint64_t> caught;     // stack of exception object addresses
  std::vector<E> cons; uint64_t multiMask = 0; // multi-symbol (or wide) constraints
  std::vector<Rc<DomNode>> dom;     // per symbol (8-bit): allowed values
  std::vector<std::pair<uint8_t, uint32_t>> syms; // width, name id
  Rc<Model> model;
  std::vector<Val> observed; std::vector<uint8_t> observedW;
  uint64_t savedFreeze = 0; uint32_t guardDepth = 0;
  uint64_t freezeBelow = 0;         // objects with id < freezeBelow may not be written
  uint64_t steps = 0, branches = 0;
  uint32_t depth = 0;
  bool leakCheck = true;
};

} // namespace hsx
