// Hash-consed bit-vector expressions (width 1..64) with simplification,
// concrete evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <unordered_map>
#include <z3.h>

namespace hsx {

enum Op : uint8_t {
  O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE
};

struct Expr {
  Op op; uint8_t w; uint8_t lo; bool undef;
  uint32_t id; uint32_t sym;          // sym: the single 8-bit symbol index (unary), or SYM_NONE/SYM_MANY
  uint64_t c;                          // constant value / symbol index
  const Expr *a, *b, *d;
  uint64_t mask;                       // symbol set (bit 63 = all symbols >= 63)
  mutable uint64_t stamp, val;         // evaluation cache
  uint64_t hash;
  const Expr* next;
};
static const uint32_t SYM_NONE = ~0u, SYM_MANY = ~0u - 1;
typedef const Expr* E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct SymInfo { std::string name; unsigned w; };

struct ExprCtx {
  std::vector<const Expr*> table; size_t count = 0; uint32_t nextId = 1;
  std::vector<SymInfo> syms;             // global symbol table: symbol k (creation index on a path) has width w
  std::vector<E> symExpr;
  std::unordered_map<uint64_t, E> symByKey;
  char* arena = nullptr; size_t arenaLeft = 0;
  uint64_t bytesUsed = 0;
  ExprCtx() { table.resize(1 << 16); }

  Expr* alloc() {
    if (arenaLeft < sizeof(Expr)) { arena = (char*)malloc(1 << 20); arenaLeft = 1 << 20; bytesUsed += 1 << 20; }
    Expr* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
  }
  static uint64_t mix(uint64_t h, uint64_t v) { v *= 0x9e3779b97f4a7c15ull; v ^= v >> 29; h = (h ^ v) * 0xff51afd7ed558ccdull + 0x2545f4914f6cdd1dull; h ^= h >> 32; return h; }
  void grow() {
    std::vector<const Expr*> n(table.size() * 2);
    for (auto p : table) while (p) { auto nx = p->next; auto& s = n[p->hash & (n.size() - 1)]; ((Expr*)p)->next = s; s = p; p = nx; }
    table.swap(n);
  }
  E intern(Op op, unsigned w, unsigned lo, uint64_t c, E a, E b, E d) {
    uint64_t h = mix(mix(mix(mix(mix(op * 131 + w, lo), c), a ? a->id : 0), b ? b->id : 0), d ? d->id : 0);
    auto& slot = table[h & (table.size() - 1)];
    for (E p = slot; p; p = p->next)
      if (p->hash == h && p->op == op && p->w == w && p->lo == lo && p->c == c && p->a == a && p->b == b && p->d == d) return p;
    Expr* e = alloc();
    e->op = op; e->w = w; e->lo = lo; e->c = c; e->a = a; e->b = b; e->d = d; e->hash = h; e->id = nextId++; e->stamp = 0; e->val = 0;
    e->mask = 0; e->sym = SYM_NONE; e->undef = false;
    if (op == O_SYM) { e->mask = c >= 63 ? (1ull << 63) : (1ull << c); e->sym = w == 8 ? (uint32_t)c : SYM_MANY; }
    for (E k : {a, b, d}) if (k) {
      e->mask |= k->mask; e->undef |= k->undef;
      if (k->sym != SYM_NONE) { if (e->sym == SYM_NONE) e->sym = k->sym; else if (e->sym != k->sym) e->sym = SYM_MANY; }
    }
    e->next = slot; slot = e;
    if (++count > table.size()) grow();
    return e;
  }
  E konst(uint64_t v, unsigned w) { return intern(O_CONST, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
  E symbol(unsigned idx, unsigned w) { return intern(O_SYM, w, 0, idx, nullptr, nullptr, nullptr); }
  E undefByte = nullptr;
  E undef8() { if (!undefByte) { Expr* e = (Expr*)intern(O_SYM, 8, 0, 0xffffffu, nullptr, nullptr, nullptr); e->undef = true; e->sym = SYM_MANY; e->mask = 1ull << 63; undefByte = e; } return undefByte; }

  static bool isC(E e) { return e->op == O_CONST; }
  static uint64_t fold(Op op, unsigned w, uint64_t x, uint64_t y, unsigned opw) {
    // w: result width, opw: operand width
    switch (op) {
      case O_ADD: return (x + y) & maskw(w);
      case O_SUB: return (x - y) & maskw(w);
      case O_MUL: return (x * y) & maskw(w);
      case O_UDIV: return y ? (x / y) & maskw(w) : maskw(w);
      case O_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : maskw(w); if (b == -1) return (0 - (uint64_t)a) & maskw(w); return (uint64_t)(a / b) & maskw(w); }
      case O_UREM: return y ? (x % y) & maskw(w) : x;
      case O_SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & maskw(w); }
      case O_AND: return x & y;
      case O_OR: return x | y;
      case O_XOR: return x ^ y;
      case O_SHL: return y >= w ? 0 : (x << y) & maskw(w);
      case O_LSHR: return y >= w ? 0 : (x >> y);
      case O_ASHR: { int64_t a = sx(x, w); return (uint64_t)(y >= w ? (a < 0 ? -1 : 0) : (a >> y)) & maskw(w); }
      case O_EQ: return x == y;
      case O_ULT: return x < y;
      case O_ULE: return x <= y;
      case O_SLT: return sx(x, opw) < sx(y, opw);
      case O_SLE: return sx(x, opw) <= sx(y, opw);
      default: abort();
    }
  }
  E notE(E x) { return bin(O_XOR, x, konst(1, 1)); }
  E bin(Op op, E x, E y) {
    unsigned opw = x->w, w = (op >= O_EQ && op <= O_SLE) ? 1 : opw;
    if (x->w != y->w) { fprintf(stderr, "hsx: width mismatch op %d %d %d\n", op, x->w, y->w); abort(); }
    if (isC(x) && isC(y)) return konst(fold(op, w, x->c, y->c, opw), w);
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
    if (comm && (isC(x) || (!isC(y) && x->id > y->id))) std::swap(x, y);
    bool yc = isC(y); uint64_t c = yc ? y->c : 0; uint64_t m = maskw(opw);
    // if one side is an ite over constants and the other constant, push in
    if (yc && x->op == O_ITE && isC(x->b) && isC(x->d) && op != O_UDIV && op != O_SDIV && op != O_UREM && op != O_SREM)
      return ite(x->a, konst(fold(op, w, x->b->c, c, opw), w), konst(fold(op, w, x->d->c, c, opw), w));
    if (isC(x) && y->op == O_ITE && isC(y->b) && isC(y->d) && op != O_UDIV && op != O_SDIV && op != O_UREM && op != O_SREM)
      return ite(y->a, konst(fold(op, w, x->c, y->b->c, opw), w), konst(fold(op, w, x->c, y->d->c, opw), w));
    switch (op) {
      case O_ADD:
        if (yc && c == 0) return x;
        if (yc && x->op == O_ADD && isC(x->b)) return bin(O_ADD, x->a, konst(x->b->c + c, w));
        if (!yc && x->op == O_ADD && isC(x->b)) return bin(O_ADD, bin(O_ADD, x->a, y), x->b);
        if (!yc && y->op == O_ADD && isC(y->b)) return bin(O_ADD, bin(O_ADD, x, y->a), y->b);
        break;
      case O_SUB:
        if (x == y) return konst(0, w);
        if (yc) return bin(O_ADD, x, konst(0 - c, w));
        if (x->op == O_ADD && x->a == y) return x->b;
        if (x->op == O_ADD && x->b == y) return x->a;
        break;
      case O_MUL:
        if (yc && c == 0) return y;
        if (yc && c == 1) return x;
        break;
      case O_UDIV: if (yc && c == 1) return x; break;
      case O_SDIV: if (yc && c == 1) return x; break;
      case O_UREM: if (yc && c == 1) return konst(0, w); if (yc && c && !(c & (c - 1))) return bin(O_AND, x, konst(c - 1, w)); break;
      case O_AND:
        if (x == y) return x;
        if (yc && c == 0) return y;
        if (yc && c == m) return x;
        if (yc && x->op == O_AND && isC(x->b)) return bin(O_AND, x->a, konst(x->b->c & c, w));
        if (yc && x->op == O_ZEXT) { unsigned iw = x->a->w; return zext(bin(O_AND, x->a, konst(c, iw)), w); }
        if (yc && w > 1 && (c & (c + 1)) == 0) { unsigned k = __builtin_popcountll(c); return zext(extract(x, 0, k), w); }
        if (w == 1 && (isNotOf(x, y))) return konst(0, 1);
        break;
      case O_OR:
        if (x == y) return x;
        if (yc && c == 0) return x;
        if (yc && c == m) return y;
        if (w == 1 && (isNotOf(x, y))) return konst(1, 1);
        // concat built from shifts: (zext(a) << k) | zext(b) with b->w <= k
        { E r = orConcat(x, y); if (r) return r; r = orConcat(y, x); if (r) return r; }
        break;
      case O_XOR:
        if (x == y) return konst(0, w);
        if (yc && c == 0) return x;
        if (yc && x->op == O_XOR && isC(x->b)) return bin(O_XOR, x->a, konst(x->b->c ^ c, w));
        if (w == 1 && yc && c == 1) {
          if (x->op == O_ULT) return bin(O_ULE, x->b, x->a);
          if (x->op == O_ULE) return bin(O_ULT, x->b, x->a);
          if (x->op == O_SLT) return bin(O_SLE, x->b, x->a);
          if (x->op == O_SLE) return bin(O_SLT, x->b, x->a);
        }
        break;
      case O_SHL: case O_LSHR: case O_ASHR:
        if (yc && c == 0) return x;
        if (yc && op == O_SHL) { if (c >= w) return konst(0, w); return concat(extract(x, 0, w - c), konst(0, c)); }
        if (yc && op == O_LSHR) { if (c >= w) return konst(0, w); return zext(extract(x, c, w - c), w); }
        if (yc && op == O_ASHR) { if (c >= w) c = w - 1; return sext(extract(x, c, w - c), w); }
        break;
      case O_EQ:
        if (x == y) return konst(1, 1);
        if (opw == 1) { if (yc) return c ? x : notE(x); return notE(bin(O_XOR, x, y)); }
        if (yc) {
          if (x->op == O_ZEXT) { if (c & ~maskw(x->a->w)) return konst(0, 1); return bin(O_EQ, x->a, konst(c, x->a->w)); }
          if (x->op == O_SEXT) { uint64_t t = c & maskw(x->a->w); if (((uint64_t)sx(t, x->a->w) & m) != c) return konst(0, 1); return bin(O_EQ, x->a, konst(t, x->a->w)); }
          if (x->op == O_CONCAT) return bin(O_AND, bin(O_EQ, x->a, konst(c >> x->b->w, x->a->w)), bin(O_EQ, x->b, konst(c, x->b->w)));
          if (x->op == O_ADD && isC(x->b)) return bin(O_EQ, x->a, konst(c - x->b->c, opw));
          if (x->op == O_XOR && isC(x->b)) return bin(O_EQ, x->a, konst(c ^ x->b->c, opw));
          if (x->op == O_ITE) {
            if (isC(x->b) && x->b->c != c) return bin(O_AND, notE(x->a), bin(O_EQ, x->d, y));
            if (isC(x->d) && x->d->c != c) return bin(O_AND, x->a, bin(O_EQ, x->b, y));
            if (isC(x->b)) return bin(O_OR, x->a, bin(O_EQ, x->d, y));
            if (isC(x->d)) return bin(O_OR, notE(x->a), bin(O_EQ, x->b, y));
          }
        } else {
          if (x->op == O_ZEXT && y->op == O_ZEXT && x->a->w == y->a->w) return bin(O_EQ, x->a, y->a);
          if (x->op == O_SEXT && y->op == O_SEXT && x->a->w == y->a->w) return bin(O_EQ, x->a, y->a);
          if (x->op == O_CONCAT && y->op == O_CONCAT && x->b->w == y->b->w) return bin(O_AND, bin(O_EQ, x->a, y->a), bin(O_EQ, x->b, y->b));
        }
        break;
      case O_ULT:
        if (x == y) return konst(0, 1);
        if (yc && c == 0) return konst(0, 1);
        if (yc && c == 1) return bin(O_EQ, x, konst(0, opw));
        if (isC(x) && x->c == m) return konst(0, 1);
        if (yc && x->op == O_ZEXT) { if (c > maskw(x->a->w)) return konst(1, 1); return bin(O_ULT, x->a, konst(c, x->a->w)); }
        if (isC(x) && y->op == O_ZEXT) { if (x->c >= maskw(y->a->w)) return konst(0, 1); return bin(O_ULT, konst(x->c, y->a->w), y->a); }
        if (x->op == O_ZEXT && y->op == O_ZEXT && x->a->w == y->a->w) return bin(O_ULT, x->a, y->a);
        break;
      case O_ULE:
        if (x == y) return konst(1, 1);
        if (isC(x) && x->c == 0) return konst(1, 1);
        if (yc && c == m) return konst(1, 1);
        if (yc && c == 0) return bin(O_EQ, x, y);
        if (yc && x->op == O_ZEXT) { if (c >= maskw(x->a->w)) return konst(1, 1); return bin(O_ULE, x->a, konst(c, x->a->w)); }
        if (isC(x) && y->op == O_ZEXT) { if (x->c > maskw(y->a->w)) return konst(0, 1); return bin(O_ULE, konst(x->c, y->a->w), y->a); }
        if (x->op == O_ZEXT && y->op == O_ZEXT && x->a->w == y->a->w) return bin(O_ULE, x->a, y->a);
        break;
      case O_SLT: case O_SLE:
        if (x == y) return konst(op == O_SLE, 1);
        if (x->op == O_ZEXT && yc) { if (sx(c, opw) < 0) return konst(0, 1); return bin(op == O_SLT ? O_ULT : O_ULE, x, y); }
        if (y->op == O_ZEXT && isC(x)) { if (sx(x->c, opw) < 0) return konst(1, 1); return bin(op == O_SLT ? O_ULT : O_ULE, x, y); }
        if (x->op == O_ZEXT && y->op == O_ZEXT) return bin(op == O_SLT ? O_ULT : O_ULE, x, y);
        if (x->op == O_SEXT && yc) { unsigned iw = x->a->w; int64_t s = sx(c, opw); int64_t mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
          if (s > mx) return konst(1, 1); if (s < mn) return konst(0, 1); return bin(op, x->a, konst((uint64_t)s, iw)); }
        if (y->op == O_SEXT && isC(x)) { unsigned iw = y->a->w; int64_t s = sx(x->c, opw); int64_t mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
          if (s > mx) return konst(0, 1); if (s < mn) return konst(1, 1); return bin(op, konst((uint64_t)s, iw), y->a); }
        break;
      default: break;
    }
    return intern(op, w, 0, 0, x, y, nullptr);
  }
  bool isNotOf(E x, E y) { return (x->op == O_XOR && isC(x->b) && x->b->c == 1 && x->a == y) || (y->op == O_XOR && isC(y->b) && y->b->c == 1 && y->a == x); }
  E orConcat(E hi, E lo) {
    // hi == concat(H, 0^k) ; lo == zext(L) with L->w <= k
    if (hi->op == O_CONCAT && isC(hi->b) && hi->b->c == 0) {
      unsigned k = hi->b->w;
      if (lo->op == O_ZEXT && lo->a->w <= k) return concat(hi->a, zext(lo->a, k));
      if (isC(lo) && lo->c <= maskw(k)) return concat(hi->a, konst(lo->c, k));
    }
    if (hi->op == O_ZEXT && hi->a->op == O_CONCAT && isC(hi->a->b) && hi->a->b->c == 0) {
      unsigned k = hi->a->b->w;
      if (lo->op == O_ZEXT && lo->a->w <= k) return zext(concat(hi->a->a, zext(lo->a, k)), hi->w);
      if (isC(lo) && lo->c <= maskw(k)) return zext(concat(hi->a->a, konst(lo->c, k)), hi->w);
    }
    return nullptr;
  }
  E zext(E x, unsigned w) {
    if (x->w == w) return x;
    if (isC(x)) return konst(x->c, w);
    if (x->op == O_ZEXT) return zext(x->a, w);
    if (x->op == O_ITE && isC(x->b) && isC(x->d)) return ite(x->a, konst(x->b->c, w), konst(x->d->c, w));
    return intern(O_ZEXT, w, 0, 0, x, nullptr, nullptr);
  }
  E sext(E x, unsigned w) {
    if (x->w == w) return x;
    if (isC(x)) return konst((uint64_t)sx(x->c, x->w), w);
    if (x->op == O_ZEXT) return zext(x->a, w);
    if (x->op == O_SEXT) return sext(x->a, w);
    if (x->op == O_ITE && isC(x->b) && isC(x->d)) return ite(x->a, sext(x->b, w), sext(x->d, w));
    return intern(O_SEXT, w, 0, 0, x, nullptr, nullptr);
  }
  E extract(E x, unsigned lo, unsigned w) {
    if (lo == 0 && w == x->w) return x;
    if (isC(x)) return konst(x->c >> lo, w);
    switch (x->op) {
      case O_EXTRACT: return extract(x->a, x->lo + lo, w);
      case O_ZEXT: if (lo >= x->a->w) return konst(0, w); if (lo + w <= x->a->w) return extract(x->a, lo, w);
        return zext(extract(x->a, lo, x->a->w - lo), w);
      case O_SEXT: if (lo + w <= x->a->w) return extract(x->a, lo, w);
        if (lo == 0) return sext(x->a, w);
        if (lo < x->a->w) return sext(extract(x->a, lo, x->a->w - lo), w);
        return sext(extract(x->a, x->a->w - 1, 1), w);
      case O_CONCAT: { unsigned bw = x->b->w; if (lo + w <= bw) return extract(x->b, lo, w); if (lo >= bw) return extract(x->a, lo - bw, w);
        return concat(extract(x->a, 0, lo + w - bw), extract(x->b, lo, bw - lo)); }
      case O_AND: case O_OR: case O_XOR: if (isC(x->b) || w == 1) return bin(x->op, extract(x->a, lo, w), extract(x->b, lo, w)); break;
      case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return bin(x->op, extract(x->a, 0, w), extract(x->b, 0, w)); break;
      case O_ITE: if (isC(x->b) || isC(x->d)) return ite(x->a, extract(x->b, lo, w), extract(x->d, lo, w)); break;
      default: break;
    }
    return intern(O_EXTRACT, w, lo, 0, x, nullptr, nullptr);
  }
  bool low(E hi, E lo) { // hi = extract(x, k, ..) and lo = extract(x, 0, k), where the latter is written as an operation on extracts
    if (hi->op != O_EXTRACT || hi->lo != lo->w) return false;
    E x = hi->a;
    return (x->op == O_ADD || x->op == O_SUB || x->op == O_MUL) && extract(x, 0, lo->w) == lo;
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "hsx: concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return konst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(hi->a, lo->lo, w);
    if (hi->op == O_EXTRACT && hi->a == lo && hi->lo == lo->w) return extract(lo, 0, w);
    // the low part of x may have been pushed into x's operator: recognise extract(x, 0, k) in that form too
    if (low(hi, lo)) return extract(hi->a, 0, w);
    if (hi->op == O_CONCAT && low(hi->b, lo)) return concat(hi->a, extract(hi->b->a, 0, hi->b->w + lo->w));
    // hi = extract(x, k..), lo = concat(.., extract) : re-associate to merge
    if (lo->op == O_CONCAT) { E l = lo->a; if (hi->op == O_EXTRACT && l->op == O_EXTRACT && hi->a == l->a && hi->lo == l->lo + l->w) return concat(extract(hi->a, l->lo, hi->w + l->w), lo->b); 
      if (isC(hi) && isC(l)) return concat(konst((hi->c << l->w) | l->c, hi->w + l->w), lo->b); }
    if (hi->op == O_CONCAT) { E h = hi->b; if (h->op == O_EXTRACT && lo->op == O_EXTRACT && h->a == lo->a && h->lo == lo->lo + lo->w) return concat(hi->a, extract(h->a, lo->lo, h->w + lo->w));
      if (isC(h) && isC(lo)) return concat(hi->a, konst((h->c << lo->w) | lo->c, h->w + lo->w)); }
    if (hi->op == O_ZEXT) return zext(concat(hi->a, lo), w);
    return intern(O_CONCAT, w, 0, 0, hi, lo, nullptr);
  }
  E ite(E c, E t, E f) {
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
      if (isC(t) && isC(f)) return t->c ? c : notE(c);
      if (isC(t)) return t->c ? bin(O_OR, c, f) : bin(O_AND, notE(c), f);
      if (isC(f)) return f->c ? bin(O_OR, notE(c), t) : bin(O_AND, c, t);
    }
    if (c->op == O_XOR && isC(c->b) && c->b->c == 1) { return ite(c->a, f, t); }
    if (t->op == O_ITE && t->a == c) t = t->b;
    if (f->op == O_ITE && f->a == c) f = f->d;
    if (t == f) return t;
    return intern(O_ITE, t->w, 0, 0, c, t, f);
  }

  // ---- evaluation under a model ---------------------------------------
  uint64_t eval(E e, const uint64_t* model, size_t n, uint64_t stamp) {
    if (e->op == O_CONST) return e->c;
    if (e->stamp == stamp) return e->val;
    uint64_t r;
    switch (e->op) {
      case O_SYM: r = e->c < n ? model[e->c] & maskw(e->w) : 0; break;
      case O_ZEXT: r = eval(e->a, model, n, stamp); break;
      case O_SEXT: r = (uint64_t)sx(eval(e->a, model, n, stamp), e->a->w) & maskw(e->w); break;
      case O_EXTRACT: r = (eval(e->a, model, n, stamp) >> e->lo) & maskw(e->w); break;
      case O_CONCAT: r = (eval(e->a, model, n, stamp) << e->b->w) | eval(e->b, model, n, stamp); break;
      case O_ITE: r = eval(e->a, model, n, stamp) ? eval(e->b, model, n, stamp) : eval(e->d, model, n, stamp); break;
      default: r = fold(e->op, e->w, eval(e->a, model, n, stamp), eval(e->b, model, n, stamp), e->a->w);
    }
    e->stamp = stamp; e->val = r; return r;
  }

  // truth set of a boolean expression over one 8-bit symbol
  typedef std::array<uint64_t, 4> Dom;
  std::unordered_map<uint32_t, Dom> truthCache;
  uint64_t stampGen = 1;
  std::vector<uint64_t> scratch;
  const Dom& truth(E e) {
    auto it = truthCache.find(e->id); if (it != truthCache.end()) return it->second;
    Dom d{}; if (scratch.size() <= e->sym) scratch.resize(e->sym + 64);
    for (unsigned v = 0; v < 256; ++v) { scratch[e->sym] = v; if (eval(e, scratch.data(), scratch.size(), ++stampGen)) d[v >> 6] |= 1ull << (v & 63); }
    return truthCache.emplace(e->id, d).first->second;
  }

  std::string str(E e, int depth = 6) {
    static const char* n[] = {"c","s","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","=","<u","<=u","<s","<=s","zx","sx","ex","++","ite"};
    if (e->op == O_CONST) { char b[40]; snprintf(b, 40, "%lld:%d", (long long)e->c, e->w); return b; }
    if (e->op == O_SYM) return "s" + std::to_string(e->c);
    if (!depth) return "...";
    std::string s = std::string("(") + n[e->op];
    if (e->op == O_EXTRACT) s += std::to_string(e->lo) + "," + std::to_string(e->w);
    for (E k : {e->a, e->b, e->d}) if (k) s += " " + str(k, depth - 1);
    return s + ")";
  }
};

} // namespace hsx
