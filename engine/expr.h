// Symbolic expression DAG: hash-consed bit-vector / IEEE-754 terms with a
// simplifier, a concrete evaluator and a lowering to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum EOp : u8 {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_EXTRACT, E_CONCAT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FEQ, E_FLT, E_FLE, E_FUNO,
  E_FRND, // aux: rounding mode: 0 trunc 1 floor 2 ceil 3 nearest-even 4 nearest-away
  E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPEXT, E_FPTRUNC, E_FSQRT,
  E_TABLE
};

struct Expr {
  EOp op; uint16_t w; u32 id; u32 aux; u32 sz;
  Expr *k[3];
  u128 c;
  u64 hash;
  u64 stamp; u128 ev;
  Z3_ast zbv, zbool;
  int varset; // index into varsets (-1 unknown)
  bool fp;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct Table { unsigned ew; std::vector<u64> v; };

struct ExprMgr {
  std::vector<Expr*> buckets; size_t nexpr = 0; std::vector<Expr*> all;
  std::vector<Expr*> vars; std::vector<u128> model; u64 stamp = 1;
  std::vector<std::vector<u32>> varsets;
  std::vector<Table> tables;
  char *arena = nullptr; size_t arenaLeft = 0;
  Z3_context z3 = nullptr;
  ExprMgr() { buckets.resize(1 << 16); }

  Expr *alloc() { if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 20; arena = (char*)malloc(arenaLeft); } Expr *e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e; }
  void rehash() { std::vector<Expr*> nb(buckets.size() * 4); u64 m = nb.size() - 1; for (Expr *e : all) { u64 i = e->hash & m; while (nb[i]) i = (i + 1) & m; nb[i] = e; } buckets.swap(nb); }
  Expr *mk(EOp op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *cc = nullptr, u128 c = 0, u32 aux = 0) {
    u64 h = op * 0x9E3779B97F4A7C15ull ^ ((u64)w << 40) ^ aux * 0xC2B2AE3D27D4EB4Full;
    auto mix = [&](u64 v) { h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(cc ? cc->id + 1 : 0); mix((u64)c); mix((u64)(c >> 64)); mix(aux);
    u64 m = buckets.size() - 1, i = h & m;
    while (Expr *e = buckets[i]) { if (e->hash == h && e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == cc && e->c == c && e->aux == aux) return e; i = (i + 1) & m; }
    Expr *e = alloc(); e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = cc; e->c = c; e->aux = aux; e->hash = h; e->id = nexpr++; e->stamp = 0; e->zbv = e->zbool = nullptr; e->varset = -1;
    u64 s = 1; for (int j = 0; j < 3; j++) if (e->k[j]) s += e->k[j]->sz; e->sz = s > 0x7fffffff ? 0x7fffffff : s;
    e->fp = (op >= E_FADD && op <= E_FSQRT); for (int j = 0; j < 3; j++) if (e->k[j] && e->k[j]->fp) e->fp = true;
    buckets[i] = e; all.push_back(e); if (nexpr * 2 > buckets.size()) rehash(); return e;
  }
  Expr *C(unsigned w, u128 v) { return mk(E_CONST, w, 0, 0, 0, v & maskw(w)); }
  Expr *newVar(unsigned w, u128 init = 0) { u32 id = vars.size(); Expr *e = mk(E_VAR, w, 0, 0, 0, 0, id); vars.push_back(e); model.push_back(init); stamp++; return e; }
  static bool isC(Expr *e) { return e->op == E_CONST; }
  Expr *T() { return C(1, 1); } Expr *F() { return C(1, 0); }

  // number of low bits that can be non-zero
  unsigned activeBits(Expr *e, int d = 0) {
    if (d > 6) return e->w;
    switch (e->op) {
      case E_CONST: { unsigned n = 0; u128 v = e->c; while (v) { n++; v >>= 1; } return n; }
      case E_ZEXT: return activeBits(e->k[0], d + 1);
      case E_AND: return std::min(activeBits(e->k[0], d + 1), activeBits(e->k[1], d + 1));
      case E_OR: case E_XOR: return std::max(activeBits(e->k[0], d + 1), activeBits(e->k[1], d + 1));
      case E_ITE: return std::max(activeBits(e->k[1], d + 1), activeBits(e->k[2], d + 1));
      case E_CONCAT: if (isC(e->k[0]) && e->k[0]->c == 0) return activeBits(e->k[1], d + 1); { unsigned h = activeBits(e->k[0], d + 1); return h ? h + e->k[1]->w : activeBits(e->k[1], d + 1); }
      case E_LSHR: if (isC(e->k[1])) { unsigned a = activeBits(e->k[0], d + 1); u128 s = e->k[1]->c; return s >= a ? 0 : a - (unsigned)s; } return activeBits(e->k[0], d + 1);
      case E_UREM: if (isC(e->k[1]) && e->k[1]->c) return std::min(activeBits(e->k[0], d + 1), activeBits(C(e->w, e->k[1]->c - 1))); return e->w;
      case E_UDIV: return activeBits(e->k[0], d + 1);
      case E_ADD: { unsigned m = std::max(activeBits(e->k[0], d + 1), activeBits(e->k[1], d + 1)) + 1; return std::min<unsigned>(m, e->w); }
      case E_MUL: { unsigned m = activeBits(e->k[0], d + 1) + activeBits(e->k[1], d + 1); return std::min<unsigned>(m, e->w); }
      default: return e->w;
    }
  }
  // unsigned ranges under the current path condition: facts are bounds the path
  // condition puts on a term, rng() pushes them through the operators
  std::unordered_map<Expr*, std::pair<u128, u128>> facts;
  void fact(Expr *e, u128 lo, u128 hi) { auto it = facts.find(e); if (it == facts.end()) { facts[e] = {lo, hi}; return; } it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); }
  void learn(Expr *c) {
    bool neg = false; if (c->op == E_XOR && c->w == 1 && isC(c->k[1]) && c->k[1]->c) { neg = true; c = c->k[0]; }
    if (c->op == E_EXTRACT && c->w == 1 && c->aux + 1 == c->k[0]->w && c->k[0]->w > 1) { u128 h = (u128)1 << c->aux; Expr *e = c->k[0]; if (neg) fact(e, 0, h - 1); else fact(e, h, maskw(e->w)); return; }
    if (neg) return;
    if (c->op == E_ULT) { Expr *a = c->k[0], *b = c->k[1]; if (isC(b) && b->c) down(a, 0, b->c - 1); else if (isC(a)) down(b, a->c + 1, maskw(b->w)); }
    else if (c->op == E_EQ && isC(c->k[1])) down(c->k[0], c->k[1]->c, c->k[1]->c);
  }
  void down(Expr *e, u128 lo, u128 hi) { fact(e, lo, hi); if (e->op == E_ZEXT) down(e->k[0], std::min(lo, maskw(e->k[0]->w)), std::min(hi, maskw(e->k[0]->w)));
    else if (e->op == E_CONCAT && hi < maskw(e->w) >> 1 && hi >> e->k[1]->w == 0) { fact(e->k[0], 0, 0); down(e->k[1], lo, hi); } }
  std::pair<u128, u128> rng(Expr *e, int d = 0) {
    u128 m = maskw(e->w), lo = 0, hi = m;
    if (e->op == E_CONST) return {e->c, e->c};
    if (d < 7) switch (e->op) {
      case E_ZEXT: { auto a = rng(e->k[0], d + 1); lo = a.first; hi = a.second; break; }
      case E_SEXT: { auto a = rng(e->k[0], d + 1); if (a.second <= maskw(e->k[0]->w - 1)) { lo = a.first; hi = a.second; } break; }
      case E_EXTRACT: { auto a = rng(e->k[0], d + 1); u128 x = a.first >> e->aux, y = a.second >> e->aux; if (y <= m) { lo = x; hi = y; } break; }
      case E_CONCAT: { auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); unsigned l = e->k[1]->w; lo = a.first << l | b.first; hi = a.second << l | b.second; break; }
      case E_ADD: { if (e->w == 128) break; auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); u128 x = a.first + b.first, y = a.second + b.second; if (y <= m) { lo = x; hi = y; } else if (x > m) { lo = x - m - 1; hi = y - m - 1; } break; }
      case E_SUB: { auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); if (a.first >= b.second) { lo = a.first - b.second; hi = a.second - b.first; } else if (a.second < b.first) { lo = (a.first - b.second) & m; hi = (a.second - b.first) & m; } break; }
      case E_MUL: { auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); u128 y; if (!__builtin_mul_overflow(a.second, b.second, &y) && y <= m) { lo = a.first * b.first; hi = y; } break; }
      case E_UDIV: { auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); if (b.first) { lo = a.first / b.second; hi = a.second / b.first; } break; }
      case E_UREM: { auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); if (b.first) hi = std::min(a.second, b.second - 1); break; }
      case E_AND: { auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); hi = std::min(a.second, b.second); break; }
      case E_OR: case E_XOR: { auto a = rng(e->k[0], d + 1), b = rng(e->k[1], d + 1); u128 y = a.second | b.second; y |= y >> 1; y |= y >> 2; y |= y >> 4; y |= y >> 8; y |= y >> 16; y |= y >> 32; y |= y >> 64; hi = y; if (e->op == E_OR) lo = std::max(a.first, b.first); break; }
      case E_ITE: { auto a = rng(e->k[1], d + 1), b = rng(e->k[2], d + 1); lo = std::min(a.first, b.first); hi = std::max(a.second, b.second); break; }
      case E_TABLE: break;
      default: break;
    }
    if (!facts.empty()) { auto it = facts.find(e); if (it != facts.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); } }
    if (lo > hi) return {0, m}; // the path condition is unsatisfiable: leave that to the solver
    return {lo, hi};
  }
  Expr *Not(Expr *a) { return Xor(a, C(a->w, maskw(a->w))); }
  Expr *Extract(Expr *e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->op) {
      case E_CONST: return C(w, e->c >> lo);
      case E_EXTRACT: return Extract(e->k[0], e->aux + lo, w);
      case E_CONCAT: { unsigned lw = e->k[1]->w; if (lo + w <= lw) return Extract(e->k[1], lo, w); if (lo >= lw) return Extract(e->k[0], lo - lw, w);
        return Concat(Extract(e->k[0], 0, lo + w - lw), Extract(e->k[1], lo, lw - lo)); }
      case E_ZEXT: { unsigned kw = e->k[0]->w; if (lo >= kw) return C(w, 0); if (lo + w <= kw) return Extract(e->k[0], lo, w); return Zext(Extract(e->k[0], lo, kw - lo), w); }
      case E_SEXT: { unsigned kw = e->k[0]->w; if (lo + w <= kw) return Extract(e->k[0], lo, w); if (lo == 0) return Sext(e->k[0], w); if (lo >= kw) return Sext(Extract(e->k[0], kw - 1, 1), w); break; }
      case E_AND: return And(Extract(e->k[0], lo, w), Extract(e->k[1], lo, w));
      case E_OR: return Or(Extract(e->k[0], lo, w), Extract(e->k[1], lo, w));
      case E_XOR: return Xor(Extract(e->k[0], lo, w), Extract(e->k[1], lo, w));
      case E_ITE: if (isC(e->k[1]) || isC(e->k[2]) || e->sz < 200) return Ite(e->k[0], Extract(e->k[1], lo, w), Extract(e->k[2], lo, w)); break;
      case E_ADD: if (lo == 0) return Add(Extract(e->k[0], 0, w), Extract(e->k[1], 0, w)); break;
      case E_SUB: if (lo == 0) return Sub(Extract(e->k[0], 0, w), Extract(e->k[1], 0, w)); break;
      case E_MUL: if (lo == 0 && w <= 64) return Mul(Extract(e->k[0], 0, w), Extract(e->k[1], 0, w)); break;
      default: break;
    }
    if (lo >= activeBits(e)) return C(w, 0);
    if (!facts.empty()) { auto r = rng(e, 3); if (r.first >> lo == r.second >> lo) return C(w, r.first >> lo); }
    return mk(E_EXTRACT, w, e, 0, 0, 0, lo);
  }
  Expr *Concat(Expr *h, Expr *l) {
    unsigned w = h->w + l->w;
    if (isC(h) && isC(l)) return C(w, (h->c << l->w) | l->c);
    if (isC(h) && h->c == 0) return Zext(l, w);
    if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->w) return Extract(h->k[0], l->aux, w);
    if (h->op == E_EXTRACT && h->aux >= l->w && (l->op == E_ADD || l->op == E_SUB || l->op == E_MUL || l->op == E_ZEXT || l->op == E_ITE) && Extract(h->k[0], h->aux - l->w, l->w) == l) return Extract(h->k[0], h->aux - l->w, w);
    if (l->op == E_CONCAT) { // keep right-leaning: try merging h with l.hi
      Expr *lh = l->k[0];
      if (h->op == E_EXTRACT && h->aux >= lh->w && (lh->op == E_ADD || lh->op == E_SUB || lh->op == E_MUL || lh->op == E_ITE) && Extract(h->k[0], h->aux - lh->w, lh->w) == lh) return Concat(Extract(h->k[0], h->aux - lh->w, h->w + lh->w), l->k[1]);
      if ((h->op == E_EXTRACT && lh->op == E_EXTRACT && h->k[0] == lh->k[0] && h->aux == lh->aux + lh->w) || (isC(h) && isC(lh))) return Concat(Concat(h, lh), l->k[1]);
    }
    if (h->op == E_CONCAT) return Concat(h->k[0], Concat(h->k[1], l));
    if (h->op == E_ZEXT) return Zext(Concat(h->k[0], l), w);
    if (l->op == E_ZEXT) { // make zero explicit so that neighbours can merge
      return mk(E_CONCAT, w, h, mk(E_CONCAT, l->w, C(l->w - l->k[0]->w, 0), l->k[0]));
    }
    return mk(E_CONCAT, w, h, l);
  }
  Expr *Zext(Expr *e, unsigned w) {
    if (e->w == w) return e;
    if (isC(e)) return C(w, e->c);
    if (e->op == E_ZEXT) return Zext(e->k[0], w);
    if (e->op == E_CONCAT && isC(e->k[0]) && e->k[0]->c == 0) return Zext(e->k[1], w);
    if (e->op == E_ITE && (isC(e->k[1]) || isC(e->k[2]))) return Ite(e->k[0], Zext(e->k[1], w), Zext(e->k[2], w));
    unsigned ab = activeBits(e); if (ab < e->w && ab > 0 && e->op != E_AND && e->op != E_ITE) { Expr *x = Extract(e, 0, ab); if (x->op != E_EXTRACT || x->k[0] != e) return Zext(x, w); }
    return mk(E_ZEXT, w, e);
  }
  Expr *Sext(Expr *e, unsigned w) {
    if (e->w == w) return e;
    if (isC(e)) return C(w, (u128)sx(e->c, e->w));
    if (e->op == E_SEXT) return Sext(e->k[0], w);
    if (activeBits(e) < e->w) return Zext(e, w);
    if (e->op == E_ITE && (isC(e->k[1]) || isC(e->k[2]))) return Ite(e->k[0], Sext(e->k[1], w), Sext(e->k[2], w));
    return mk(E_SEXT, w, e);
  }
  Expr *Add(Expr *a, Expr *b) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (isC(a)) return C(a->w, a->c + b->c); if (b->c == 0) return a; if (a->op == E_ADD && isC(a->k[1])) return Add(a->k[0], C(a->w, a->k[1]->c + b->c));
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return Ite(a->k[0], Add(a->k[1], b), Add(a->k[2], b)); }
    if (a->w == 1) return Xor(a, b);
    if (a->op == E_SUB && a->k[1] == b) return a->k[0];
    if (b->op == E_SUB && b->k[1] == a) return b->k[0];
    if (a->op == E_ADD && isC(a->k[1]) && !isC(b)) return Add(Add(a->k[0], b), a->k[1]);
    if (b->op == E_ADD && isC(b->k[1])) return Add(Add(a, b->k[0]), b->k[1]);
    if (a->id > b->id && !isC(b)) std::swap(a, b);
    return mk(E_ADD, a->w, a, b);
  }
  Expr *Sub(Expr *a, Expr *b) {
    if (a == b) return C(a->w, 0);
    if (isC(b)) return Add(a, C(a->w, (u128)0 - b->c));
    if (a->w == 1) return Xor(a, b);
    if (a->op == E_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0];
      if (isC(a->k[1])) return Add(Sub(a->k[0], b), a->k[1]); }
    return mk(E_SUB, a->w, a, b);
  }
  Expr *Mul(Expr *a, Expr *b) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (isC(a)) return C(a->w, a->c * b->c); if (b->c == 0) return b; if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return Shl(a, C(a->w, s)); }
      if (a->op == E_ITE && (isC(a->k[1]) && isC(a->k[2]))) return Ite(a->k[0], Mul(a->k[1], b), Mul(a->k[2], b)); }
    if (a->id > b->id && !isC(b)) std::swap(a, b);
    return mk(E_MUL, a->w, a, b);
  }
  Expr *Udiv(Expr *a, Expr *b) {
    if (isC(b) && b->c) { if (isC(a)) return C(a->w, a->c / b->c); if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return Lshr(a, C(a->w, s)); } 
      if (a->op == E_ITE && (isC(a->k[1]) && isC(a->k[2]))) return Ite(a->k[0], Udiv(a->k[1], b), Udiv(a->k[2], b));
      unsigned ab = activeBits(a); unsigned bb = activeBits(b); if (bb > ab) return C(a->w, 0); unsigned m = std::max(ab, bb); if (m < a->w) return Zext(mk(E_UDIV, m, Extract(a, 0, m), Extract(b, 0, m)), a->w); }
    if (isC(b) && b->c) { auto r = rng(a); if (r.first / b->c == r.second / b->c) return C(a->w, r.first / b->c); }
    return mk(E_UDIV, a->w, a, b);
  }
  Expr *Urem(Expr *a, Expr *b) {
    if (isC(b) && b->c) { if (isC(a)) return C(a->w, a->c % b->c); if (b->c == 1) return C(a->w, 0);
      if ((b->c & (b->c - 1)) == 0) { return And(a, C(a->w, b->c - 1)); }
      unsigned ab = activeBits(a); unsigned bb = activeBits(b); if (bb > ab) return a; unsigned m = std::max(ab, bb); if (m < a->w) return Zext(mk(E_UREM, m, Extract(a, 0, m), Extract(b, 0, m)), a->w); }
    if (isC(b) && b->c) { auto r = rng(a); u128 q = r.first / b->c; if (q == r.second / b->c) return q ? Sub(a, C(a->w, q * b->c)) : a; }
    return mk(E_UREM, a->w, a, b);
  }
  Expr *Sdiv(Expr *a, Expr *b) {
    if (isC(a) && isC(b) && b->c) { i128 x = sx(a->c, a->w), y = sx(b->c, b->w); if (y == -1) return C(a->w, (u128)0 - a->c); return C(a->w, (u128)(x / y)); }
    if (isC(b) && sx(b->c, b->w) > 0 && activeBits(a) < a->w) return Udiv(a, b);
    return mk(E_SDIV, a->w, a, b);
  }
  Expr *Srem(Expr *a, Expr *b) {
    if (isC(a) && isC(b) && b->c) { i128 x = sx(a->c, a->w), y = sx(b->c, b->w); if (y == -1) return C(a->w, 0); return C(a->w, (u128)(x % y)); }
    if (isC(b) && sx(b->c, b->w) > 0 && activeBits(a) < a->w) return Urem(a, b);
    return mk(E_SREM, a->w, a, b);
  }
  Expr *Shl(Expr *a, Expr *b) {
    if (isC(b)) { if (b->c >= a->w) return C(a->w, 0); unsigned s = (unsigned)b->c; if (s == 0) return a; return Concat(Extract(a, 0, a->w - s), C(s, 0)); }
    return mk(E_SHL, a->w, a, b);
  }
  Expr *Lshr(Expr *a, Expr *b) {
    if (isC(b)) { if (b->c >= a->w) return C(a->w, 0); unsigned s = (unsigned)b->c; if (s == 0) return a; return Zext(Extract(a, s, a->w - s), a->w); }
    return mk(E_LSHR, a->w, a, b);
  }
  Expr *Ashr(Expr *a, Expr *b) {
    if (isC(b)) { unsigned s = b->c >= a->w ? a->w - 1 : (unsigned)b->c; if (s == 0) return a; return Sext(Extract(a, s, a->w - s), a->w); }
    return mk(E_ASHR, a->w, a, b);
  }
  void pieces(Expr *e, std::vector<Expr*> &out) { // low to high
    if (e->op == E_CONCAT) { pieces(e->k[1], out); pieces(e->k[0], out); }
    else if (e->op == E_ZEXT) { pieces(e->k[0], out); out.push_back(C(e->w - e->k[0]->w, 0)); }
    else out.push_back(e);
  }
  // piecewise combination for OR/XOR/ADD when on every aligned slice at least one side is const zero (or both const)
  Expr *piecewise(EOp op, Expr *a, Expr *b) {
    bool pa = a->op == E_CONCAT || a->op == E_ZEXT || isC(a), pb = b->op == E_CONCAT || b->op == E_ZEXT || isC(b);
    if (op == E_AND ? !(pa || pb) : !(pa && pb)) return nullptr;
    if (isC(a) && isC(b)) return nullptr;
    std::vector<Expr*> A, B; pieces(a, A); pieces(b, B);
    if (A.size() + B.size() > 80) return nullptr;
    // if one is a constant, cut along nibble-runs of zero / ones
    auto cutConst = [&](Expr *c, std::vector<Expr*> &o) { o.clear(); unsigned i = 0; while (i < c->w) { unsigned bit = (c->c >> i) & 1; unsigned j = i; while (j < c->w && ((c->c >> j) & 1) == bit) j++; o.push_back(C(j - i, c->c >> i)); i = j; } };
    if (op == E_AND) { if (isC(b)) cutConst(b, B); else if (isC(a)) cutConst(a, A); else return nullptr; if (A.size() + B.size() > 40) return nullptr; }
    std::vector<Expr*> R; size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
    while (i < A.size() && j < B.size()) {
      unsigned n = std::min(A[i]->w - oi, B[j]->w - oj);
      Expr *x = A[i], *y = B[j]; bool zx = isC(x) && ((x->c >> oi) & maskw(n)) == 0, zy = isC(y) && ((y->c >> oj) & maskw(n)) == 0;
      Expr *r;
      if (op == E_AND) { bool ox = isC(x) && ((x->c >> oi) & maskw(n)) == maskw(n), oy = isC(y) && ((y->c >> oj) & maskw(n)) == maskw(n); if (zx || zy) r = C(n, 0); else if (ox) r = Extract(y, oj, n); else if (oy) r = Extract(x, oi, n); else return nullptr; }
      else if (zx) r = Extract(y, oj, n); else if (zy) r = Extract(x, oi, n);
      else if (isC(x) && isC(y) && op != E_ADD) { u128 p = (x->c >> oi) & maskw(n), q = (y->c >> oj) & maskw(n); r = C(n, op == E_OR ? p | q : p ^ q); }
      else return nullptr;
      R.push_back(r); oi += n; oj += n; if (oi == A[i]->w) { i++; oi = 0; } if (oj == B[j]->w) { j++; oj = 0; }
    }
    Expr *e = R.back(); for (int q = (int)R.size() - 2; q >= 0; q--) e = Concat(e, R[q]);
    return e;
  }
  Expr *And(Expr *a, Expr *b) {
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) { if (isC(a)) return C(a->w, a->c & b->c); if (b->c == 0) return b; if (b->c == maskw(b->w)) return a;
      if (a->op == E_AND && isC(a->k[1])) return And(a->k[0], C(a->w, a->k[1]->c & b->c));
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return Ite(a->k[0], And(a->k[1], b), And(a->k[2], b));
      if ((b->c & (b->c + 1)) == 0) { unsigned n = activeBits(b); if (activeBits(a) <= n) return a; return Zext(Extract(a, 0, n), a->w); }
      if (Expr *r = piecewise(E_AND, a, b)) return r; }
    for (int q = 0; q < 2; q++) { Expr *x = q ? b : a, *y = q ? a : b; if (a->w > 1 && x->op == E_ITE && isC(x->k[1]) && isC(x->k[2]) && (x->k[1]->c == 0 || x->k[1]->c == maskw(a->w)) && (x->k[2]->c == 0 || x->k[2]->c == maskw(a->w))) return Ite(x->k[0], And(y, x->k[1]), And(y, x->k[2])); }
    if (a->w == 1) { if (isNotOf(a, b)) return F(); if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a; if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b; }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(E_AND, a->w, a, b);
  }
  bool isNotOf(Expr *a, Expr *b) { return (a->op == E_XOR && isC(a->k[1]) && a->k[1]->c == maskw(a->w) && a->k[0] == b) || (b->op == E_XOR && isC(b->k[1]) && b->k[1]->c == maskw(b->w) && b->k[0] == a); }
  Expr *Or(Expr *a, Expr *b) {
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) { if (isC(a)) return C(a->w, a->c | b->c); if (b->c == 0) return a; if (b->c == maskw(b->w)) return b;
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return Ite(a->k[0], Or(a->k[1], b), Or(a->k[2], b)); }
    if (a->w == 1) { if (isNotOf(a, b)) return T(); }
    else if (Expr *r = piecewise(E_OR, a, b)) return r;
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(E_OR, a->w, a, b);
  }
  Expr *Xor(Expr *a, Expr *b) {
    if (isC(a)) std::swap(a, b);
    if (a == b) return C(a->w, 0);
    if (isC(b)) { if (isC(a)) return C(a->w, a->c ^ b->c); if (b->c == 0) return a;
      if (a->op == E_XOR && isC(a->k[1])) return Xor(a->k[0], C(a->w, a->k[1]->c ^ b->c));
      if (a->w == 1) { // negation
        switch (a->op) { case E_ULT: return Ule(a->k[1], a->k[0]); case E_ULE: return Ult(a->k[1], a->k[0]); case E_SLT: return Sle(a->k[1], a->k[0]); case E_SLE: return Slt(a->k[1], a->k[0]); default: break; } }
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return Ite(a->k[0], Xor(a->k[1], b), Xor(a->k[2], b)); }
    if (a->w > 1) if (Expr *r = piecewise(E_XOR, a, b)) return r;
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(E_XOR, a->w, a, b);
  }
  Expr *Ite(Expr *c, Expr *t, Expr *f) {
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (c->op == E_XOR && isC(c->k[1])) { return Ite(c->k[0], f, t); }
    if (t->w == 1) {
      if (isC(t)) return t->c ? Or(c, f) : And(Not(c), f);
      if (isC(f)) return f->c ? Or(Not(c), t) : And(c, t);
      if (t == c) return Or(c, f); if (f == c) return And(c, t);
    }
    if (t->op == E_ITE && t->k[0] == c) t = t->k[1];
    if (f->op == E_ITE && f->k[0] == c) f = f->k[2];
    if (t == f) return t;
    if (t->op == E_ZEXT && f->op == E_ZEXT && t->k[0]->w == f->k[0]->w) return Zext(Ite(c, t->k[0], f->k[0]), t->w);
    if (f->op == E_ITE && f->k[1] == t) return Ite(Or(c, f->k[0]), t, f->k[2]);
    return mk(E_ITE, t->w, c, t, f);
  }
  bool pushIte(Expr *a, int depth = 0) { return a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2])) && depth < 40; }
  Expr *Eq(Expr *a, Expr *b) {
    if (a == b) return T();
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (isC(a)) return C(1, a->c == b->c);
      if (a->w == 1) return b->c ? a : Not(a);
      switch (a->op) {
        case E_ZEXT: if (b->c >> a->k[0]->w) return F(); return Eq(a->k[0], C(a->k[0]->w, b->c));
        case E_SEXT: { Expr *n = C(a->k[0]->w, b->c); if ((u128)sx(n->c, n->w) << (128 - b->w) != (u128)b->c << (128 - b->w)) return F(); return Eq(a->k[0], n); }
        case E_CONCAT: { Expr *l = C(a->k[1]->w, b->c), *h = C(a->k[0]->w, b->c >> a->k[1]->w); return And(Eq(a->k[0], h), Eq(a->k[1], l)); }
        case E_ADD: if (isC(a->k[1])) return Eq(a->k[0], C(a->w, b->c - a->k[1]->c)); break;
        case E_XOR: if (isC(a->k[1])) return Eq(a->k[0], C(a->w, b->c ^ a->k[1]->c)); if (b->c == 0) return Eq(a->k[0], a->k[1]); break;
        case E_SUB: if (b->c == 0) return Eq(a->k[0], a->k[1]); break;
        case E_OR: if (b->c == 0) return And(Eq(a->k[0], b), Eq(a->k[1], b)); break;
        case E_ITE: if (pushIte(a)) return Ite(a->k[0], Eq(a->k[1], b), Eq(a->k[2], b)); break;
        default: break;
      }
      unsigned ab = activeBits(a); if (ab < a->w && (b->c >> ab)) return F();
    } else {
      if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); return Eq(Zext(a->k[0], m), Zext(b->k[0], m)); }
      if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w) return And(Eq(a->k[0], b->k[0]), Eq(a->k[1], b->k[1]));
      if (a->w == 1) return Not(Xor(a, b));
    }
    if (!facts.empty() || isC(b)) { auto x = rng(a), y = rng(b); if (x.second < y.first || y.second < x.first) return F(); if (x.first == x.second && y.first == y.second) return T(); }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(E_EQ, 1, a, b);
  }
  Expr *Ult(Expr *a, Expr *b) {
    if (a == b) return F();
    if (isC(a) && isC(b)) return C(1, a->c < b->c);
    if (isC(b)) { if (b->c == 0) return F(); if (b->c == 1) return Eq(a, C(a->w, 0)); unsigned ab = activeBits(a); if (ab < a->w && (b->c >> ab)) return T();
      if (a->op == E_ZEXT) return Ult(a->k[0], C(a->k[0]->w, b->c)); if (pushIte(a)) return Ite(a->k[0], Ult(a->k[1], b), Ult(a->k[2], b)); 
      if (b->c == maskw(b->w)) return Not(Eq(a, b)); }
    if (isC(a)) { if (a->c == maskw(a->w)) return F(); unsigned ab = activeBits(b); if (ab < b->w && (a->c >> ab)) return F(); if (a->c == 0) return Not(Eq(b, a));
      if (b->op == E_ZEXT) return Ult(C(b->k[0]->w, a->c), b->k[0]); if (pushIte(b)) return Ite(b->k[0], Ult(a, b->k[1]), Ult(a, b->k[2])); }
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); if (m < a->w) return Ult(Zext(a->k[0], m), Zext(b->k[0], m)); }
    if (a->op == E_ADD && !isC(b)) { // a + b < a: does the sum wrap?
      Expr *o = a->k[0] == b ? a->k[1] : a->k[1] == b ? a->k[0] : nullptr;
      if (o && a->w < 128) { auto x = rng(o), y = rng(b); if (x.second + y.second <= maskw(a->w)) return F(); if (x.first + y.first > maskw(a->w)) return T(); } }
    { auto x = rng(a), y = rng(b); if (x.second < y.first) return T(); if (x.first >= y.second) return F(); }
    return mk(E_ULT, 1, a, b);
  }
  Expr *Ule(Expr *a, Expr *b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return C(1, a->c <= b->c);
    if (isC(b)) { if (b->c == maskw(b->w)) return T(); return Ult(a, C(b->w, b->c + 1)); }
    if (isC(a)) { if (a->c == 0) return T(); return Ult(C(a->w, a->c - 1), b); }
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); if (m < a->w) return Ule(Zext(a->k[0], m), Zext(b->k[0], m)); }
    { auto x = rng(a), y = rng(b); if (x.second <= y.first) return T(); if (x.first > y.second) return F(); }
    return mk(E_ULE, 1, a, b);
  }
  Expr *Slt(Expr *a, Expr *b) {
    if (a == b) return F();
    if (isC(a) && isC(b)) return C(1, sx(a->c, a->w) < sx(b->c, b->w));
    if (a->w == 1) return And(a, Not(b));
    bool na = activeBits(a) < a->w, nb = activeBits(b) < b->w; // non-negative
    if (na && nb) return Ult(a, b);
    if (isC(b)) { if (pushIte(a)) return Ite(a->k[0], Slt(a->k[1], b), Slt(a->k[2], b)); if (b->c == 0) return Extract(a, a->w - 1, 1); }
    if (isC(a)) { if (pushIte(b)) return Ite(b->k[0], Slt(a, b->k[1]), Slt(a, b->k[2])); if (a->c == maskw(a->w)) return Not(Extract(b, b->w - 1, 1)); }
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return Slt(a->k[0], b->k[0]);
    { auto x = rng(a), y = rng(b); u128 h = maskw(a->w - 1); bool pa = x.second <= h, pb = y.second <= h, ma = x.first > h, mb = y.first > h; if ((pa && pb) || (ma && mb)) return Ult(a, b); if (pa && mb) return F(); if (ma && pb) return T(); }
    return mk(E_SLT, 1, a, b);
  }
  Expr *Sle(Expr *a, Expr *b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return C(1, sx(a->c, a->w) <= sx(b->c, b->w));
    if (isC(b)) { if (sx(b->c, b->w) == sx(maskw(b->w - 1), b->w)) return T(); return Slt(a, C(b->w, b->c + 1)); }
    if (isC(a)) { if (a->c == (u128)1 << (a->w - 1)) return T(); return Slt(C(a->w, a->c - 1), b); }
    bool na = activeBits(a) < a->w, nb = activeBits(b) < b->w; if (na && nb) return Ule(a, b);
    { auto x = rng(a), y = rng(b); u128 h = maskw(a->w - 1); bool pa = x.second <= h, pb = y.second <= h, ma = x.first > h, mb = y.first > h; if ((pa && pb) || (ma && mb)) return Ule(a, b); if (pa && mb) return F(); if (ma && pb) return T(); }
    return mk(E_SLE, 1, a, b);
  }
  Expr *TableRead(u32 t, Expr *idx) {
    Table &tb = tables[t];
    if (isC(idx)) return C(tb.ew, idx->c < tb.v.size() ? tb.v[(size_t)idx->c] : 0);
    return mk(E_TABLE, tb.ew, idx, 0, 0, 0, t);
  }
  std::unordered_map<u64, std::vector<u32>> tableIdx;
  u32 addTable(unsigned ew, std::vector<u64> &&v) { u64 h = ew; for (u64 x : v) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } for (u32 t : tableIdx[h]) if (tables[t].ew == ew && tables[t].v == v) return t; u32 id = tables.size(); tables.push_back({ew, std::move(v)}); tableIdx[h].push_back(id); return id; }
  Expr *Fp(EOp op, unsigned w, Expr *a, Expr *b = nullptr, u32 aux = 0) {
    if (isC(a) && (!b || isC(b))) { Expr *e = mk(op, w, a, b, 0, 0, aux); return C(w, evalNode(e, a->c, b ? b->c : 0, 0)); }
    if ((op == E_SITOFP || op == E_UITOFP) && 0) return nullptr;
    return mk(op, w, a, b, 0, 0, aux);
  }

  static double asD(u128 v, unsigned w) { if (w == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; } double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d; }
  static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
  u128 evalNode(Expr *e, u128 a, u128 b, u128 c) {
    unsigned w = e->w, kw = e->k[0] ? e->k[0]->w : 0; u128 m = maskw(w);
    switch (e->op) {
      case E_CONST: return e->c; case E_VAR: return model[e->aux] & m;
      case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
      case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
      case E_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
      case E_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
      case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case E_ASHR: return (u128)(sx(a, w) >> (unsigned)(b >= w ? w - 1 : b)) & m;
      case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
      case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b; case E_SLT: return sx(a, kw) < sx(b, kw); case E_SLE: return sx(a, kw) <= sx(b, kw);
      case E_ITE: return a ? b : c; case E_EXTRACT: return (a >> e->aux) & m; case E_CONCAT: return (a << e->k[1]->w) | b; case E_ZEXT: return a; case E_SEXT: return (u128)sx(a, kw) & m;
      case E_TABLE: { Table &t = tables[e->aux]; return a < t.v.size() ? t.v[(size_t)a] : 0; }
      case E_FADD: if (w == 32) return fromD((float)asD(a, w) + (float)asD(b, w), w); return fromD(asD(a, w) + asD(b, w), w);
      case E_FSUB: if (w == 32) return fromD((float)asD(a, w) - (float)asD(b, w), w); return fromD(asD(a, w) - asD(b, w), w);
      case E_FMUL: if (w == 32) return fromD((float)asD(a, w) * (float)asD(b, w), w); return fromD(asD(a, w) * asD(b, w), w);
      case E_FDIV: if (w == 32) return fromD((float)asD(a, w) / (float)asD(b, w), w); return fromD(asD(a, w) / asD(b, w), w);
      case E_FREM: return fromD(fmod(asD(a, w), asD(b, w)), w);
      case E_FEQ: return asD(a, kw) == asD(b, kw); case E_FLT: return asD(a, kw) < asD(b, kw); case E_FLE: return asD(a, kw) <= asD(b, kw);
      case E_FUNO: return std::isnan(asD(a, kw)) || std::isnan(asD(b, kw));
      case E_FRND: { double d = asD(a, w); switch (e->aux) { case 0: d = trunc(d); break; case 1: d = floor(d); break; case 2: d = ceil(d); break; case 3: d = nearbyint(d); break; default: d = round(d); } return fromD(d, w); }
      case E_FSQRT: return fromD(sqrt(asD(a, w)), w);
      case E_SITOFP: { i128 x = sx(a, kw); if (w == 32) { float f = (float)x; u32 y; memcpy(&y, &f, 4); return y; } return fromD((double)x, w); }
      case E_UITOFP: { if (w == 32) { float f = (float)a; u32 y; memcpy(&y, &f, 4); return y; } return fromD((double)a, w); }
      case E_FPTOSI: { double d = trunc(asD(a, kw)); double lim = ldexp(1.0, w - 1); if (!(d >= -lim && d < lim)) return 0; return (u128)(i128)d & m; }
      case E_FPTOUI: { double d = trunc(asD(a, kw)); double lim = ldexp(1.0, w); if (!(d >= 0 && d < lim)) return 0; return (u128)d & m; }
      case E_FPEXT: case E_FPTRUNC: return fromD(asD(a, kw), w);
    }
    return 0;
  }
  u128 eval(Expr *e) {
    if (e->op == E_CONST) return e->c;
    if (e->stamp == stamp) return e->ev;
    // iterative post-order for deep DAGs
    std::vector<Expr*> st; st.push_back(e);
    while (!st.empty()) {
      Expr *x = st.back(); if (x->stamp == stamp) { st.pop_back(); continue; }
      bool ready = true; for (int j = 0; j < 3; j++) if (x->k[j] && x->k[j]->op != E_CONST && x->k[j]->stamp != stamp) { st.push_back(x->k[j]); ready = false; }
      if (!ready) continue;
      auto val = [&](Expr *y) -> u128 { return !y ? 0 : y->op == E_CONST ? y->c : y->ev; };
      x->ev = evalNode(x, val(x->k[0]), val(x->k[1]), val(x->k[2])) ; x->stamp = stamp; st.pop_back();
    }
    return e->ev;
  }
  // variable sets -----------------------------------------------------------
  int varsetOf(Expr *e) {
    if (e->varset >= 0) return e->varset;
    std::vector<Expr*> st{e};
    while (!st.empty()) {
      Expr *x = st.back(); if (x->varset >= 0) { st.pop_back(); continue; }
      bool ready = true; for (int j = 0; j < 3; j++) if (x->k[j] && x->k[j]->varset < 0) { st.push_back(x->k[j]); ready = false; }
      if (!ready) continue; st.pop_back();
      if (varsets.empty()) varsets.push_back({});
      if (x->op == E_VAR) { varsets.push_back({x->aux}); x->varset = varsets.size() - 1; continue; }
      int best = 0; bool uni = false; std::vector<u32> u;
      for (int j = 0; j < 3; j++) if (x->k[j]) { int s = x->k[j]->varset; if (s == best || varsets[s].empty()) continue; if (!uni && best == 0) { best = s; continue; }
        std::vector<u32> &cur = uni ? u : varsets[best]; std::vector<u32> r; std::set_union(cur.begin(), cur.end(), varsets[s].begin(), varsets[s].end(), std::back_inserter(r));
        if (!uni && r.size() == varsets[best].size()) continue; if (!uni && r.size() == varsets[s].size()) { best = s; continue; } u.swap(r); uni = true; }
      if (uni) { varsets.push_back(std::move(u)); x->varset = varsets.size() - 1; } else x->varset = best;
    }
    return e->varset;
  }
  // Z3 lowering --------------------------------------------------------------
  Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z3) : Z3_mk_fpa_sort_64(z3); }
  Z3_ast toFp(Expr *e) { return Z3_mk_fpa_to_fp_bv(z3, bv(e), fps(e->w)); }
  Z3_ast num(unsigned w, u128 v) {
    if (w <= 64) return Z3_mk_unsigned_int64(z3, (u64)v, Z3_mk_bv_sort(z3, w));
    Z3_ast h = Z3_mk_unsigned_int64(z3, (u64)(v >> 64), Z3_mk_bv_sort(z3, w - 64)), l = Z3_mk_unsigned_int64(z3, (u64)v, Z3_mk_bv_sort(z3, 64));
    return Z3_mk_concat(z3, h, l);
  }
  Z3_ast tableTree(const Table &t, Z3_ast idx, unsigned iw, const std::vector<std::pair<size_t, u64>> &runs, size_t lo, size_t hi) {
    if (hi - lo == 1) return num(t.ew, runs[lo].second);
    size_t mid = (lo + hi) / 2;
    Z3_ast c = Z3_mk_bvult(z3, idx, num(iw, runs[mid].first));
    return Z3_mk_ite(z3, c, tableTree(t, idx, iw, runs, lo, mid), tableTree(t, idx, iw, runs, mid, hi));
  }
  void prelower(Expr *e, bool asBool) { // avoid deep recursion
    std::vector<Expr*> st{e};
    while (!st.empty()) { Expr *x = st.back(); if (x->zbv || x->zbool) { st.pop_back(); continue; } bool ready = true; for (int j = 0; j < 3; j++) if (x->k[j] && !(x->k[j]->zbv || x->k[j]->zbool)) { st.push_back(x->k[j]); ready = false; } if (!ready) continue; st.pop_back(); if (x->w == 1) bo(x); else bv(x); }
    (void)asBool;
  }
  Z3_ast bo(Expr *e) {
    if (e->zbool) return e->zbool;
    Z3_ast r; Z3_ast t[2];
    switch (e->op) {
      case E_CONST: r = e->c ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
      case E_AND: if (e->w == 1) { t[0] = bo(e->k[0]); t[1] = bo(e->k[1]); r = Z3_mk_and(z3, 2, t); break; }
      case E_OR: if (e->op == E_OR && e->w == 1) { t[0] = bo(e->k[0]); t[1] = bo(e->k[1]); r = Z3_mk_or(z3, 2, t); break; }
      case E_XOR: if (e->op == E_XOR) { if (isC(e->k[1]) && e->k[1]->c) r = Z3_mk_not(z3, bo(e->k[0])); else r = Z3_mk_xor(z3, bo(e->k[0]), bo(e->k[1])); break; }
      case E_ITE: if (e->op == E_ITE) { r = Z3_mk_ite(z3, bo(e->k[0]), bo(e->k[1]), bo(e->k[2])); break; }
      case E_EQ: if (e->op == E_EQ) { r = Z3_mk_eq(z3, bv(e->k[0]), bv(e->k[1])); break; }
      case E_ULT: if (e->op == E_ULT) { r = Z3_mk_bvult(z3, bv(e->k[0]), bv(e->k[1])); break; }
      case E_ULE: if (e->op == E_ULE) { r = Z3_mk_bvule(z3, bv(e->k[0]), bv(e->k[1])); break; }
      case E_SLT: if (e->op == E_SLT) { r = Z3_mk_bvslt(z3, bv(e->k[0]), bv(e->k[1])); break; }
      case E_SLE: if (e->op == E_SLE) { r = Z3_mk_bvsle(z3, bv(e->k[0]), bv(e->k[1])); break; }
      case E_FEQ: if (e->op == E_FEQ) { r = Z3_mk_fpa_eq(z3, toFp(e->k[0]), toFp(e->k[1])); break; }
      case E_FLT: if (e->op == E_FLT) { r = Z3_mk_fpa_lt(z3, toFp(e->k[0]), toFp(e->k[1])); break; }
      case E_FLE: if (e->op == E_FLE) { r = Z3_mk_fpa_leq(z3, toFp(e->k[0]), toFp(e->k[1])); break; }
      case E_FUNO: if (e->op == E_FUNO) { t[0] = Z3_mk_fpa_is_nan(z3, toFp(e->k[0])); t[1] = Z3_mk_fpa_is_nan(z3, toFp(e->k[1])); r = Z3_mk_or(z3, 2, t); break; }
      default: r = Z3_mk_eq(z3, bv(e), num(1, 1));
    }
    return e->zbool = r;
  }
  Z3_ast bv(Expr *e) {
    if (e->zbv) return e->zbv;
    Z3_ast r;
    if (e->w == 1 && e->op != E_VAR && e->op != E_EXTRACT && e->op != E_TABLE && e->op != E_CONST && !(e->op >= E_ADD && e->op <= E_ASHR)) { r = Z3_mk_ite(z3, bo(e), num(1, 1), num(1, 0)); return e->zbv = r; }
    auto A = [&]() { return bv(e->k[0]); }; auto B = [&]() { return bv(e->k[1]); };
    Z3_ast rne = nullptr;
    switch (e->op) {
      case E_CONST: r = num(e->w, e->c); break;
      case E_VAR: { char b[32]; snprintf(b, 32, "v%u", e->aux); r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, b), Z3_mk_bv_sort(z3, e->w)); break; }
      case E_ADD: r = Z3_mk_bvadd(z3, A(), B()); break; case E_SUB: r = Z3_mk_bvsub(z3, A(), B()); break; case E_MUL: r = Z3_mk_bvmul(z3, A(), B()); break;
      case E_UDIV: r = Z3_mk_bvudiv(z3, A(), B()); break; case E_SDIV: r = Z3_mk_bvsdiv(z3, A(), B()); break; case E_UREM: r = Z3_mk_bvurem(z3, A(), B()); break; case E_SREM: r = Z3_mk_bvsrem(z3, A(), B()); break;
      case E_SHL: r = Z3_mk_bvshl(z3, A(), B()); break; case E_LSHR: r = Z3_mk_bvlshr(z3, A(), B()); break; case E_ASHR: r = Z3_mk_bvashr(z3, A(), B()); break;
      case E_AND: r = Z3_mk_bvand(z3, A(), B()); break; case E_OR: r = Z3_mk_bvor(z3, A(), B()); break; case E_XOR: r = Z3_mk_bvxor(z3, A(), B()); break;
      case E_ITE: r = Z3_mk_ite(z3, bo(e->k[0]), bv(e->k[1]), bv(e->k[2])); break;
      case E_EXTRACT: r = Z3_mk_extract(z3, e->aux + e->w - 1, e->aux, A()); break;
      case E_CONCAT: r = Z3_mk_concat(z3, A(), B()); break;
      case E_ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->k[0]->w, A()); break; case E_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->k[0]->w, A()); break;
      case E_FADD: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_add(z3, Z3_mk_fpa_rne(z3), toFp(e->k[0]), toFp(e->k[1]))); break;
      case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_sub(z3, Z3_mk_fpa_rne(z3), toFp(e->k[0]), toFp(e->k[1]))); break;
      case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_mul(z3, Z3_mk_fpa_rne(z3), toFp(e->k[0]), toFp(e->k[1]))); break;
      case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_div(z3, Z3_mk_fpa_rne(z3), toFp(e->k[0]), toFp(e->k[1]))); break;
      case E_FREM: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_rem(z3, toFp(e->k[0]), toFp(e->k[1]))); break;
      case E_FSQRT: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_sqrt(z3, Z3_mk_fpa_rne(z3), toFp(e->k[0]))); break;
      case E_FRND: rne = e->aux == 0 ? Z3_mk_fpa_rtz(z3) : e->aux == 1 ? Z3_mk_fpa_rtn(z3) : e->aux == 2 ? Z3_mk_fpa_rtp(z3) : e->aux == 3 ? Z3_mk_fpa_rne(z3) : Z3_mk_fpa_rna(z3); r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_round_to_integral(z3, rne, toFp(e->k[0]))); break;
      case E_SITOFP: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_to_fp_signed(z3, Z3_mk_fpa_rne(z3), A(), fps(e->w))); break;
      case E_UITOFP: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_to_fp_unsigned(z3, Z3_mk_fpa_rne(z3), A(), fps(e->w))); break;
      case E_FPTOSI: r = Z3_mk_fpa_to_sbv(z3, Z3_mk_fpa_rtz(z3), toFp(e->k[0]), e->w); break;
      case E_FPTOUI: r = Z3_mk_fpa_to_ubv(z3, Z3_mk_fpa_rtz(z3), toFp(e->k[0]), e->w); break;
      case E_FPEXT: case E_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_to_fp_float(z3, Z3_mk_fpa_rne(z3), toFp(e->k[0]), fps(e->w))); break;
      case E_TABLE: { Table &t = tables[e->aux]; unsigned iw = e->k[0]->w; std::vector<std::pair<size_t, u64>> runs; for (size_t i = 0; i < t.v.size() && (iw >= 40 || i < ((size_t)1 << iw)); i++) if (runs.empty() || runs.back().second != t.v[i]) runs.push_back({i, t.v[i]}); 
        // drop runs not representable
        r = tableTree(t, A(), iw, runs, 0, runs.size()); break; }
      default: r = Z3_mk_ite(z3, bo(e), num(1, 1), num(1, 0));
    }
    return e->zbv = r;
  }
  std::string str(Expr *e, int d = 0) {
    static const char *n[] = {"c","v","+","-","*","/u","/s","%u","%s","<<",">>u",">>s","&","|","^","=","<u","<=u","<s","<=s","ite","ext","cat","zx","sx","f+","f-","f*","f/","f%","f=","f<","f<=","funo","frnd","s2f","u2f","f2s","f2u","fext","ftr","fsqrt","tbl"};
    char b[64]; if (e->op == E_CONST) { snprintf(b, 64, "%llx:%u", (unsigned long long)e->c, e->w); return b; } if (e->op == E_VAR) { snprintf(b, 64, "v%u:%u", e->aux, e->w); return b; }
    if (d > 8) return "..."; std::string s = "("; s += n[e->op]; snprintf(b, 64, ".%u", e->w); s += b; if (e->op == E_EXTRACT) { snprintf(b, 64, "@%u", e->aux); s += b; } for (int j = 0; j < 3; j++) if (e->k[j]) s += " " + str(e->k[j], d + 1); return s + ")";
  }
};
