// interpreter loop (member of Engine)
inline const Slot &op(const Slot *base, int code) { return code >= 0 ? base[code] : consts[~code]; }

void takeEdge(Frame &fr, int ei) {
  const Edge &e = fr.f->edges[ei]; Slot *b = fr.base; size_t n = e.cp.size();
  if (n == 1) { b[e.cp[0].first] = op(b, e.cp[0].second); }
  else if (n) { Slot tmp[64]; std::vector<Slot> big; Slot *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = op(b, e.cp[i].second); for (size_t i = 0; i < n; i++) b[e.cp[i].first] = t[i]; }
  fr.pc = fr.f->code.data() + e.pc;
}
Expr *ctlzE(Expr *a) { unsigned w = a->w; Expr *r = X.C(w, w); for (unsigned i = 0; i < w; i++) r = X.Ite(X.Extract(a, i, 1), X.C(w, w - 1 - i), r); return r; }
Expr *cttzE(Expr *a) { unsigned w = a->w; Expr *r = X.C(w, w); for (int i = (int)w - 1; i >= 0; i--) r = X.Ite(X.Extract(a, i, 1), X.C(w, i), r); return r; }
Expr *ctpopE(Expr *a) { unsigned w = a->w; Expr *r = X.C(w, 0); for (unsigned i = 0; i < w; i++) r = X.Add(r, X.Zext(X.Extract(a, i, 1), w)); return r; }
Expr *bswapE(Expr *a) { unsigned n = a->w / 8; Expr *r = X.Extract(a, 0, 8); for (unsigned i = 1; i < n; i++) r = X.Concat(r, X.Extract(a, i * 8, 8)); return r; }
Expr *bitrevE(Expr *a) { Expr *r = X.Extract(a, 0, 1); for (unsigned i = 1; i < a->w; i++) r = X.Concat(r, X.Extract(a, i, 1)); return r; }

Slot binop(unsigned o, const Slot &a, const Slot &b, unsigned w) {
  if (!a.e && !b.e) {
    u128 x = v128(a), y = v128(b), m = maskw(w), r = 0;
    switch (o) {
      case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break;
      case O_UDIV: if (!y) { violation("division by zero"); endPath("ok"); } r = x / y; break; case O_UREM: if (!y) { violation("division by zero"); endPath("ok"); } r = x % y; break;
      case O_SDIV: case O_SREM: { i128 p = sx(x, w), q = sx(y, w); if (!q) { violation("division by zero"); endPath("ok"); } if (q == -1) r = o == O_SDIV ? (u128)0 - x : 0; else r = o == O_SDIV ? (u128)(p / q) : (u128)(p % q); break; }
      case O_SHL: r = y >= w ? 0 : x << (unsigned)y; break; case O_LSHR: r = y >= w ? 0 : x >> (unsigned)y; break; case O_ASHR: r = (u128)(sx(x, w) >> (unsigned)(y >= w ? w - 1 : y)); break;
      case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
      case O_UMIN: r = x < y ? x : y; break; case O_UMAX: r = x > y ? x : y; break; case O_SMIN: r = sx(x, w) < sx(y, w) ? x : y; break; case O_SMAX: r = sx(x, w) > sx(y, w) ? x : y; break;
      default: die("binop %d", o);
    }
    return from128(r & m);
  }
  Expr *x = ex(a, w), *y = ex(b, w); markSym();
  switch (o) {
    case O_ADD: return fromE(X.Add(x, y)); case O_SUB: return fromE(X.Sub(x, y)); case O_MUL: return fromE(X.Mul(x, y));
    case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: if (!branch(X.Not(X.Eq(y, X.C(w, 0))))) { violation("division by zero"); endPath("ok"); }
      return fromE(o == O_UDIV ? X.Udiv(x, y) : o == O_UREM ? X.Urem(x, y) : o == O_SDIV ? X.Sdiv(x, y) : X.Srem(x, y));
    case O_SHL: return fromE(X.Shl(x, y)); case O_LSHR: return fromE(X.Lshr(x, y)); case O_ASHR: return fromE(X.Ashr(x, y));
    case O_AND: return fromE(X.And(x, y)); case O_OR: return fromE(X.Or(x, y)); case O_XOR: return fromE(X.Xor(x, y));
    case O_UMIN: return fromE(X.Ite(X.Ult(x, y), x, y)); case O_UMAX: return fromE(X.Ite(X.Ult(x, y), y, x)); case O_SMIN: return fromE(X.Ite(X.Slt(x, y), x, y)); case O_SMAX: return fromE(X.Ite(X.Slt(x, y), y, x));
  }
  die("binop sym %d", o);
}
Slot cmpop(unsigned o, const Slot &a, const Slot &b, unsigned w) {
  if (!a.e && !b.e) {
    u128 x = v128(a), y = v128(b); bool r = false;
    switch (o) { case O_EQ: r = x == y; break; case O_NE: r = x != y; break; case O_ULT: r = x < y; break; case O_ULE: r = x <= y; break; case O_UGT: r = x > y; break; case O_UGE: r = x >= y; break;
      case O_SLT: r = sx(x, w) < sx(y, w); break; case O_SLE: r = sx(x, w) <= sx(y, w); break; case O_SGT: r = sx(x, w) > sx(y, w); break; case O_SGE: r = sx(x, w) >= sx(y, w); break; }
    return S(r);
  }
  Expr *x = ex(a, w), *y = ex(b, w); markSym();
  switch (o) { case O_EQ: return fromE(X.Eq(x, y)); case O_NE: return fromE(X.Not(X.Eq(x, y))); case O_ULT: return fromE(X.Ult(x, y)); case O_ULE: return fromE(X.Ule(x, y)); case O_UGT: return fromE(X.Ult(y, x)); case O_UGE: return fromE(X.Ule(y, x));
    case O_SLT: return fromE(X.Slt(x, y)); case O_SLE: return fromE(X.Sle(x, y)); case O_SGT: return fromE(X.Slt(y, x)); case O_SGE: return fromE(X.Sle(y, x)); }
  die("cmp");
}
// fcmp predicate (LLVM numbering 0..15: bit0 eq bit1 gt bit2 lt bit3 uno)
Slot fcmp(unsigned pred, const Slot &a, const Slot &b, unsigned w) {
  if (!a.e && !b.e) { double x = ExprMgr::asD(a.lo, w), y = ExprMgr::asD(b.lo, w); bool un = std::isnan(x) || std::isnan(y); bool r = un ? (pred & 8) != 0 : x == y ? (pred & 1) != 0 : x > y ? (pred & 2) != 0 : (pred & 4) != 0; return S(r); }
  Expr *x = ex(a, w), *y = ex(b, w); markSym(); Expr *r = X.F();
  if (pred & 1) r = X.Or(r, X.Fp(E_FEQ, 1, x, y)); if (pred & 2) r = X.Or(r, X.Fp(E_FLT, 1, y, x)); if (pred & 4) r = X.Or(r, X.Fp(E_FLT, 1, x, y)); if (pred & 8) r = X.Or(r, X.Fp(E_FUNO, 1, x, y));
  return fromE(r);
}
Slot fpsat(bool sgn, const Slot &a, unsigned sw, unsigned dw) {
  if (!a.e) { double d = ExprMgr::asD(a.lo, sw); if (std::isnan(d)) return S(0); if (sgn) { double lim = ldexp(1.0, dw - 1); if (d <= -lim) return from128((u128)1 << (dw - 1)); if (d >= lim) return from128(maskw(dw - 1)); return from128((u128)(i128)d & maskw(dw)); } double lim = ldexp(1.0, dw); if (d <= 0) return S(0); if (d >= lim) return from128(maskw(dw)); return from128((u128)d); }
  Expr *x = a.e; auto fc = [&](double d) { return X.C(sw, ExprMgr::fromD(d, sw)); };
  Expr *nan = X.Fp(E_FUNO, 1, x, x);
  if (sgn) { double lim = ldexp(1.0, dw - 1); Expr *r = X.Fp(E_FPTOSI, dw, x); r = X.Ite(X.Fp(E_FLE, 1, fc(lim), x), X.C(dw, maskw(dw - 1)), r); r = X.Ite(X.Fp(E_FLE, 1, x, fc(-lim)), X.C(dw, (u128)1 << (dw - 1)), r); return fromE(X.Ite(nan, X.C(dw, 0), r)); }
  double lim = ldexp(1.0, dw); Expr *r = X.Fp(E_FPTOUI, dw, x); r = X.Ite(X.Fp(E_FLE, 1, fc(lim), x), X.C(dw, maskw(dw)), r); r = X.Ite(X.Fp(E_FLE, 1, x, fc(0.0)), X.C(dw, 0), r); return fromE(X.Ite(nan, X.C(dw, 0), r));
}
void overflowOp(unsigned o, const Slot &a, const Slot &b, unsigned w, Slot *d) {
  if (!a.e && !b.e) {
    u128 x = v128(a), y = v128(b), m = maskw(w), r = 0; bool ov = false;
    switch (o) {
      case O_UADDO: r = x + y; ov = w >= 128 ? r < x : r > m; break; case O_USUBO: r = x - y; ov = x < y; break;
      case O_UMULO: r = x * y; if (w >= 128) ov = __builtin_mul_overflow(x, y, &r); else if (w > 64) { u128 t; ov = __builtin_mul_overflow(x, y, &t) || t > m; } else ov = r > m; break;
      case O_SADDO: { i128 p = sx(x, w), q = sx(y, w), t; ov = __builtin_add_overflow(p, q, &t); r = (u128)t; ov |= sx(r, w) != t; break; }
      case O_SSUBO: { i128 p = sx(x, w), q = sx(y, w), t; ov = __builtin_sub_overflow(p, q, &t); r = (u128)t; ov |= sx(r, w) != t; break; }
      case O_SMULO: { i128 p = sx(x, w), q = sx(y, w), t; ov = __builtin_mul_overflow(p, q, &t); r = (u128)t; ov |= sx(r, w) != t; break; }
    }
    d[0] = from128(r & m); d[1] = S(ov); return;
  }
  Expr *x = ex(a, w), *y = ex(b, w), *r, *ov; markSym();
  switch (o) {
    case O_UADDO: r = X.Add(x, y); ov = ExprMgr::isC(y) ? X.Ult(X.C(w, maskw(w) - y->c), x) : ExprMgr::isC(x) ? X.Ult(X.C(w, maskw(w) - x->c), y) : (X.activeBits(x) < w && X.activeBits(y) < w) ? X.F() : X.Ult(r, x); break;
    case O_USUBO: r = X.Sub(x, y); ov = X.Ult(x, y); break;
    case O_UMULO: { r = X.Mul(x, y); if (X.activeBits(x) + X.activeBits(y) <= w) { ov = X.F(); break; } if (ExprMgr::isC(y) && y->c) { ov = X.Ult(X.C(w, maskw(w) / y->c), x); break; } if (ExprMgr::isC(x) && x->c) { ov = X.Ult(X.C(w, maskw(w) / x->c), y); break; }
      if (2 * w <= 128) { Expr *p = X.Mul(X.Zext(x, 2 * w), X.Zext(y, 2 * w)); ov = X.Not(X.Eq(X.Extract(p, w, w), X.C(w, 0))); } else { incomplete("128-bit umul overflow"); } break; }
    case O_SADDO: { r = X.Add(x, y); Expr *sxx = X.Extract(x, w - 1, 1), *sy = X.Extract(y, w - 1, 1), *sr = X.Extract(r, w - 1, 1); ov = X.And(X.Eq(sxx, sy), X.Not(X.Eq(sxx, sr))); if (ExprMgr::isC(y)) { i128 q = sx(y->c, w); ov = q >= 0 ? X.Slt(X.C(w, (u128)(sx(maskw(w - 1), w) - q)), x) : X.Slt(x, X.C(w, (u128)(-(i128)((u128)1 << (w - 1)) - q))); if (w == 128) ov = X.And(X.Eq(sxx, sy), X.Not(X.Eq(sxx, sr))); } break; }
    case O_SSUBO: { r = X.Sub(x, y); Expr *sxx = X.Extract(x, w - 1, 1), *sy = X.Extract(y, w - 1, 1), *sr = X.Extract(r, w - 1, 1); ov = X.And(X.Not(X.Eq(sxx, sy)), X.Not(X.Eq(sxx, sr))); break; }
    default: { if (2 * w > 128) { if (X.activeBits(x) + X.activeBits(y) < w) { r = X.Mul(x, y); ov = X.F(); break; } incomplete("wide smul overflow"); } Expr *p = X.Mul(X.Sext(x, 2 * w), X.Sext(y, 2 * w)); r = X.Mul(x, y); ov = X.Not(X.Eq(p, X.Sext(r, 2 * w))); break; }
  }
  d[0] = fromE(r); d[1] = fromE(ov);
}

u64 profCount[8]; std::map<std::string, u64> prof;
[[noreturn]] void run() {
  Thread *t = T; 
  #define FR (t->frames.back())
  #define RESCHED() do { schedule(true); t = T; } while (0)
  u64 nextCheck = insts + 2000000;
  while (true) {
   restart:
    Frame *fr = &t->frames.back(); Slot *b = fr->base; const Inst *pc = fr->pc;
    while (true) {
      const Inst &in = *pc++; insts++;
      if (__builtin_expect(insts >= nextCheck, 0)) {
        nextCheck = insts + 2000000; fr->pc = pc - 1; flushStats(); checkStop(); if (insts > O.maxInst) incomplete("instruction budget");
        if (O.profile) prof[demangle(fr->f->name)]++;
        if (insts > quantum) { insts--; bool multi = threads.size() > 1; if (multi) { RESCHED(); goto restart; } quantum = insts + 20000000; goto restart; }
        pc = fr->pc + 1;
      }
      unsigned w = in.w;
      switch (in.op) {
        case O_NOP: case O_FENCE: break;
        case O_ADD: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e && w <= 64) { b[in.d] = Slot{(x.lo + y.lo) & in.imm, 0, nullptr}; } else b[in.d] = binop(O_ADD, x, y, w); break; }
        case O_SUB: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e && w <= 64) { b[in.d] = Slot{(x.lo - y.lo) & in.imm, 0, nullptr}; } else b[in.d] = binop(O_SUB, x, y, w); break; }
        case O_AND: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e) { b[in.d] = Slot{x.lo & y.lo, x.hi & y.hi, nullptr}; } else b[in.d] = binop(O_AND, x, y, w); break; }
        case O_OR: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e) { b[in.d] = Slot{x.lo | y.lo, x.hi | y.hi, nullptr}; } else b[in.d] = binop(O_OR, x, y, w); break; }
        case O_XOR: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e) { b[in.d] = Slot{x.lo ^ y.lo, x.hi ^ y.hi, nullptr}; } else b[in.d] = binop(O_XOR, x, y, w); break; }
        case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_UMIN: case O_UMAX: case O_SMIN: case O_SMAX: {
          fr->pc = pc - 1; Slot r = binop(in.op, op(b, in.a), op(b, in.b), w); b[in.d] = r; break; }
        case O_EQ: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e) b[in.d] = S(x.lo == y.lo && x.hi == y.hi); else b[in.d] = cmpop(O_EQ, x, y, w); break; }
        case O_NE: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e) b[in.d] = S(x.lo != y.lo || x.hi != y.hi); else b[in.d] = cmpop(O_NE, x, y, w); break; }
        case O_ULT: { const Slot &x = op(b, in.a), &y = op(b, in.b); if (!x.e && !y.e && w <= 64) b[in.d] = S(x.lo < y.lo); else b[in.d] = cmpop(O_ULT, x, y, w); break; }
        case O_ULE: case O_UGT: case O_UGE: case O_SLT: case O_SLE: case O_SGT: case O_SGE: b[in.d] = cmpop(in.op, op(b, in.a), op(b, in.b), w); break;
        case O_TRUNC: { const Slot &x = op(b, in.a); if (!x.e) { u128 v = v128(x) & maskw(w); b[in.d] = from128(v); } else b[in.d] = fromE(X.Extract(x.e, 0, w)); break; }
        case O_ZEXT: { const Slot &x = op(b, in.a); if (!x.e) b[in.d] = x; else b[in.d] = fromE(X.Zext(x.e, w)); break; }
        case O_SEXT: { const Slot &x = op(b, in.a); if (!x.e) b[in.d] = from128((u128)sx(v128(x), in.aux) & maskw(w)); else b[in.d] = fromE(X.Sext(x.e, w)); break; }
        case O_MOV: b[in.d] = op(b, in.a); break;
        case O_SELECT: { const Slot &c = op(b, in.a); if (!c.e) b[in.d] = c.lo ? op(b, in.b) : op(b, in.c); else { markSym(); const Slot &x = op(b, in.b), &y = op(b, in.c); if (!x.e && !y.e && x.lo == y.lo && x.hi == y.hi) b[in.d] = x; else if (O.forkSel && w == 64 && !x.e && !y.e) { fr->pc = pc - 1; Slot xx = x, yy = y; b[in.d] = branch(c.e) ? xx : yy; } else b[in.d] = fromE(X.Ite(c.e, ex(x, w), ex(y, w))); } break; }
        case O_LOAD: { const Slot &p = op(b, in.a); if (__builtin_expect(p.e != nullptr, 0)) { fr->pc = pc - 1; Slot q = p; if (in.imm) { q = fromE(X.Add(p.e, X.C(64, in.imm))); } Slot r = q.e ? loadSymPtr(q.e, w) : loadMem(q.lo, w); b[in.d] = r; } else { fr->pc = pc - 1; b[in.d] = loadMem(p.lo + in.imm, w); } break; }
        case O_STORE: { const Slot &p = op(b, in.b); fr->pc = pc - 1; u64 a = p.e ? (u64)concretize(p.e) : p.lo; storeMem(a + in.imm, op(b, in.a), w); break; }
        case O_GEP: { // d = a + imm (+ b * c-as-scale)
          const Slot &p = op(b, in.a); if (in.c == 0) { if (!p.e) b[in.d] = S(p.lo + in.imm); else b[in.d] = fromE(X.Add(p.e, X.C(64, in.imm))); }
          else { const Slot &i = op(b, in.b); if (!p.e && !i.e) { u64 iv = in.w == 64 ? i.lo : (u64)sx(i.lo, in.w); b[in.d] = S(p.lo + in.imm + iv * (u64)in.c); } else { markSym(); Expr *iv = ex(i, in.w); if (in.w < 64) iv = X.Sext(iv, 64); Expr *r = X.Add(X.Add(ex(p, 64), X.Mul(iv, X.C(64, (u64)in.c))), X.C(64, in.imm)); b[in.d] = fromE(r); } }
          break; }
        case O_ALLOCA: { const Slot &n = op(b, in.a); fr->pc = pc - 1; u64 cnt = conc(n); u64 sz = in.imm * cnt, al = in.aux < 16 ? 16 : in.aux; u64 sp = (t->gsp - sz) & ~(al - 1); if (sp < t->glow + 4096) incomplete("guest stack overflow"); t->gsp = sp; if (sz && M.hasSym(sp, sz)) M.clearSym(sp, sz); b[in.d] = S(sp); break; }
        case O_BR: takeEdge(*fr, in.a); pc = fr->pc; break;
        case O_CONDBR: { const Slot &c = op(b, in.a); bool v; if (!c.e) v = c.lo; else { fr->pc = pc - 1; markSym(); v = branch(c.e); } takeEdge(*fr, v ? in.b : in.c); pc = fr->pc; break; }
        case O_SWITCH: {
          const Slot &c = op(b, in.a); const SwitchT &sw = fr->f->sw[in.b]; int e = sw.def;
          if (!c.e) { for (auto &p : sw.cases) if (p.first == c.lo) { e = p.second; break; } }
          else { fr->pc = pc - 1; markSym();
            // group the cases by target so that one decision per successor is made
            std::vector<std::pair<int, Expr*>> groups; Expr *any = X.F();
            for (auto &p : sw.cases) { Expr *q = X.Eq(c.e, X.C(w, p.first)); int tgt = fr->f->edges[p.second].cp.empty() ? fr->f->edges[p.second].pc : -1 - p.second; bool f = false; if (tgt >= 0) for (auto &g : groups) if (g.first >= 0 && fr->f->edges[g.first].cp.empty() && fr->f->edges[g.first].pc == tgt) { g.second = X.Or(g.second, q); f = true; break; } if (!f) groups.push_back({p.second, q}); any = X.Or(any, q); }
            bool done = false; for (auto &g : groups) if (branch(g.second)) { e = g.first; done = true; break; }
            if (!done) e = sw.def; }
          takeEdge(*fr, e); pc = fr->pc; break; }
        case O_RET: {
          int n = in.b; Slot tmp[16]; std::vector<Slot> big; Slot *r = tmp; if (n > 16) { big.resize(n); r = big.data(); } const std::vector<int> *xs = n ? &fr->f->ext[in.a] : nullptr; for (int i = 0; i < n; i++) r[i] = op(b, (*xs)[i]);
          int rd = fr->retDst; t->gsp = fr->savedSp; t->sp = fr->base; t->frames.pop_back();
          if (t->frames.empty()) { if (n) t->retval = r[0].lo; if (t == threads[0]) { endPath("ok"); } if (finishThread(t)) { RESCHED(); } goto restart; }
          fr = &t->frames.back(); b = fr->base; pc = fr->pc; if (rd >= 0) for (int i = 0; i < n; i++) b[rd + i] = r[i];
          break; }
        case O_CALLI: case O_CALL: case O_HANDLER: {
          fr->pc = pc; const std::vector<int> &xs = fr->f->ext[in.b]; int n = xs.size(); Slot tmp[24]; std::vector<Slot> big; Slot *args = tmp; if (n > 24) { big.resize(n); args = big.data(); } for (int i = 0; i < n; i++) args[i] = op(b, xs[i]);
          Func *f;
          if (in.op == O_CALLI) { const Slot &p = op(b, in.a); u64 a = p.e ? (u64)concretize(p.e) : p.lo; f = fnByAddr(a); if (!f) { violation("call through invalid function pointer"); endPath("ok"); } }
          else f = funcs[in.a];
          if (f->h) { Thread *self = t; Slot r[4] = {S(0), S(0), S(0), S(0)}; curDst = in.d; f->h(*this, r, args, n, in);
            if (self->frames.empty()) { /* thread exited in handler */ }
            else if (in.d >= 0 && !suppressRet) { Slot *bb = self->frames[retFrameIdx(self)].base; for (int i = 0; i < (int)in.aux; i++) bb[in.d + i] = r[i]; }
            suppressRet = false;
            if (resched) { resched = false; RESCHED(); goto restart; }
            t = T; goto restart_same; }
          if (f->code.empty()) incomplete("unmodelled external function " + f->name);
          pushFrame(t, f, args, n, in.d);
          restart_same: fr = &t->frames.back(); b = fr->base; pc = fr->pc; break; }
        case O_UNREACH: fr->pc = pc - 1; violation("reached unreachable code"); endPath("ok");
        case O_ASSUMEFALSE: fr->pc = pc - 1; incomplete(std::string("unsupported instruction in ") + fr->f->name + ": " + unsupported[in.imm]);
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: { const Slot &x = op(b, in.a), &y = op(b, in.b); EOp eo = in.op == O_FADD ? E_FADD : in.op == O_FSUB ? E_FSUB : in.op == O_FMUL ? E_FMUL : in.op == O_FDIV ? E_FDIV : E_FREM; b[in.d] = fromE(X.Fp(eo, w, ex(x, w), ex(y, w))); break; }
        case O_FNEG: { Slot x = op(b, in.a); b[in.d] = binop(O_XOR, x, from128((u128)1 << (w - 1)), w); break; }
        case O_FABS: { Slot x = op(b, in.a); b[in.d] = binop(O_AND, x, from128(maskw(w - 1)), w); break; }
        case O_COPYSIGN: { Slot x = binop(O_AND, op(b, in.a), from128(maskw(w - 1)), w), y = binop(O_AND, op(b, in.b), from128((u128)1 << (w - 1)), w); b[in.d] = binop(O_OR, x, y, w); break; }
        case O_FCMP: b[in.d] = fcmp(in.aux, op(b, in.a), op(b, in.b), w); break;
        case O_FRND: b[in.d] = fromE(X.Fp(E_FRND, w, ex(op(b, in.a), w), nullptr, in.aux)); break;
        case O_SITOFP: b[in.d] = fromE(X.Fp(E_SITOFP, w, ex(op(b, in.a), in.aux))); break;
        case O_UITOFP: b[in.d] = fromE(X.Fp(E_UITOFP, w, ex(op(b, in.a), in.aux))); break;
        case O_FPTOSI: b[in.d] = fromE(X.Fp(E_FPTOSI, w, ex(op(b, in.a), in.aux))); break;
        case O_FPTOUI: b[in.d] = fromE(X.Fp(E_FPTOUI, w, ex(op(b, in.a), in.aux))); break;
        case O_FPTOSI_SAT: b[in.d] = fpsat(true, op(b, in.a), in.aux, w); break;
        case O_FPTOUI_SAT: b[in.d] = fpsat(false, op(b, in.a), in.aux, w); break;
        case O_FPEXT: b[in.d] = fromE(X.Fp(E_FPEXT, w, ex(op(b, in.a), in.aux))); break;
        case O_FPTRUNC: b[in.d] = fromE(X.Fp(E_FPTRUNC, w, ex(op(b, in.a), in.aux))); break;
        case O_ATOMICRMW: {
          fr->pc = pc - 1; u64 a = conc(op(b, in.a)); Slot v = op(b, in.b), old = loadMem(a, w), nw;
          switch (in.aux) { case 0: nw = v; break; case 1: nw = binop(O_ADD, old, v, w); break; case 2: nw = binop(O_SUB, old, v, w); break; case 3: nw = binop(O_AND, old, v, w); break; case 4: nw = binop(O_XOR, binop(O_AND, old, v, w), from128(maskw(w)), w); break; case 5: nw = binop(O_OR, old, v, w); break; case 6: nw = binop(O_XOR, old, v, w); break; case 7: nw = binop(O_SMAX, old, v, w); break; case 8: nw = binop(O_SMIN, old, v, w); break; case 9: nw = binop(O_UMAX, old, v, w); break; case 10: nw = binop(O_UMIN, old, v, w); break; default: incomplete("atomicrmw"); }
          storeMem(a, nw, w); b[in.d] = old; break; }
        case O_CMPXCHG: { fr->pc = pc - 1;
          if (__builtin_expect(preemptBudget && in.aux, 0)) { if (!t->atPoint) { preemptAt(); if (resched) { resched = false; t->atPoint = true; RESCHED(); goto restart; } } else t->atPoint = false; }
          u64 a = conc(op(b, in.a)); Slot old = loadMem(a, w); Slot eq = cmpop(O_EQ, old, op(b, in.b), w); bool ok = eq.e ? branch(eq.e) : eq.lo; if (ok) storeMem(a, op(b, in.c), w); b[in.d] = old; b[in.d + 1] = S(ok); break; }
        case O_BITCASTV: { const std::vector<int> &xs = fr->f->ext[in.b]; // nsrc, srcw, ndst, dstw, srcs...
          int ns = xs[0], sw = xs[1], nd = xs[2], dw = xs[3]; bool sym = false; for (int i = 0; i < ns; i++) sym |= op(b, xs[4 + i]).e != nullptr;
          if (!sym) { u8 buf[512] = {0}; for (int i = 0; i < ns; i++) { u128 v = v128(op(b, xs[4 + i])); for (int j = 0; j < sw; j++) if ((v >> j) & 1) { int p = i * sw + j; buf[p >> 3] |= 1 << (p & 7); } } Slot out[512]; for (int i = 0; i < nd; i++) { u128 v = 0; if (dw % 8 == 0) memcpy(&v, buf + i * dw / 8, dw / 8); else for (int j = 0; j < dw; j++) { int p = i * dw + j; if (buf[p >> 3] >> (p & 7) & 1) v |= (u128)1 << j; } out[i] = from128(v); } for (int i = 0; i < nd; i++) b[in.d + i] = out[i]; }
          else { markSym(); std::vector<Expr*> src(ns); for (int i = 0; i < ns; i++) src[i] = ex(op(b, xs[4 + i]), sw); std::vector<Slot> out(nd);
            for (int i = 0; i < nd; i++) { int lo = i * dw, hi = lo + dw; Expr *r = nullptr; for (int p = lo; p < hi;) { int k = p / sw, o = p % sw; int len = std::min(sw - o, hi - p); Expr *e = X.Extract(src[k], o, len); r = r ? X.Concat(e, r) : e; p += len; } out[i] = fromE(r); } for (int i = 0; i < nd; i++) b[in.d + i] = out[i]; }
          break; }
        case O_ABS: { const Slot &x = op(b, in.a); if (!x.e) { i128 v = sx(v128(x), w); b[in.d] = from128((v < 0 ? (u128)0 - (u128)v : (u128)v) & maskw(w)); } else b[in.d] = fromE(X.Ite(X.Slt(x.e, X.C(w, 0)), X.Sub(X.C(w, 0), x.e), x.e)); break; }
        case O_UADDO: case O_USUBO: case O_UMULO: case O_SADDO: case O_SSUBO: case O_SMULO: { Slot x = op(b, in.a), y = op(b, in.b); fr->pc = pc - 1; overflowOp(in.op, x, y, w, b + in.d); break; }
        case O_UADDS: case O_USUBS: case O_SADDS: case O_SSUBS: { Slot r[2]; Slot x = op(b, in.a), y = op(b, in.b); unsigned o = in.op == O_UADDS ? O_UADDO : in.op == O_USUBS ? O_USUBO : in.op == O_SADDS ? O_SADDO : O_SSUBO; overflowOp(o, x, y, w, r); Slot sat; if (in.op == O_UADDS) sat = from128(maskw(w)); else if (in.op == O_USUBS) sat = S(0); else { Slot neg = cmpop(O_SLT, x, S(0), w); if (neg.e) sat = fromE(X.Ite(neg.e, X.C(w, (u128)1 << (w - 1)), X.C(w, maskw(w - 1)))); else sat = from128(neg.lo ? (u128)1 << (w - 1) : maskw(w - 1)); } if (!r[1].e) b[in.d] = r[1].lo ? sat : r[0]; else b[in.d] = fromE(X.Ite(r[1].e, ex(sat, w), ex(r[0], w))); break; }
        case O_CTLZ: { const Slot &x = op(b, in.a); if (!x.e) { u128 v = v128(x); unsigned n = w; while (v) { n--; v >>= 1; } b[in.d] = S(n); } else { markSym(); b[in.d] = fromE(ctlzE(x.e)); } break; }
        case O_CTTZ: { const Slot &x = op(b, in.a); if (!x.e) { u128 v = v128(x); unsigned n = 0; while (n < w && !((v >> n) & 1)) n++; b[in.d] = S(n); } else { markSym(); b[in.d] = fromE(cttzE(x.e)); } break; }
        case O_CTPOP: { const Slot &x = op(b, in.a); if (!x.e) b[in.d] = S(__builtin_popcountll(x.lo) + __builtin_popcountll(x.hi)); else b[in.d] = fromE(ctpopE(x.e)); break; }
        case O_BSWAP: { const Slot &x = op(b, in.a); if (!x.e) { u128 v = v128(x), r = 0; for (unsigned i = 0; i < w / 8; i++) r = (r << 8) | ((v >> (8 * i)) & 0xff); b[in.d] = from128(r); } else b[in.d] = fromE(bswapE(x.e)); break; }
        case O_BITREV: { const Slot &x = op(b, in.a); if (!x.e) { u128 v = v128(x), r = 0; for (unsigned i = 0; i < w; i++) r = (r << 1) | ((v >> i) & 1); b[in.d] = from128(r); } else b[in.d] = fromE(bitrevE(x.e)); break; }
        case O_FSHL: case O_FSHR: { Slot x = op(b, in.a), y = op(b, in.b), z = op(b, in.c); Slot s = binop(O_UREM, z, S(w), w); Slot inv = binop(O_SUB, S(w), s, w); Slot r; if (in.op == O_FSHL) { r = binop(O_OR, binop(O_SHL, x, s, w), binop(O_LSHR, y, inv, w), w); Slot z0 = cmpop(O_EQ, s, S(0), w); if (!z0.e) { if (z0.lo) r = x; } else r = fromE(X.Ite(z0.e, ex(x, w), ex(r, w))); } else { r = binop(O_OR, binop(O_LSHR, y, s, w), binop(O_SHL, x, inv, w), w); Slot z0 = cmpop(O_EQ, s, S(0), w); if (!z0.e) { if (z0.lo) r = y; } else r = fromE(X.Ite(z0.e, ex(y, w), ex(r, w))); } b[in.d] = r; break; }
        case O_TLS: b[in.d] = S(tlsAddr(t, in.aux) + in.imm); break;
        case O_EXTRDYN: { const std::vector<int> &xs = fr->f->ext[in.b]; fr->pc = pc - 1; u64 i = conc(op(b, in.a)); b[in.d] = op(b, xs[i % xs.size()]); break; }
        case O_INSDYN: { const std::vector<int> &xs = fr->f->ext[in.b]; fr->pc = pc - 1; u64 i = conc(op(b, in.a)); std::vector<Slot> v; for (int c : xs) v.push_back(op(b, c)); v[i % v.size()] = op(b, in.c); for (size_t k = 0; k < v.size(); k++) b[in.d + k] = v[k]; break; }
        default: die("bad op %d", in.op);
      }
    }
  }
}
bool resched = false, suppressRet = false; int curDst = -1; int retFrameIdx(Thread *t) { return hFrame < 0 ? (int)t->frames.size() - 1 : hFrame; } int hFrame = -1;
std::vector<std::string> unsupported;
struct TlsG { u64 size, align; std::vector<u8> init; std::vector<std::pair<u64, u64>> dummy; u64 initAddr; };
std::vector<TlsG> tlsG;
u64 tlsAddr(Thread *t, int g) { auto it = t->tls.find(g); if (it != t->tls.end()) return it->second; u64 a = M.bump(tlsG[g].size ? tlsG[g].size : 1, std::max<u64>(16, tlsG[g].align)); memcpy((void*)a, (void*)tlsG[g].initAddr, tlsG[g].size); t->tls[g] = a; return a; }
