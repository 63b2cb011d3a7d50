// Bit-vector terms as linear integer terms: every operator becomes its exact
// integer meaning, with wrap-around only where the ranges do not rule it out.
// Terms outside of the linear fragment make the translation give up.
struct Lia {
  ExprMgr &X; Z3_context z; Z3_sort I; std::unordered_map<Expr*, Z3_ast> ti, tb; std::map<std::pair<Expr*, u128>, std::pair<Z3_ast, Z3_ast>> divs; std::map<std::tuple<Expr*, unsigned, unsigned>, Z3_ast> exts; std::vector<Z3_ast> side; bool bad = false; unsigned nf = 0; std::vector<std::pair<u32, Z3_ast>> vars;
  Lia(ExprMgr &x) : X(x), z(x.z3) { I = Z3_mk_int_sort(z); }
  Z3_ast num(u128 v, bool neg = false) { char b[64]; int i = 63; b[i] = 0; if (!v) b[--i] = '0'; while (v) { b[--i] = '0' + (int)(v % 10); v /= 10; } if (neg) b[--i] = '-'; return Z3_mk_numeral(z, b + i, I); }
  Z3_ast pw(unsigned n) { if (n < 128) return num((u128)1 << n); Z3_ast t[2] = {num((u128)1 << 64), num((u128)1 << (n - 64))}; if (n == 128) return Z3_mk_numeral(z, "340282366920938463463374607431768211456", I); (void)t; bad = true; return num(0); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_add(z, 2, t); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_sub(z, 2, t); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_mul(z, 2, t); }
  Z3_ast fresh() { char b[32]; snprintf(b, 32, "f!%u", nf++); return Z3_mk_const(z, Z3_mk_string_symbol(z, b), I); }
  void bound(Z3_ast v, u128 lo, u128 hi) { side.push_back(Z3_mk_ge(z, v, num(lo))); side.push_back(Z3_mk_le(z, v, num(hi))); }
  // v = p mod 2^w
  Z3_ast wrap(Z3_ast p, unsigned w) { Z3_ast r = fresh(), k = fresh(); bound(r, 0, maskw(w)); side.push_back(Z3_mk_eq(z, p, add(mul(pw(w), k), r))); return r; }
  std::pair<Z3_ast, Z3_ast> div(Expr *a, u128 c) { auto it = divs.find({a, c}); if (it != divs.end()) return it->second; Z3_ast x = i(a), q = fresh(), r = fresh(); bound(q, 0, maskw(a->w) / c); bound(r, 0, c - 1); side.push_back(Z3_mk_eq(z, x, add(mul(num(c), q), r))); return divs[{a, c}] = {q, r}; }
  Z3_ast ext(Expr *a, unsigned lo, unsigned w) { auto key = std::make_tuple(a, lo, w); auto it = exts.find(key); if (it != exts.end()) return it->second; Z3_ast x = i(a), m = fresh(); bound(m, 0, maskw(w)); Z3_ast s = lo ? mul(m, pw(lo)) : m; if (lo) { Z3_ast l = fresh(); bound(l, 0, maskw(lo)); s = add(s, l); } if (lo + w < a->w) { Z3_ast h = fresh(); bound(h, 0, maskw(a->w - lo - w)); s = add(s, mul(h, pw(lo + w))); } side.push_back(Z3_mk_eq(z, x, s)); return exts[key] = m; }
  Z3_ast sgn(Expr *a) { auto r = X.rng(a); u128 h = maskw(a->w - 1); if (r.second <= h) return i(a); if (r.first > h) return sub(i(a), pw(a->w)); return Z3_mk_ite(z, Z3_mk_gt(z, i(a), num(h)), sub(i(a), pw(a->w)), i(a)); }
  Z3_ast i(Expr *e) {
    if (bad) return num(0);
    auto it = ti.find(e); if (it != ti.end()) return it->second;
    Z3_ast r = nullptr; unsigned w = e->w; u128 m = maskw(w); Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case E_CONST: r = num(e->c); break;
      case E_VAR: { char n[32]; snprintf(n, 32, "i%u", e->aux); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n), I); bound(r, 0, m); vars.push_back({e->aux, r}); break; }
      case E_ZEXT: r = i(a); break;
      case E_SEXT: { auto q = X.rng(a); u128 h = maskw(a->w - 1), d = m - maskw(a->w); if (q.second <= h) r = i(a); else r = add(i(a), Z3_mk_ite(z, Z3_mk_gt(z, i(a), num(h)), num(d), num(0))); break; }
      case E_CONCAT: r = add(mul(i(a), pw(b->w)), i(b)); break;
      case E_EXTRACT: r = ext(a, e->aux, w); break;
      case E_ADD: { auto x = X.rng(a), y = X.rng(b); u128 s, t; bool o = __builtin_add_overflow(x.second, y.second, &s) || s > m; bool must = !__builtin_add_overflow(x.first, y.first, &t) ? t > m : true; Z3_ast v = add(i(a), i(b)); r = !o ? v : must ? sub(v, pw(w)) : Z3_mk_ite(z, Z3_mk_gt(z, v, num(m)), sub(v, pw(w)), v); break; }
      case E_SUB: { auto x = X.rng(a), y = X.rng(b); Z3_ast v = sub(i(a), i(b)); r = x.first >= y.second ? v : x.second < y.first ? add(v, pw(w)) : Z3_mk_ite(z, Z3_mk_lt(z, v, num(0)), add(v, pw(w)), v); break; }
      case E_MUL: {
        if (ExprMgr::isC(a)) std::swap(a, b);
        auto x = X.rng(a); u128 y;
        if (!ExprMgr::isC(b)) { bad = true; break; }
        if (!__builtin_mul_overflow(x.second, b->c, &y) && y <= m) { r = mul(num(b->c), i(a)); break; }
        if (b->c > (m >> 1)) { u128 n = (m - b->c) + 1; r = wrap(mul(num(n, true), i(a)), w); } else r = wrap(mul(num(b->c), i(a)), w);
        break; }
      case E_UDIV: if (!ExprMgr::isC(b) || !b->c) { bad = true; break; } r = div(a, b->c).first; break;
      case E_UREM: if (!ExprMgr::isC(b) || !b->c) { bad = true; break; } r = div(a, b->c).second; break;
      case E_ITE: r = Z3_mk_ite(z, B(e->k[0]), i(b), i(e->k[2])); break;
      case E_XOR: if (ExprMgr::isC(a)) std::swap(a, b); if (w > 1 && ExprMgr::isC(b) && b->c == m) { r = sub(num(m), i(a)); break; } [[fallthrough]];
      default: if (w == 1) r = Z3_mk_ite(z, B(e), num(1), num(0)); else bad = true;
    }
    if (bad || !r) { bad = true; return num(0); }
    return ti[e] = r;
  }
  Z3_ast B(Expr *e) {
    if (bad) return Z3_mk_true(z);
    auto it = tb.find(e); if (it != tb.end()) return it->second;
    Z3_ast r = nullptr, t[2]; Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case E_CONST: r = e->c ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case E_AND: t[0] = B(a); t[1] = B(b); r = Z3_mk_and(z, 2, t); break;
      case E_OR: t[0] = B(a); t[1] = B(b); r = Z3_mk_or(z, 2, t); break;
      case E_XOR: r = Z3_mk_xor(z, B(a), B(b)); break;
      case E_ITE: r = Z3_mk_ite(z, B(a), B(b), B(e->k[2])); break;
      case E_EQ: if (a->w == 1) r = Z3_mk_iff(z, B(a), B(b)); else r = Z3_mk_eq(z, i(a), i(b)); break;
      case E_ULT: r = Z3_mk_lt(z, i(a), i(b)); break;
      case E_ULE: r = Z3_mk_le(z, i(a), i(b)); break;
      case E_SLT: r = Z3_mk_lt(z, sgn(a), sgn(b)); break;
      case E_SLE: r = Z3_mk_le(z, sgn(a), sgn(b)); break;
      case E_EXTRACT: if (e->aux + 1 == a->w) { r = Z3_mk_gt(z, i(a), num(maskw(a->w - 1))); break; } [[fallthrough]];
      case E_VAR: case E_UDIV: case E_UREM: r = Z3_mk_eq(z, i(e), num(1)); break;
      default: bad = true;
    }
    if (bad || !r) { bad = true; return Z3_mk_true(z); }
    return tb[e] = r;
  }
  // 1 sat, 0 unsat, -1 don't know
  int solve(const std::vector<Expr*> &cs, u64 rlimit, std::vector<u128> &m) {
    std::vector<Z3_ast> as; for (Expr *c : cs) as.push_back(B(c));
    if (bad) return -1;
    Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_LIA")); Z3_solver_inc_ref(z, s);
    Z3_params ps = Z3_mk_params(z); Z3_params_inc_ref(z, ps); Z3_params_set_uint(z, ps, Z3_mk_string_symbol(z, "rlimit"), (unsigned)rlimit); Z3_params_set_uint(z, ps, Z3_mk_string_symbol(z, "timeout"), 20000); Z3_solver_set_params(z, s, ps); Z3_params_dec_ref(z, ps);
    for (Z3_ast a : side) Z3_solver_assert(z, s, a); for (Z3_ast a : as) Z3_solver_assert(z, s, a);
    if (getenv("KH_LIA")) fprintf(stderr, "%s\n", Z3_solver_to_string(z, s));
    Z3_lbool r = Z3_solver_check(z, s); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) { Z3_model zm = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, zm);
      for (auto &v : vars) { Z3_ast out; if (Z3_model_eval(z, zm, v.second, true, &out)) { const char *q = Z3_get_numeral_string(z, out); u128 n = 0; while (q && *q >= '0' && *q <= '9') n = n * 10 + (*q++ - '0'); m[v.first] = n; } }
      Z3_model_dec_ref(z, zm); }
    Z3_solver_dec_ref(z, s); return res;
  }
};
