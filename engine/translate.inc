// LLVM IR -> flat register code
static std::map<std::pair<std::pair<u64, u64>, int>, int> constIdx;
static int constCode(u64 lo, u64 hi = 0) { auto k = std::make_pair(std::make_pair(lo, hi), 0); auto it = constIdx.find(k); if (it != constIdx.end()) return ~it->second; int i = consts.size(); consts.push_back(Slot{lo, hi, nullptr}); constIdx[k] = i; return ~i; }

struct Leaf { unsigned w; u64 off; };
struct Translator {
  Engine &E; Module &Mod; const DataLayout &DL;
  std::map<const GlobalValue*, u64> gaddr; std::map<const GlobalVariable*, int> tlsIdx; std::map<const Function*, int> fidx;
  std::map<Type*, std::vector<Leaf>> leafCache;
  Func *F = nullptr; std::map<const Value*, int> slotOf; int next = 0; std::vector<Inst> *code = nullptr;
  std::map<std::pair<int, u64>, int> tlsSlots;
  Translator(Engine &E, Module &m) : E(E), Mod(m), DL(m.getDataLayout()) {}

  const std::vector<Leaf> &leaves(Type *t) {
    auto it = leafCache.find(t); if (it != leafCache.end()) return it->second;
    std::vector<Leaf> v; flat(t, 0, v); return leafCache[t] = v;
  }
  unsigned scalarBits(Type *t) { if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth(); return 0; }
  void flat(Type *t, u64 off, std::vector<Leaf> &v) {
    if (unsigned w = scalarBits(t)) { v.push_back({w, off}); return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), v); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL.getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * s, v); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned w = scalarBits(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back({w, off + (w % 8 == 0 ? i * w / 8 : i)}); return; }
    if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
    v.push_back({64, off}); // unknown (x86_fp80 …): never executed, flagged when used
  }
  bool oddType(Type *t) { if (t->isX86_FP80Ty() || t->isFP128Ty() || t->isHalfTy() || t->isPPC_FP128Ty() || t->isBFloatTy()) return true; if (t->isIntegerTy() && t->getIntegerBitWidth() > 128) return true; if (auto *v = dyn_cast<VectorType>(t)) return oddType(v->getElementType()); return false; }

  // ---- constants
  const GlobalVariable *tlsBase(const Constant *c) { if (auto *g = dyn_cast<GlobalVariable>(c)) return g->isThreadLocal() ? g : nullptr; if (auto *ce = dyn_cast<ConstantExpr>(c)) { for (auto &o : ce->operands()) if (auto *cc = dyn_cast<Constant>(o)) if (auto *g = tlsBase(cc)) return g; } return nullptr; }
  static Slot S128(u128 v) { return Slot{(u64)v, (u64)(v >> 64), nullptr}; }
  static u128 apv(const APInt &a) { u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v; }
  Slot evalScalar(const Constant *c) { std::vector<Slot> v; evalConst(c, v); return v.empty() ? Slot{0, 0, nullptr} : v[0]; }
  void evalConst(const Constant *c, std::vector<Slot> &out) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 128) { out.push_back(Slot{0,0,nullptr}); return; } out.push_back(S128(apv(ci->getValue()))); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { if (oddType(c->getType())) { out.push_back(Slot{0,0,nullptr}); return; } out.push_back(S128(apv(cf->getValueAPF().bitcastToAPInt()))); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(Slot{0,0,nullptr}); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0, n = leaves(c->getType()).size(); i < n; i++) out.push_back(Slot{0,0,nullptr}); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { for (auto &o : c->operands()) evalConst(cast<Constant>(o), out); return; }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) { evalConst(ga->getAliasee(), out); return; }
    if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); out.push_back(Slot{it == gaddr.end() ? 0 : it->second, 0, nullptr}); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = scalarBits(ce->getType()); auto opv = [&](unsigned i) { Slot s = evalScalar(cast<Constant>(ce->getOperand(i))); return (u128)s.hi << 64 | s.lo; }; auto opw = [&](unsigned i) { return scalarBits(ce->getOperand(i)->getType()); };
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) { out.push_back(Slot{(u64)opv(0) + off.getZExtValue(), 0, nullptr}); return; } break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast: if (w) { out.push_back(S128(opv(0) & maskw(w))); return; } break;
        case Instruction::SExt: out.push_back(S128((u128)sx(opv(0), opw(0)) & maskw(w))); return;
        case Instruction::Add: out.push_back(S128((opv(0) + opv(1)) & maskw(w))); return; case Instruction::Sub: out.push_back(S128((opv(0) - opv(1)) & maskw(w))); return; case Instruction::Mul: out.push_back(S128((opv(0) * opv(1)) & maskw(w))); return;
        case Instruction::And: out.push_back(S128(opv(0) & opv(1))); return; case Instruction::Or: out.push_back(S128(opv(0) | opv(1))); return; case Instruction::Xor: out.push_back(S128(opv(0) ^ opv(1))); return;
        case Instruction::Shl: out.push_back(S128((opv(0) << (unsigned)opv(1)) & maskw(w))); return; case Instruction::LShr: out.push_back(S128(opv(0) >> (unsigned)opv(1))); return;
        case Instruction::ICmp: { bool r = E.cmpop(predOp((CmpInst::Predicate)ce->getPredicate()), S128(opv(0)), S128(opv(1)), opw(0)).lo; out.push_back(Slot{r, 0, nullptr}); return; }
        case Instruction::Select: evalConst(cast<Constant>(ce->getOperand(opv(0) ? 1 : 2)), out); return;
        default: break;
      }
      fprintf(stderr, "khsym: unsupported constant expression opcode %s\n", ce->getOpcodeName());
    }
    for (size_t i = 0, n = leaves(c->getType()).size(); i < n; i++) out.push_back(Slot{0,0,nullptr});
  }
  unsigned predOp(CmpInst::Predicate p) { switch (p) { case CmpInst::ICMP_EQ: return O_EQ; case CmpInst::ICMP_NE: return O_NE; case CmpInst::ICMP_ULT: return O_ULT; case CmpInst::ICMP_ULE: return O_ULE; case CmpInst::ICMP_UGT: return O_UGT; case CmpInst::ICMP_UGE: return O_UGE; case CmpInst::ICMP_SLT: return O_SLT; case CmpInst::ICMP_SLE: return O_SLE; case CmpInst::ICMP_SGT: return O_SGT; case CmpInst::ICMP_SGE: return O_SGE; default: return O_EQ; } }
  void writeConst(u64 a, const Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
    if (isa<ConstantStruct>(c)) { auto *sl = DL.getStructLayout(cast<StructType>(c->getType())); for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(a + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
    if (isa<ConstantArray>(c)) { u64 s = DL.getTypeAllocSize(c->getType()->getArrayElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(a + i * s, cast<Constant>(c->getOperand(i))); return; }
    std::vector<Slot> v; evalConst(c, v); auto &lv = leaves(c->getType()); for (size_t i = 0; i < lv.size() && i < v.size(); i++) { unsigned n = (lv[i].w + 7) / 8; memcpy((void*)(a + lv[i].off), &v[i].lo, std::min(n, 8u)); if (n > 8) memcpy((void*)(a + lv[i].off + 8), &v[i].hi, n - 8); }
  }

  // ---- values
  int tmp(int n = 1) { int r = next; next += n; return r; }
  std::vector<int> ops(const Value *v) {
    std::vector<int> r;
    if (auto *c = dyn_cast<Constant>(v)) {
      if (auto *g = tlsBase(c)) {
        // address of a thread local (+ constant offset)
        u64 off = 0; const Constant *p = c; while (p != g) { auto *ce = cast<ConstantExpr>(p); if (ce->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(DL, o); off += o.getZExtValue(); } else if (ce->getOpcode() != Instruction::BitCast && ce->getOpcode() != Instruction::PtrToInt && ce->getOpcode() != Instruction::IntToPtr) { E.unsupported.push_back("TLS constant expression"); break; } p = cast<Constant>(ce->getOperand(0)); }
        auto k = std::make_pair(tlsIdx[g], off); auto it = tlsSlots.find(k); if (it == tlsSlots.end()) it = tlsSlots.insert({k, tmp()}).first; r.push_back(it->second); return r;
      }
      std::vector<Slot> s; evalConst(c, s); for (auto &x : s) r.push_back(constCode(x.lo, x.hi)); return r;
    }
    auto it = slotOf.find(v); if (it == slotOf.end()) { size_t n = leaves(v->getType()).size(); int b = tmp(n); slotOf[v] = b; it = slotOf.find(v); }
    size_t n = leaves(v->getType()).size(); for (size_t i = 0; i < n; i++) r.push_back(it->second + (int)i); return r;
  }
  int op1(const Value *v) { auto r = ops(v); return r.empty() ? constCode(0) : r[0]; }
  int dst(const Value *v) { auto it = slotOf.find(v); if (it != slotOf.end()) return it->second; int n = leaves(v->getType()).size(); int b = tmp(n ? n : 1); slotOf[v] = b; return b; }
  Inst &em(unsigned o, unsigned w = 0) { Inst i; memset(&i, 0, sizeof i); i.op = o; i.w = w; i.d = -1; code->push_back(i); return code->back(); }
  int ext(std::vector<int> v) { F->ext.push_back(std::move(v)); return F->ext.size() - 1; }
  void bad(const std::string &s) { E.unsupported.push_back(s); em(O_ASSUMEFALSE).imm = E.unsupported.size() - 1; }
  void bad(const Instruction *i, const char *why = "") { std::string s; raw_string_ostream os(s); i->print(os); os.flush(); bad(std::string(why) + s.substr(0, 200)); }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.pc = -1; for (auto &p : to->phis()) { auto s = ops(p.getIncomingValueForBlock(from)); int d = dst(&p); for (size_t i = 0; i < s.size(); i++) e.cp.push_back({d + (int)i, s[i]}); }
    F->edges.push_back(e); edgeTo.push_back(to); return F->edges.size() - 1;
  }
  std::vector<const BasicBlock*> edgeTo; 

  int pseudo(const std::string &h) { std::string n = "#" + h; auto it = funcIdx.find(n); if (it != funcIdx.end()) return it->second; Func *f = new Func; f->id = funcs.size(); f->name = n; f->h = HN[h]; f->decl = true; if (!f->h) die("no handler %s", h.c_str()); funcs.push_back(f); funcIdx[n] = f->id; return f->id; }
  void callHandler(const std::string &h, const CallBase *cb, unsigned nargs) { std::vector<int> a; for (unsigned i = 0; i < nargs; i++) for (int c : ops(cb->getArgOperand(i))) a.push_back(c); bool v = cb->getType()->isVoidTy(); int d = v ? -1 : dst(cb); int e = ext(a); int p = pseudo(h); Inst &in = em(O_HANDLER); in.a = p; in.b = e; in.aux = v ? 0 : leaves(cb->getType()).size(); in.d = d; }
  void lanes1(unsigned o, const Instruction *i, const Value *x, unsigned aux = 0, bool srcW = false) { auto a = ops(x); int d = dst(i); unsigned w = leaves(i->getType())[0].w, sw = leaves(x->getType())[0].w; for (size_t k = 0; k < a.size(); k++) { Inst &in = em(o, w); in.a = a[k]; in.d = d + k; in.aux = srcW ? sw : aux; in.imm = (u64)maskw(w); } }
  void lanes2(unsigned o, const Instruction *i, const Value *x, const Value *y, unsigned aux = 0) { auto a = ops(x), b = ops(y); int d = dst(i); unsigned w = leaves(x->getType())[0].w; for (size_t k = 0; k < a.size(); k++) { Inst &in = em(o, w); in.a = a[k]; in.b = b[k]; in.d = d + k; in.aux = aux; in.imm = (u64)maskw(w); } }
  void movAll(int d, const std::vector<int> &s) { for (size_t k = 0; k < s.size(); k++) { Inst &in = em(O_MOV, 64); in.a = s[k]; in.d = d + k; } }
  unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) { unsigned n = 0; for (unsigned i : idx) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += leaves(st->getElementType(k)).size(); t = st->getElementType(i); } else { auto *at = cast<ArrayType>(t); n += i * leaves(at->getElementType()).size(); t = at->getElementType(); } } return n; }

  void intrinsic(const CallInst *ci, StringRef n) {
    auto A = [&](unsigned i) { return ci->getArgOperand(i); };
    auto has = [&](const char *p) { return n.starts_with(p); };
    if (has("llvm.memcpy") || has("llvm.memmove")) { callHandler("memcpy", ci, 3); return; }
    if (has("llvm.memset")) { callHandler("memset", ci, 3); return; }
    if (has("llvm.lifetime") || has("llvm.assume") || has("llvm.experimental.noalias") || has("llvm.prefetch") || has("llvm.dbg") || has("llvm.invariant") || has("llvm.donothing") || has("llvm.x86.avx.vzero") || has("llvm.var.annotation") || has("llvm.pseudoprobe")) return;
    if (has("llvm.stacksave")) { movAll(dst(ci), {constCode(0)}); return; } if (has("llvm.stackrestore")) return;
    if (has("llvm.trap") || has("llvm.debugtrap") || has("llvm.ubsantrap")) { em(O_UNREACH); return; }
    if (has("llvm.expect") || has("llvm.ptrmask_") || has("llvm.launder") || has("llvm.strip.inv") || has("llvm.annotation") || has("llvm.threadlocal.address")) { movAll(dst(ci), ops(A(0))); return; }
    if (has("llvm.is.constant")) { movAll(dst(ci), {constCode(0)}); return; }
    if (has("llvm.objectsize")) { movAll(dst(ci), {constCode(~0ull)}); return; }
    if (has("llvm.returnaddress") || has("llvm.frameaddress")) { movAll(dst(ci), {constCode(0)}); return; }
    if (has("llvm.x86.sse2.pause")) { std::vector<int> a; int e = ext(a); int p = pseudo("sched_yield"); Inst &in = em(O_HANDLER); in.a = p; in.b = e; in.aux = 0; in.d = -1; return; }
    static const std::vector<std::pair<const char*, unsigned>> bin = {{"llvm.umin.", O_UMIN}, {"llvm.umax.", O_UMAX}, {"llvm.smin.", O_SMIN}, {"llvm.smax.", O_SMAX}, {"llvm.uadd.sat.", O_UADDS}, {"llvm.usub.sat.", O_USUBS}, {"llvm.sadd.sat.", O_SADDS}, {"llvm.ssub.sat.", O_SSUBS}, {"llvm.copysign.", O_COPYSIGN}};
    for (auto &p : bin) if (has(p.first)) { lanes2(p.second, ci, A(0), A(1)); return; }
    static const std::vector<std::pair<const char*, unsigned>> ovf = {{"llvm.uadd.with.overflow", O_UADDO}, {"llvm.usub.with.overflow", O_USUBO}, {"llvm.umul.with.overflow", O_UMULO}, {"llvm.sadd.with.overflow", O_SADDO}, {"llvm.ssub.with.overflow", O_SSUBO}, {"llvm.smul.with.overflow", O_SMULO}};
    for (auto &p : ovf) if (has(p.first)) { if (A(0)->getType()->isVectorTy()) { bad(ci); return; } int a = op1(A(0)), b = op1(A(1)), d = dst(ci); Inst &in = em(p.second, scalarBits(A(0)->getType())); in.a = a; in.b = b; in.d = d; return; }
    static const std::vector<std::pair<const char*, unsigned>> un = {{"llvm.ctlz.", O_CTLZ}, {"llvm.cttz.", O_CTTZ}, {"llvm.ctpop.", O_CTPOP}, {"llvm.bswap.", O_BSWAP}, {"llvm.bitreverse.", O_BITREV}, {"llvm.abs.", O_ABS}, {"llvm.fabs.", O_FABS}};
    for (auto &p : un) if (has(p.first)) { lanes1(p.second, ci, A(0)); return; }
    if (has("llvm.fptosi.sat")) { lanes1(O_FPTOSI_SAT, ci, A(0), 0, true); return; } if (has("llvm.fptoui.sat")) { lanes1(O_FPTOUI_SAT, ci, A(0), 0, true); return; }
    if (has("llvm.trunc.")) { lanes1(O_FRND, ci, A(0), 0); return; } if (has("llvm.floor.")) { lanes1(O_FRND, ci, A(0), 1); return; } if (has("llvm.ceil.")) { lanes1(O_FRND, ci, A(0), 2); return; } if (has("llvm.round.")) { lanes1(O_FRND, ci, A(0), 3); return; } if (has("llvm.rint.") || has("llvm.nearbyint.") || has("llvm.roundeven.")) { lanes1(O_FRND, ci, A(0), 4); return; }
    if (has("llvm.fshl.") || has("llvm.fshr.")) { auto a = ops(A(0)), b = ops(A(1)), c = ops(A(2)); int d = dst(ci); unsigned w = leaves(ci->getType())[0].w; for (size_t k = 0; k < a.size(); k++) { Inst &in = em(has("llvm.fshl.") ? O_FSHL : O_FSHR, w); in.a = a[k]; in.b = b[k]; in.c = c[k]; in.d = d + k; } return; }
    if (has("llvm.vector.reduce.")) { auto a = ops(A(0)); unsigned o = has("llvm.vector.reduce.add") ? O_ADD : has("llvm.vector.reduce.or") ? O_OR : has("llvm.vector.reduce.and") ? O_AND : has("llvm.vector.reduce.xor") ? O_XOR : has("llvm.vector.reduce.mul") ? O_MUL : has("llvm.vector.reduce.umax") ? O_UMAX : has("llvm.vector.reduce.umin") ? O_UMIN : has("llvm.vector.reduce.smax") ? O_SMAX : has("llvm.vector.reduce.smin") ? O_SMIN : (unsigned)O_NOP; if (o == O_NOP) { bad(ci); return; } unsigned w = scalarBits(ci->getType()); int d = dst(ci); { Inst &in = em(O_MOV, w); in.a = a[0]; in.d = d; } for (size_t k = 1; k < a.size(); k++) { Inst &in = em(o, w); in.a = d; in.b = a[k]; in.d = d; in.imm = (u64)maskw(w); } return; }
    if (has("llvm.load.relative")) { int b = op1(A(0)), o = op1(A(1)), d = dst(ci); int t1 = tmp(), t2 = tmp(), t3 = tmp(); { Inst &in = em(O_ADD, 64); in.a = b; in.b = o; in.d = t1; in.imm = ~0ull; } { Inst &in = em(O_LOAD, 32); in.a = t1; in.d = t2; } { Inst &in = em(O_SEXT, 64); in.a = t2; in.d = t3; in.aux = 32; } { Inst &in = em(O_ADD, 64); in.a = b; in.b = t3; in.d = d; in.imm = ~0ull; } return; }
    bad(ci, "intrinsic ");
  }

  void call(const CallBase *cb) {
    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto *ia = dyn_cast<InlineAsm>(cv)) {
      StringRef s = ia->getAsmString(); if (!cb->getType()->isVoidTy()) { int d = dst(cb); size_t n = leaves(cb->getType()).size(); for (size_t k = 0; k < n; k++) { Inst &in = em(O_MOV, 64); in.a = constCode(0); in.d = d + k; } }
      if (!(s.empty() || s.contains("cpuid") || s.contains("lock not"))) bad(cb, "inline asm "); return;
    }
    while (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
    if (auto *f = dyn_cast<Function>(cv)) if (f->isIntrinsic()) { if (auto *ci = dyn_cast<CallInst>(cb)) intrinsic(ci, f->getName()); else bad(cb); return; }
    std::vector<int> a; for (auto &o : cb->args()) for (int c : ops(o)) a.push_back(c);
    size_t nr = leaves(cb->getType()).size(); int d = nr ? dst(cb) : -1;
    if (auto *f = dyn_cast<Function>(cv)) { int e = ext(a); Inst &in = em(O_CALL); in.a = fidx[f]; in.b = e; in.aux = nr; in.d = d; }
    else { int p = op1(cb->getCalledOperand()); int e = ext(a); Inst &in = em(O_CALLI); in.a = p; in.b = e; in.aux = nr; in.d = d; }
  }

  void inst(const Instruction *I) {
    if (isa<PHINode>(I)) { dst(I); return; }
    if (oddType(I->getType())) { bad(I, "type "); dst(I); return; }
    switch (I->getOpcode()) {
      case Instruction::Add: lanes2(O_ADD, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::Sub: lanes2(O_SUB, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::Mul: lanes2(O_MUL, I, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::UDiv: lanes2(O_UDIV, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::SDiv: lanes2(O_SDIV, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::URem: lanes2(O_UREM, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::SRem: lanes2(O_SREM, I, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::Shl: lanes2(O_SHL, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::LShr: lanes2(O_LSHR, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::AShr: lanes2(O_ASHR, I, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::And: lanes2(O_AND, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::Or: lanes2(O_OR, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::Xor: lanes2(O_XOR, I, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FAdd: lanes2(O_FADD, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::FSub: lanes2(O_FSUB, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::FMul: lanes2(O_FMUL, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::FDiv: lanes2(O_FDIV, I, I->getOperand(0), I->getOperand(1)); return; case Instruction::FRem: lanes2(O_FREM, I, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FNeg: lanes1(O_FNEG, I, I->getOperand(0)); return;
      case Instruction::ICmp: lanes2(predOp(cast<ICmpInst>(I)->getPredicate()), I, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FCmp: lanes2(O_FCMP, I, I->getOperand(0), I->getOperand(1), cast<FCmpInst>(I)->getPredicate()); return;
      case Instruction::Trunc: lanes1(O_TRUNC, I, I->getOperand(0)); return; case Instruction::ZExt: lanes1(O_ZEXT, I, I->getOperand(0)); return; case Instruction::SExt: lanes1(O_SEXT, I, I->getOperand(0), 0, true); return;
      case Instruction::FPExt: lanes1(O_FPEXT, I, I->getOperand(0), 0, true); return; case Instruction::FPTrunc: lanes1(O_FPTRUNC, I, I->getOperand(0), 0, true); return; case Instruction::SIToFP: lanes1(O_SITOFP, I, I->getOperand(0), 0, true); return; case Instruction::UIToFP: lanes1(O_UITOFP, I, I->getOperand(0), 0, true); return; case Instruction::FPToSI: lanes1(O_FPTOSI, I, I->getOperand(0), 0, true); return; case Instruction::FPToUI: lanes1(O_FPTOUI, I, I->getOperand(0), 0, true); return;
      case Instruction::PtrToInt: { unsigned w = leaves(I->getType())[0].w; lanes1(w < 64 ? O_TRUNC : w == 64 ? O_MOV : O_ZEXT, I, I->getOperand(0)); return; }
      case Instruction::IntToPtr: { unsigned w = leaves(I->getOperand(0)->getType())[0].w; lanes1(w > 64 ? O_TRUNC : w == 64 ? O_MOV : O_ZEXT, I, I->getOperand(0)); return; }
      case Instruction::Freeze: case Instruction::AddrSpaceCast: movAll(dst(I), ops(I->getOperand(0))); return;
      case Instruction::BitCast: {
        auto s = ops(I->getOperand(0)); auto &ls = leaves(I->getOperand(0)->getType()), &ld = leaves(I->getType());
        if (ls.size() == ld.size() && ls[0].w == ld[0].w) { movAll(dst(I), s); return; }
        if (ls.size() > 256 || ld.size() > 256) { bad(I); dst(I); return; }
        std::vector<int> x = {(int)ls.size(), (int)ls[0].w, (int)ld.size(), (int)ld[0].w}; for (int c : s) x.push_back(c); int d = dst(I), e = ext(x); Inst &in = em(O_BITCASTV); in.b = e; in.d = d; return; }
      case Instruction::Select: { auto c = ops(I->getOperand(0)), a = ops(I->getOperand(1)), b = ops(I->getOperand(2)); int d = dst(I); auto &lv = leaves(I->getType()); bool vc = I->getOperand(0)->getType()->isVectorTy(); int cc = c[0]; for (size_t k = 0; k < a.size(); k++) { Inst &in = em(O_SELECT, lv[k].w); in.a = vc ? c[k] : cc; in.b = a[k]; in.c = b[k]; in.d = d + k; } return; }
      case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(I); auto s = ops(ev->getAggregateOperand()); unsigned o = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); size_t n = leaves(I->getType()).size(); movAll(dst(I), std::vector<int>(s.begin() + o, s.begin() + o + n)); return; }
      case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(I); auto s = ops(iv->getAggregateOperand()), x = ops(iv->getInsertedValueOperand()); unsigned o = leafIndex(I->getType(), iv->getIndices()); for (size_t k = 0; k < x.size(); k++) s[o + k] = x[k]; movAll(dst(I), s); return; }
      case Instruction::ExtractElement: { auto s = ops(I->getOperand(0)); int d = dst(I); if (auto *c = dyn_cast<ConstantInt>(I->getOperand(1))) { movAll(d, {s[c->getZExtValue() % s.size()]}); return; } int i = op1(I->getOperand(1)), e = ext(s); Inst &in = em(O_EXTRDYN); in.a = i; in.b = e; in.d = d; return; }
      case Instruction::InsertElement: { auto s = ops(I->getOperand(0)); int x = op1(I->getOperand(1)), d = dst(I); if (auto *c = dyn_cast<ConstantInt>(I->getOperand(2))) { s[c->getZExtValue() % s.size()] = x; movAll(d, s); return; } int i = op1(I->getOperand(2)), e = ext(s); Inst &in = em(O_INSDYN); in.a = i; in.b = e; in.c = x; in.d = d; return; }
      case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); auto a = ops(I->getOperand(0)), b = ops(I->getOperand(1)); std::vector<int> r; for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? constCode(0) : m < (int)a.size() ? a[m] : b[m - a.size()]); movAll(dst(I), r); return; }
      case Instruction::Alloca: { auto *al = cast<AllocaInst>(I); int n = op1(al->getArraySize()), d = dst(I); Inst &in = em(O_ALLOCA); in.a = n; in.imm = DL.getTypeAllocSize(al->getAllocatedType()); in.aux = al->getAlign().value(); in.d = d; return; }
      case Instruction::Load: { int p = op1(I->getOperand(0)), d = dst(I); auto &lv = leaves(I->getType()); for (size_t k = 0; k < lv.size(); k++) { Inst &in = em(O_LOAD, lv[k].w); in.a = p; in.imm = lv[k].off; in.d = d + k; } return; }
      case Instruction::Store: { auto v = ops(I->getOperand(0)); if (oddType(I->getOperand(0)->getType())) { bad(I); return; } int p = op1(I->getOperand(1)); auto &lv = leaves(I->getOperand(0)->getType()); for (size_t k = 0; k < lv.size(); k++) { Inst &in = em(O_STORE, lv[k].w); in.a = v[k]; in.b = p; in.imm = lv[k].off; } return; }
      case Instruction::GetElementPtr: {
        if (I->getType()->isVectorTy()) { bad(I); dst(I); return; }
        auto *g = cast<GetElementPtrInst>(I); int cur = op1(g->getPointerOperand()); u64 off = 0; std::vector<std::pair<const Value*, u64>> vars;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { const Value *ix = it.getOperand(); if (auto *st = it.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sz = DL.getTypeAllocSize(it.getIndexedType()); if (auto *c = dyn_cast<ConstantInt>(ix)) off += (u64)c->getSExtValue() * sz; else if (isa<UndefValue>(ix)) {} else vars.push_back({ix, sz}); } }
        int d = dst(I); if (vars.empty()) { Inst &in = em(O_GEP, 64); in.a = cur; in.imm = off; in.d = d; return; }
        for (size_t k = 0; k < vars.size(); k++) { int ix = op1(vars[k].first); if (vars[k].second == 0) { Inst &in = em(O_GEP, 64); in.a = cur; in.imm = off; in.d = d; cur = d; off = 0; continue; } if (vars[k].second > 0x7fffffff) { bad(I); return; } Inst &in = em(O_GEP, scalarBits(vars[k].first->getType())); in.a = cur; in.b = ix; in.c = (int)vars[k].second; in.imm = off; in.d = d; cur = d; off = 0; }
        return; }
      case Instruction::Fence: return;
      case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(I); int p = op1(r->getPointerOperand()), v = op1(r->getValOperand()), d = dst(I); int o = -1; switch (r->getOperation()) { case AtomicRMWInst::Xchg: o = 0; break; case AtomicRMWInst::Add: o = 1; break; case AtomicRMWInst::Sub: o = 2; break; case AtomicRMWInst::And: o = 3; break; case AtomicRMWInst::Nand: o = 4; break; case AtomicRMWInst::Or: o = 5; break; case AtomicRMWInst::Xor: o = 6; break; case AtomicRMWInst::Max: o = 7; break; case AtomicRMWInst::Min: o = 8; break; case AtomicRMWInst::UMax: o = 9; break; case AtomicRMWInst::UMin: o = 10; break; default: bad(I); return; } Inst &in = em(O_ATOMICRMW, scalarBits(I->getType())); in.a = p; in.b = v; in.d = d; in.aux = o; return; }
      case Instruction::AtomicCmpXchg: { auto *c = cast<AtomicCmpXchgInst>(I); int p = op1(c->getPointerOperand()), x = op1(c->getCompareOperand()), n = op1(c->getNewValOperand()), d = dst(I); Inst &in = em(O_CMPXCHG, scalarBits(c->getCompareOperand()->getType())); { auto *k = dyn_cast<ConstantInt>(c->getNewValOperand()); in.aux = !(k && k->isZero()); } in.a = p; in.b = x; in.c = n; in.d = d; return; }
      case Instruction::Br: { auto *b = cast<BranchInst>(I); const BasicBlock *bb = I->getParent(); if (b->isUnconditional()) { int e = edge(bb, b->getSuccessor(0)); em(O_BR).a = e; } else { int c = op1(b->getCondition()); int e1 = edge(bb, b->getSuccessor(0)), e2 = edge(bb, b->getSuccessor(1)); Inst &in = em(O_CONDBR, 1); in.a = c; in.b = e1; in.c = e2; } return; }
      case Instruction::Switch: { auto *s = cast<SwitchInst>(I); const BasicBlock *bb = I->getParent(); int c = op1(s->getCondition()); SwitchT st; unsigned w = scalarBits(s->getCondition()->getType()); if (w > 64) { bool big = false; for (auto &cs : s->cases()) if (cs.getCaseValue()->getValue().getActiveBits() > 64) big = true; if (big) { bad(I); return; } } for (auto &cs : s->cases()) { int e = edge(bb, cs.getCaseSuccessor()); st.cases.push_back({cs.getCaseValue()->getValue().getRawData()[0], e}); } st.def = edge(bb, s->getDefaultDest()); F->sw.push_back(st); Inst &in = em(O_SWITCH, w); in.a = c; in.b = F->sw.size() - 1; return; }
      case Instruction::Ret: { std::vector<int> v; if (auto *rv = cast<ReturnInst>(I)->getReturnValue()) v = ops(rv); int n = v.size(); int e = n ? ext(v) : 0; Inst &in = em(O_RET); in.a = e; in.b = n; return; }
      case Instruction::Unreachable: em(O_UNREACH); return;
      case Instruction::Call: call(cast<CallBase>(I)); return;
      case Instruction::Invoke: { auto *iv = cast<InvokeInst>(I); call(iv); int e = edge(I->getParent(), iv->getNormalDest()); em(O_BR).a = e; return; }
      default: bad(I); dst(I); return;
    }
  }
  void function(const Function &f, Func *out) {
    F = out; slotOf.clear(); next = 0; tlsSlots.clear(); edgeTo.clear(); std::vector<Inst> body; code = &body;
    for (auto &a : f.args()) { int n = leaves(a.getType()).size(); slotOf[&a] = next; next += n; } F->nargs = next; F->nret = leaves(f.getReturnType()).size();
    std::map<const BasicBlock*, int> start;
    for (auto &bb : f) { if (bb.isLandingPad()) { start[&bb] = body.size(); for (auto &p : bb.phis()) dst(&p); bad("landing pad (panic=abort)"); continue; } start[&bb] = body.size(); for (auto &I : bb) inst(&I); }
    std::vector<Inst> pre; for (auto &t : tlsSlots) { Inst i; memset(&i, 0, sizeof i); i.op = O_TLS; i.aux = t.first.first; i.imm = t.first.second; i.d = t.second; pre.push_back(i); }
    int sh = pre.size(); for (size_t k = 0; k < F->edges.size(); k++) F->edges[k].pc = start[edgeTo[k]] + sh;
    pre.insert(pre.end(), body.begin(), body.end()); F->code = std::move(pre); F->nslots = next;
  }
};
static void panicH(Engine &E, Slot *r, Slot *a, int n, const Inst &in) { doPanic(E, a, n); }
static void loadModule(Engine &E) {
  LLVMContext *C = new LLVMContext; SMDiagnostic err; std::unique_ptr<Module> m = parseIRFile(O.bc, err, *C); if (!m) die("cannot read %s: %s", O.bc.c_str(), err.getMessage().str().c_str());
  // rustc 1.76 lays i128 out with 8-byte alignment; reading its bitcode, LLVM 18 silently switches to 16
  { std::string d = m->getDataLayoutStr(); size_t i = d.find("-i128:128"); if (i != std::string::npos) { d.erase(i, 9); m->setDataLayout(d); } }
  initHandlers();
  Translator *t = new Translator(E, *m);
  consts.reserve(1 << 20);
  for (auto &f : *m) {
    if (f.isIntrinsic()) continue;
    Func *fn = new Func; fn->id = funcs.size(); fn->name = f.getName().str(); fn->decl = f.isDeclaration(); fn->addr = FBASE + 16ull * fn->id; funcs.push_back(fn); funcIdx[fn->name] = fn->id; t->fidx[&f] = fn->id; t->gaddr[&f] = (f.isDeclaration() && f.hasExternalWeakLinkage()) ? 0 : fn->addr;
    std::string d = demangle(fn->name);
    if (f.isDeclaration()) { auto it = HN.find(fn->name); if (it != HN.end()) fn->h = it->second; if (isPanicFn(d)) fn->h = panicH; }
    else if (isPanicFn(d)) fn->h = panicH;
    else if (Handler hm = hashModel(d)) fn->h = hm;
  }
  for (auto &g : m->globals()) {
    if (g.isDeclaration()) { if (g.hasExternalWeakLinkage()) t->gaddr[&g] = 0; else { u64 a = M.bump(64, 16); t->gaddr[&g] = a; M.globals.push_back({a, 64}); } continue; }
    u64 sz = t->DL.getTypeAllocSize(g.getValueType()); u64 al = std::max<u64>(g.getAlign() ? g.getAlign()->value() : 16, 8); u64 a = M.bump(sz ? sz : 1, al); M.globals.push_back({a, sz}); t->gaddr[&g] = a;
    if (g.isThreadLocal()) { t->tlsIdx[&g] = E.tlsG.size(); Engine::TlsG tg; tg.size = sz; tg.align = al; tg.initAddr = a; E.tlsG.push_back(tg); }
  }
  std::sort(M.globals.begin(), M.globals.end());
  for (auto &g : m->globals()) if (!g.isDeclaration() && g.hasInitializer()) t->writeConst(t->gaddr[&g], g.getInitializer());
  for (auto &f : *m) if (!f.isDeclaration()) t->function(f, funcs[t->fidx[&f]]);
  delete t; m.reset(); delete C;
}
