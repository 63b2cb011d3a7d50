// models of hash functions in dependencies, whose bit mixing no solver inverts:
//  - sha2's compression function: real SHA-256 on concrete input; on symbolic
//    input an uninterpreted injective function (equal input <=> equal output)
//  - crc's CRC-32: real on concrete input, a constant on symbolic input
//  - RandomState: every key hashes to 0 (a legal, worst-case hash function)
static const u32 SHAK[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static void shaBlock(u32 *s, const u8 *p) {
  u32 w[64]; for (int i = 0; i < 16; i++) w[i] = (u32)p[i*4] << 24 | p[i*4+1] << 16 | p[i*4+2] << 8 | p[i*4+3];
  auto rr = [](u32 x, int n) { return x >> n | x << (32 - n); };
  for (int i = 16; i < 64; i++) w[i] = w[i-16] + (rr(w[i-15], 7) ^ rr(w[i-15], 18) ^ w[i-15] >> 3) + w[i-7] + (rr(w[i-2], 17) ^ rr(w[i-2], 19) ^ w[i-2] >> 10);
  u32 a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
  for (int i = 0; i < 64; i++) { u32 t1 = h + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + SHAK[i] + w[i], t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c)); h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2; }
  s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
}
struct ShaEntry { std::vector<Expr*> in; u8 out[32]; bool sym; };
static std::vector<ShaEntry> shaTable;
static void shaCompressH(Engine &E, Slot *r, Slot *a, int n, const Inst &in) {
  u64 st = E.conc(a[0]), p = E.conc(a[1]), k = E.conc(a[2]);
  for (u64 b = 0; b < k; b++, p += 64) {
    bool sym = M.hasSym(st, 32) || M.hasSym(p, 64);
    std::vector<Expr*> v; for (u64 i = 0; i < 32; i++) v.push_back(M.byteE(st + i)); for (u64 i = 0; i < 64; i++) v.push_back(M.byteE(p + i));
    ShaEntry ne; ne.in = v; ne.sym = sym;
    if (!sym) { u32 s[8]; memcpy(s, (void*)st, 32); shaBlock(s, (const u8*)p); memcpy(ne.out, s, 32); }
    else { E.markSym(); u64 x = 0x9e3779b97f4a7c15ull * (shaTable.size() + 1); for (int i = 0; i < 32; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ne.out[i] = (u8)(0x5b + i * 29 + shaTable.size() * 7 + 0 * x); } }
    std::vector<std::pair<Expr*, const ShaEntry*>> same; bool exact = false; 
    for (auto &t : shaTable) { if (!sym && !t.sym) continue;
      Expr *c = X.T(); for (int i = 0; i < 96; i++) if (t.in[i] != v[i]) { c = X.And(c, X.Eq(t.in[i], v[i])); if (c == X.F()) break; }
      if (c == X.F()) continue; same.push_back({c, &t}); if (c == X.T()) { exact = true; break; } }
    for (int i = 0; i < 32; i++) { Expr *o = X.C(8, ne.out[i]); for (size_t j = same.size(); j-- > 0;) o = X.Ite(same[j].first, X.C(8, same[j].second->out[i]), o);
      if (ExprMgr::isC(o)) { M.clearSym(st + i, 1); *(u8*)(st + i) = (u8)o->c; } else M.setSym(st + i, o); }
    if (!exact) { if (shaTable.size() > 600) E.incomplete("sha table full"); shaTable.push_back(ne); }
  }
}
static void crcH(Engine &E, Slot *r, Slot *a, int n, const Inst &in) {
  u64 p = E.conc(a[1]), k = E.conc(a[2]); if (k && M.hasSym(p, k)) { E.markSym(); r[0] = Engine::S(0x5ec0de); return; }
  u32 c = ~0u; for (u64 i = 0; i < k; i++) { c ^= (u32)*(u8*)(p + i) << 24; for (int j = 0; j < 8; j++) c = c & 0x80000000u ? c << 1 ^ 0x04c11db7u : c << 1; } r[0] = Engine::S((u32)~c);
}
static void hashOneH(Engine &E, Slot *r, Slot *a, int n, const Inst &in) { r[0] = Engine::S(0); }
static Handler hashModel(const std::string &d) {
  if (d.find("sha2::sha256::compress256::") == 0) return shaCompressH;
  if (d.find("<impl crc::Crc<u32>>::checksum::") != std::string::npos) return crcH;
  if (d.find("core::hash::BuildHasher::hash_one::") == 0) return hashOneH;
  return nullptr;
}
