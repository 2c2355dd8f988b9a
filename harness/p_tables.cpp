// P07 table randomisation: the only file that looks at the (public) table fields of the contexts
#include "lib.h"
#include <map>

// ---------------------------------------------------------------- P07
struct TableSet { std::vector<std::pair<std::string, Bytes>> v;
  void add(const std::string &n, const void *p, size_t len) { v.emplace_back(n, Bytes((const uint8_t *)p, (const uint8_t *)p + len)); } };
static TableSet tables_wbaes(const Bytes &key) {
  auto *c = WBCRYPTO_wbaes_context_init(); Buf kb(key); CHECK(WBCRYPTO_wbaes_gen_table(c, kb.p(), key.size()) == 1, "gen");
  TableSet s;
  for (int i = 0; i < 10; i++) for (int j = 0; j < 16; j++) s.add(fmt("TypeII[%d][%d]", i, j), c->TypeII[i][j], sizeof c->TypeII[i][j]);
  for (int i = 0; i < 9; i++) for (int j = 0; j < 16; j++) s.add(fmt("TypeIII[%d][%d]", i, j), c->TypeIII[i][j], sizeof c->TypeIII[i][j]);
  for (int i = 0; i < 9; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 8; l++) {
    s.add(fmt("TypeIV_II[%d][%d][%d][%d]", i, j, k, l), c->TypeIV_II[i][j][k][l], 256);
    s.add(fmt("TypeIV_III[%d][%d][%d][%d]", i, j, k, l), c->TypeIV_III[i][j][k][l], 256); }
  for (int i = 0; i < 16; i++) { s.add(fmt("TypeIa[%d]", i), c->TypeIa[i], 256); s.add(fmt("TypeIb[%d]", i), c->TypeIb[i], 256); }
  free(c); return s;
}
static TableSet tables_ee(const Bytes &key) {
  auto *c = (WBCRYPTO_wbaes_wbgcm_ee_context *)calloc(1, sizeof(WBCRYPTO_wbaes_wbgcm_ee_context)); Buf kb(key); WBCRYPTO_wbaes_wbgcm_ee_gen_table(c, kb.p(), key.size());
  TableSet s;
  for (int i = 0; i < 10; i++) for (int j = 0; j < 16; j++) s.add(fmt("TypeII[%d][%d]", i, j), c->TypeII[i][j], sizeof c->TypeII[i][j]);
  for (int i = 0; i < 9; i++) for (int j = 0; j < 16; j++) s.add(fmt("TypeIII[%d][%d]", i, j), c->TypeIII[i][j], sizeof c->TypeIII[i][j]);
  for (int i = 0; i < 9; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 8; l++) {
    s.add(fmt("TypeIV_II[%d][%d][%d][%d]", i, j, k, l), c->TypeIV_II[i][j][k][l], 256);
    s.add(fmt("TypeIV_III[%d][%d][%d][%d]", i, j, k, l), c->TypeIV_III[i][j][k][l], 256); }
  for (int i = 0; i < 16; i++) { s.add(fmt("TypeIa[%d]", i), c->TypeIa[i], 256); s.add(fmt("GBOX_TypeI[%d]", i), c->GBOX_TypeI[i], 256); s.add(fmt("GBOX_TypeIII[%d]", i), c->GBOX_TypeIII[i], 65536); }
  free(c); return s;
}
static TableSet tables_mask(const Bytes &key) {
  auto *e = WBCRYPTO_wbaes_wbgcm_mask_init_table(), *d = WBCRYPTO_wbaes_wbgcm_mask_init_table(); Buf kb(key);
  WBCRYPTO_wbaes_wbgcm_mask_gen_table(e, d, kb.p(), key.size());
  TableSet s;
  for (int m = 0; m < 2; m++) { auto *c = m ? d : e; const char *n = m ? "dec" : "enc";
    for (int i = 0; i < 10; i++) for (int j = 0; j < 16; j++) s.add(fmt("%s TypeII[%d][%d]", n, i, j), c->TypeII[i][j], sizeof c->TypeII[i][j]);
    for (int i = 0; i < 9; i++) for (int j = 0; j < 16; j++) s.add(fmt("%s TypeIII[%d][%d]", n, i, j), c->TypeIII[i][j], sizeof c->TypeIII[i][j]);
    for (int i = 0; i < 9; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 8; l++) {
      s.add(fmt("%s TypeIV_II[%d][%d][%d][%d]", n, i, j, k, l), c->TypeIV_II[i][j][k][l], 256);
      s.add(fmt("%s TypeIV_III[%d][%d][%d][%d]", n, i, j, k, l), c->TypeIV_III[i][j][k][l], 256); }
    for (int i = 0; i < 16; i++) {
      s.add(fmt("%s TypeIa[%d]", n, i), c->TypeIa[i], 256); s.add(fmt("%s GBOX_TypeI[%d]", n, i), c->GBOX_TypeI[i], 256); s.add(fmt("%s GBOX_TypeII[%d]", n, i), c->GBOX_TypeII[i], 256);
      s.add(fmt("%s L1[%d]", n, i), &c->L1[i], sizeof c->L1[i]);
      Bytes b; for (int x = 0; x < 256; x++) b.insert(b.end(), c->GBOX_TypeIII[i][x], c->GBOX_TypeIII[i][x] + 256);
      s.add(fmt("%s GBOX_TypeIII[%d]", n, i), b.data(), b.size()); } }
  drop(e); drop(d);
  return s;
}
static TableSet tables_wbsm4(const Bytes &key, bool enc) {
  auto *c = WBCRYPTO_wbsm4_context_init(enc ? 1 : 0, 0); Buf kb(key); CHECK(WBCRYPTO_wbsm4_gen_table(c, kb.p(), key.size()) == 1, "gen");
  TableSet s;
  for (int i = 0; i < 32; i++) for (int j = 0; j < 4; j++) {
    for (int k = 0; k < 3; k++) s.add(fmt("MM[%d][%d][%d]", i, k, j), c->MM[i][k][j], 1024);
    s.add(fmt("CC[%d][%d]", i, j), c->CC[i][j], 1024); s.add(fmt("DD[%d][%d]", i, j), c->DD[i][j], 1024); s.add(fmt("Table[%d][%d]", i, j), c->Table[i][j], 1024); }
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { s.add(fmt("SE[%d][%d]", i, j), c->SE[i][j], 1024); s.add(fmt("FE[%d][%d]", i, j), c->FE[i][j], 1024); }
  drop(c);
  return s;
}
static TableSet tables_se(const Bytes &key, bool enc) {
  auto *c = WBCRYPTO_se_wbsm4_context_init(enc ? 1 : 0); Buf kb(key); CHECK(WBCRYPTO_se_wbsm4_gen_table(c, kb.p(), key.size()) == 1, "gen");
  TableSet s;
  for (int i = 0; i < 32; i++) { for (int k = 0; k < 3; k++) s.add(fmt("M[%d][%d]", i, k), &c->M[i][k], sizeof(Aff32)); s.add(fmt("C[%d]", i), &c->C[i], sizeof(Aff32)); s.add(fmt("D[%d]", i), &c->D[i], sizeof(Aff32)); }
  for (int i = 0; i < 4; i++) { s.add(fmt("SE[%d]", i), &c->SE[i], sizeof(Aff32)); s.add(fmt("FE[%d]", i), &c->FE[i], sizeof(Aff32)); }
  free(c); return s;
}
static void p07(Tape &t) {
  unsigned fam = (unsigned)t.below(5); bool enc = !t.coin();
  static const char *nm[] = {"wbaes", "wbsm4", "se-wbsm4", "wbgcm-ee", "wbgcm-mask"};
  Bytes key = draw_key(t);
  auto gen = [&]() { switch (fam) { case 0: return tables_wbaes(key); case 1: return tables_wbsm4(key, enc); case 2: return tables_se(key, enc); case 3: return tables_ee(key); default: return tables_mask(key); } };
  uint32_t t1 = (uint32_t)t.u64(), dt = 1 + (uint32_t)(t.coin() ? t.below(100) : t.below(1u << 31)), t2 = t1 + dt;
  t.label(nm[fam]); t.describe(fmt("%s key=%s generated at times %u and %u", nm[fam], hex(key).c_str(), t1, t2));
  // each generation as in a process of its own: only the clock differs
  set_time(t1, 0); SetRandSeed(0);
  TableSet a = gen();
  set_time(t2, 0); SetRandSeed(0);
  TableSet b = gen();
  CHECK(a.v.size() == b.v.size(), "shape");
  size_t same = 0; std::string ex;
  for (size_t i = 0; i < a.v.size(); i++) if (a.v[i].second == b.v[i].second) { same++; if (ex.size() < 100) ex += a.v[i].first + " "; }
  CHECK(same == 0, "%s: %zu of %zu tables generated for key %s at time %u are identical to those generated at time %u: %s", nm[fam], same, a.v.size(), hex(key).c_str(), t1, t2, ex.c_str());
  // no table is repeated within one generation
  std::map<Bytes, std::string> seen;
  for (auto &x : a.v) { if (x.first.compare(0, 3, "dec") == 0) continue; auto ins = seen.emplace(x.second, x.first); CHECK(ins.second, "%s: tables %s and %s of one generation are identical", nm[fam], ins.first->second.c_str(), x.first.c_str()); }
}
PROPERTY("P07", "white-box table randomisation", p07, "every case generates two complete table sets for one key at different times and compares each sub-table", 100, 8);

