// P17 WBGCM-EE, P18 WBGCM-Mask
#include "gcm_common.h"
static void p17(Tape &t) {
  EE *e = draw_ee(t);
  size_t nctx = 1 + t.below(3);
  std::vector<std::unique_ptr<EEDev>> ds; std::vector<GcmDev *> dv;
  for (size_t i = 0; i < nctx; i++) { ds.emplace_back(new EEDev(e)); dv.push_back(ds.back().get()); }
  t.describe(fmt("key=%s contexts=%zu", hex(e->rawkey).c_str(), nctx));
  for (int iv = 0; iv < 2; iv++) if (!asan_build() && t.once(iv, 2)) huge_field(t, *e->ref, identity_mask(), *ds[0], iv == 1);
  gcm_history(t, *e->ref, identity_mask(), dv, 1 + t.below(5), 500);
}
PROPERTY("P17", "WBGCM-EE", p17, "at least one message of the history was completed and its tag compared with AES-GCM", 1500, 150);

// The mask of a table set, learnt from the library's own ciphertexts of known key stream:
// position by position it has to be one fixed bijection on bytes.
const MaskTable *learn_mask(Mask *m) {
  static std::map<Mask *, std::pair<uint64_t, std::unique_ptr<MaskTable>>> memo;
  auto &e = memo[m];
  if (e.second && e.first == m->id) return e.second.get();
  std::unique_ptr<MaskTable> kp(new MaskTable); MaskTable *k = kp.get(); memset(k, 0, sizeof *k);
  MaskDev d(m, true);
  Bytes iv(12, 0x42); Bytes ks = gcm_keystream(*m->ref, gcm_j0(*m->ref, iv), 16 * 256), in(ks), ct(ks.size());
  for (int v = 0; v < 256; v++) for (int i = 0; i < 16; i++) in[16 * v + i] = (uint8_t)(ks[16 * v + i] ^ v);
  CHECK(d.setiv(iv.data(), 12) == 1 && d.crypt(true, false, in.data(), in.size(), ct.data(), ct.size()) == 1, "mask encrypt");
  bool seen[16][256] = {};
  for (int v = 0; v < 256; v++) for (int i = 0; i < 16; i++) {
    uint8_t c = ct[16 * v + i];
    CHECK(!seen[i][c], "WBGCM-Mask: masked ciphertext byte %d takes the value %02x for two different bytes", i, c);
    seen[i][c] = true; k->fwd[i][v] = c; k->inv[i][c] = (uint8_t)v;
  }
  e.first = m->id; e.second = std::move(kp);
  return k;
}
static void p18(Tape &t) {
  Mask *m = draw_mask(t);
  const MaskTable *k = learn_mask(m);
  size_t nctx = 1 + t.below(4);
  std::vector<std::unique_ptr<MaskDev>> ds; std::vector<GcmDev *> dv;
  for (size_t i = 0; i < nctx; i++) { ds.emplace_back(new MaskDev(m, !t.coin())); dv.push_back(ds.back().get()); }
  t.describe(fmt("key=%s contexts=%zu", hex(m->rawkey).c_str(), nctx));
  gcm_history(t, *m->ref, k, dv, 1 + t.below(5), 500);
  for (int iv = 0; iv < 2; iv++) if (!asan_build() && t.once(iv, 2)) { MaskDev g(m, true); huge_field(t, *m->ref, k, g, iv == 1); }
  // a sender's and a receiver's context, end to end
  MaskDev e(m, true), d(m, false);
  Bytes iv = draw_iv(t, *m->ref), aad = draw_aad(t), p = t.bytes(t.length(300)), c(p.size()), q(p.size()), t1(16), t2(16);
  e.setiv(iv.data(), iv.size()); if (!aad.empty()) e.aad(aad.data(), aad.size());
  CHECK(e.crypt(true, false, p.data(), p.size(), c.data(), c.size()) == 1, "encrypt"); e.finish(t1.data(), 16);
  d.setiv(iv.data(), iv.size()); if (!aad.empty()) d.aad(aad.data(), aad.size());
  CHECK(d.crypt(false, false, c.data(), c.size(), q.data(), q.size()) == 1, "decrypt"); d.finish(t2.data(), 16);
  CHECK_EQ_BYTES(q, p, "WBGCM-Mask round trip");
  CHECK_EQ_BYTES(t2, t1, fmt("WBGCM-Mask: the receiver's tag differs from the sender's (%zu bytes aad, %zu bytes text)", aad.size(), p.size()));
}
PROPERTY("P18", "WBGCM-Mask", p18, "at least one message of the history was completed and its tag compared", 1000, 100);
