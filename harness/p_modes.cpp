// P08 CBC, P09 output capacity, P10 GCM conformance, P11 GCM histories,
// P12 parallel GCM, P13 tamper evidence, P32 independence of concurrent operations
#include "gcm_common.h"
#include <atomic>
#include <thread>
#include <algorithm>
#include <sched.h>
#include <unistd.h>
#include <sys/mman.h>
#include <openssl/evp.h>

// a message of more than 2^31 bytes in one call (thorough tier; the lengths no longer fit an int)
struct Region {
  uint8_t *p; size_t n;
  explicit Region(size_t k) : n(k) { p = (uint8_t *)mmap(0, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == (uint8_t *)MAP_FAILED) discard(); }
  ~Region() { munmap(p, n); }
};
static void pattern(uint8_t *p, size_t n, uint64_t seed) { for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = (i + seed) * 0x9e3779b97f4a7c15ull; memcpy(p + i, &v, 8); } for (size_t i = n & ~(size_t)7; i < n; i++) p[i] = (uint8_t)i; }
static void one_call(Tape &t, bool cbc) {
  size_t n = (1ull << 31) + t.pick<size_t>({0, 5, 16, 4096 + 11});
  Bytes key = t.bytes(16), iv = t.bytes(cbc ? 16 : 12), tag(16), want(16);
  uint64_t seed = t.u64();
  CipherP c = make_cipher(K_AES, key, 1);
  Region in(n + 16), ref(n + 16);
  pattern(in.p, n, seed);
  size_t total = cbc ? (n + 15) / 16 * 16 : n, use = 0;
  EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); int l;
  EVP_EncryptInit_ex(e, cbc ? EVP_aes_128_cbc() : EVP_aes_128_gcm(), NULL, key.data(), iv.data());
  EVP_CIPHER_CTX_set_padding(e, 0);
  memcpy(ref.p, in.p, n); memset(ref.p + n, (int)(total - n), total - n);
  for (size_t i = 0; i < total; i += 1 << 24) EVP_EncryptUpdate(e, ref.p + i, &l, ref.p + i, (int)std::min<size_t>(1 << 24, total - i));
  EVP_EncryptFinal_ex(e, want.data(), &l);
  if (!cbc) EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, want.data());
  EVP_CIPHER_CTX_free(e);
  t.label("one call of more than 2^31 bytes");
  if (cbc) {
    Bytes v = iv;
    CHECK(c->cbc_enc(in.p, n, in.p, n + 16, &use, v.data()) == 1 && use == total, "cbc encrypt of %zu bytes in one call reports %zu bytes, want %zu", n, use, total);
    CHECK(memcmp(in.p, ref.p, total) == 0, "cbc encrypt of %zu bytes in one call differs from OpenSSL", n);
    v = iv;
    CHECK(c->cbc_dec(in.p, total, in.p, total, &use, v.data()) == 1, "cbc decrypt of %zu bytes failed", total);
    pattern(ref.p, n, seed);
    CHECK(memcmp(in.p, ref.p, n) == 0, "cbc decrypt of %zu bytes in one call does not return the message", total);
  } else {
    PlainDev d(*c);
    for (int dir = 0; dir < 2; dir++) {
      CHECK(d.setiv(iv.data(), 12) == 1 && d.crypt(dir == 0, false, in.p, n, in.p, n) == 1 && d.finish(tag.data(), 16) == 1, "gcm of %zu bytes in one call failed", n);
      if (dir) pattern(ref.p, n, seed);
      CHECK(memcmp(in.p, ref.p, n) == 0, "gcm %s of %zu bytes in one call: wrong output", dir ? "decrypt" : "encrypt", n);
      CHECK_EQ_BYTES(tag, want, fmt("gcm tag of %zu bytes in one call", n));
    }
  }
}

// now and then a long message: up to 4 MB with a plain cipher in the optimised build
static size_t big_len(Tape &t, const Cipher &c, unsigned one_in, size_t usual) {
  bool plain = c.kind <= K_SM4, now = false;
  for (int w = 0; w < 5; w++) for (int i = 0; i < 3; i++) now |= !asan_build() && t.once(w, 10 + 7 * i);
  if (!now && !t.chance(1, one_in)) return usual;
  size_t n = t.log_length(now ? 15 : 11, asan_build() ? 13 : plain ? 21 : 16);
  t.label(n >= 1 << 20 ? "message of 1 MB and more" : n >= 1 << 16 ? "message of 64 kB and more" : "message of 2 kB and more");
  return n;
}
// ---------------------------------------------------------------- P08
static void p08(Tape &t) {
  if (thorough() && !asan_build() && t.once(0, 3)) one_call(t, true);
  CipherP c = t.chance(1, 8) ? draw_user(t, true) : draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4});
  Bytes iv = t.bytes(16), m = t.bytes(big_len(t, *c, 150, t.length(700)));
  if (t.coin() && !m.empty()) m.back() = (uint8_t)t.below(20);   // last byte looks like padding
  Bytes padded = pkcs7_merge(m), want = cbc_encrypt_raw(*c->ref, iv, padded);
  size_t extra = t.chance(1, 2) ? t.below(50) : 0, mis = t.chance(1, 4) ? t.below(8) : 0;
  t.describe(fmt("%s len=%zu iv=%s", c->desc().c_str(), m.size(), hex(iv).c_str()));
  t.nontrivial(m.size() > 0);
  t.label(m.size() % 16 ? "partial last block" : "whole blocks");
  size_t use = 0x5555;
  {
    Buf ib(m, mis), vb(iv), ob(want.size() + extra, 0x3c, mis);
    int r = c->cbc_enc(ib.p(), m.size(), ob.p(), want.size() + extra, &use, vb.p());
    CHECK(r == 1, "cbc encrypt of %zu bytes returned %d", m.size(), r);
    CHECK(use == want.size(), "cbc encrypt of %zu bytes reports %zu output bytes, want %zu", m.size(), use, want.size());
    CHECK_EQ_BYTES(ob.get(use), want, fmt("cbc ciphertext of %zu bytes under %s iv %s", m.size(), c->desc().c_str(), hex(iv).c_str()));
    Bytes all = ob.get(); for (size_t i = use; i < all.size(); i++) CHECK(all[i] == 0x3c, "cbc encrypt wrote past its reported output");
    CHECK_EQ_BYTES(ib.get(), m, "cbc encrypt modified its input");
    CHECK_EQ_BYTES(vb.get(), iv, "cbc encrypt modified the initialisation vector");
    ib.check("cbc in"); ob.check("cbc out"); vb.check("cbc iv");
  }
  if (c->kind == K_WBAES) return;
  Bytes ct = want; bool foreign = t.chance(1, 5);
  if (foreign) { ct = t.bytes(16 * t.below(20)); t.label("decrypt arbitrary blocks"); }
  // what the blocks decrypt to
  Bytes pt(ct.size()); if (!ct.empty()) c->ref->dec(ct.data(), pt.data(), ct.size() / 16);
  for (size_t i = 0; i < pt.size(); i++) pt[i] ^= i < 16 ? iv[i] : ct[i - 16];
  bool inplace = t.coin();
  Buf ib(ct, mis), vb(iv), ob(ct.size() + extra, 0x3c, mis);
  uint8_t *out = inplace ? ib.p() : ob.p();
  use = 0x5555;
  int r = c->cbc_dec(ib.p(), ct.size(), out, inplace ? ct.size() : ct.size() + extra, &use, vb.p());
  CHECK(r == 1, "cbc decrypt of %zu bytes returned %d", ct.size(), r);
  ib.check("cbc in"); ob.check("cbc out"); vb.check("cbc iv");
  CHECK_EQ_BYTES(Bytes(out, out + ct.size()), pt, fmt("cbc plaintext of %zu bytes%s", ct.size(), inplace ? " in place" : ""));
  if (!inplace) {
    CHECK_EQ_BYTES(ib.get(), ct, "cbc decrypt modified its input");
    Bytes all = ob.get(); for (size_t i = ct.size(); i < all.size(); i++) CHECK(all[i] == 0x3c, "cbc decrypt wrote past the message");
  }
  if (!foreign) {
    if (use != m.size()) {
      size_t p = m.empty() ? 0 : m.back();
      if (m.size() % 16 == 0 && p >= 1 && p <= 16 && use == m.size() - p)
        known("CBC-ALIGNED", "CBC decrypt reports %zu instead of %zu bytes when a message of whole blocks ends in a byte 1..16 (no padding block is added)", use, m.size());
      else
        fail("cbc round trip: %zu bytes in, %zu bytes out (last byte %zu)", m.size(), use, p);
    }
  } else CHECK(use <= ct.size(), "cbc decrypt reports %zu bytes out of %zu", use, ct.size());
  if (ct.size() >= 32 && t.chance(1, 3)) {   // the same blocks in several calls that share the initialisation vector
    t.label("decrypt in pieces");
    Buf ib2(ct, mis), vb2(iv), ob2(ct.size(), 0x3c, mis); size_t at = 0; std::string cuts;
    while (at < ct.size()) {
      size_t left = (ct.size() - at) / 16, n = 16 * (t.coin() ? 1 : t.below(left + 1)); bool same = t.coin(); size_t u = 0;
      cuts += fmt(" %zu%s", n, same ? " in place" : "");
      CHECK(c->cbc_dec(ib2.p() + at, n, same ? ib2.p() + at : ob2.p() + at, n, &u, vb2.p()) == 1, "cbc decrypt of a piece");
      if (same) memcpy(ob2.p() + at, ib2.p() + at, n);
      at += n;
    }
    ob2.check("cbc out"); vb2.check("cbc iv");
    CHECK_EQ_BYTES(ob2.get(), pt, fmt("cbc plaintext of %zu bytes decrypted in pieces of%s bytes", ct.size(), cuts.c_str()));
  }
}
PROPERTY("P08", "CBC mode", p08, "the message is not empty", 5000, 500, false, 120);

// ---------------------------------------------------------------- P09
static void p09(Tape &t) {
  unsigned fam = (unsigned)t.below(6);
  static const char *nm[] = {"cbc encrypt", "cbc decrypt", "gcm", "parallel gcm", "wbgcm-ee", "wbgcm-mask"};
  size_t n = 1 + t.length(300); bool enc = t.coin();
  Bytes in = t.bytes(n), iv = t.bytes(16);
  size_t cap, need; int r = -1, r2 = -1;
  t.label(nm[fam]);
  if (fam < 2) {
    CipherP c = fam == 0 ? draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4}) : draw_cipher(t, {K_AES, K_SM4, K_WBSM4});
    if (fam == 1) { n = (n + 15) / 16 * 16; in.resize(n); }
    need = (n + 15) / 16 * 16;
    cap = t.coin() ? t.below(need) : (t.coin() ? need - 1 : need - 1 - t.below(std::min<size_t>(16, need)));
    Buf ib(in), ob(cap, 0x3c), vb(iv); size_t use = 0;
    r = fam == 0 ? c->cbc_enc(ib.p(), n, ob.p(), cap, &use, vb.p()) : c->cbc_dec(ib.p(), n, ob.p(), cap, &use, vb.p());
    ob.check(nm[fam]); ib.check(nm[fam]);
    CHECK(r == 0, "%s (%s) of %zu bytes into %zu bytes of space returned %d", nm[fam], kind_name[c->kind], n, cap, r);
    for (uint8_t b : ob.get()) CHECK(b == 0x3c, "%s that was refused for lack of space wrote into the output", nm[fam]);
    // with enough space the same call succeeds
    Buf o2(need, 0x3c), v2(iv); Buf i2(in);
    r2 = fam == 0 ? c->cbc_enc(i2.p(), n, o2.p(), need, &use, v2.p()) : c->cbc_dec(i2.p(), n, o2.p(), need, &use, v2.p());
    o2.check(nm[fam]);
    CHECK(r2 == 1, "%s of %zu bytes into %zu bytes of space returned %d", nm[fam], n, need, r2);
  } else {
    std::unique_ptr<GcmDev> d; CipherP c;
    if (fam <= 3) { c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4}); d.reset(new PlainDev(*c)); }
    else if (fam == 4) d.reset(new EEDev(draw_ee(t)));
    else d.reset(new MaskDev(draw_mask(t), enc));
    Buf vb(iv); CHECK(d->setiv(vb.p(), 12) == 1, "setiv");
    need = n; cap = t.coin() ? n - 1 : t.below(n);
    Buf ib(in), ob(cap, 0x3c);
    r = d->crypt(enc, fam == 3, ib.p(), n, ob.p(), cap);
    ob.check(nm[fam]);
    CHECK(r == 0, "%s %s of %zu bytes into %zu bytes of space returned %d", nm[fam], enc ? "encrypt" : "decrypt", n, cap, r);
    for (uint8_t b : ob.get()) CHECK(b == 0x3c, "%s that was refused for lack of space wrote into the output", nm[fam]);
    Buf o2(n, 0x3c);
    r2 = d->crypt(enc, fam == 3, ib.p(), n, o2.p(), n);
    o2.check(nm[fam]);
    CHECK(r2 == 1, "%s of %zu bytes into %zu bytes of space returned %d", nm[fam], n, n, r2);
  }
  t.describe(fmt("%s n=%zu capacity=%zu need=%zu", nm[fam], n, cap, need));
}
PROPERTY("P09", "output capacity", p09, "every case offers less output space than the operation needs", 2000, 100);

// ---------------------------------------------------------------- P10
static void evp_gcm_stream(const Bytes &key, const Bytes &iv, const uint8_t *aad, size_t aadlen, const Bytes &chunk, size_t reps, Bytes &last, Bytes &tag) {
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l;
  EVP_EncryptInit_ex(c, EVP_aes_128_gcm(), NULL, NULL, NULL);
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), NULL);
  EVP_EncryptInit_ex(c, NULL, NULL, key.data(), iv.data());
  if (aadlen) EVP_EncryptUpdate(c, NULL, &l, aad, (int)aadlen);
  last.assign(chunk.size(), 0);
  for (size_t i = 0; i < reps; i++) EVP_EncryptUpdate(c, last.data(), &l, chunk.data(), (int)chunk.size());
  Bytes d(16); EVP_EncryptFinal_ex(c, d.data(), &l);
  tag.assign(16, 0); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag.data());
  EVP_CIPHER_CTX_free(c);
}
static void huge_gcm(Tape &t, bool aad) {
  Bytes key = t.bytes(16), iv = t.bytes(12);
  CipherP c = make_cipher(K_AES, key, 1); PlainDev d(*c);
  Bytes chunk = t.bytes(1 << 20), last, tag, got(chunk.size()), gt(16);
  size_t reps = aad ? 1 : 513, an = aad ? (1ull << 29) + 16 : 0;
  uint8_t *ap = nullptr;
  if (aad) {
    ap = (uint8_t *)mmap(0, an, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (ap == MAP_FAILED) { t.label("huge skipped"); return; }
  }
  d.setiv(iv.data(), 12);
  if (aad) d.aad(ap, an);
  for (size_t i = 0; i < reps; i++) CHECK(d.crypt(true, false, chunk.data(), chunk.size(), got.data(), got.size()) == 1, "encrypt");
  d.finish(gt.data(), 16);
  evp_gcm_stream(key, iv, ap, an, chunk, reps, last, tag);
  if (ap) munmap(ap, an);
  t.label(aad ? "aad longer than 2^32 bits" : "message longer than 2^32 bits");
  CHECK(got == last, "ciphertext of a message of %zu MiB differs from OpenSSL's", reps);
  CHECK_EQ_BYTES(gt, tag, fmt("tag of %zu MiB of message and %zu bytes of aad", reps, an));
}
static void p10(Tape &t) {
  CipherP c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4, K_USER});
  std::unique_ptr<PlainDev> d(t.chance(1, 4) ? new PlainDev(WBCRYPTO_gcm_init(c->ctx, c->block())) : new PlainDev(*c));
  CHECK(d->g, "gcm init");
  Bytes iv = draw_iv(t, *c->ref), aad = draw_aad(t), m = t.bytes(big_len(t, *c, 300, t.length(thorough() ? 4000 : 1200))), ct, tag;
  model_encrypt(*c->ref, identity_mask(), iv, aad, m, ct, tag);
  if (c->ref->kind == REF_AES && !c->ref->twisted() && iv.size() <= 128) { Bytes c2, t2; evp_aes_gcm(c->ref->key, iv, aad, m, c2, t2); if (c2 != ct || t2 != tag) { fprintf(stderr, "the two references disagree\n"); abort(); } }
  t.describe(fmt("%s iv=%s aad=%zu len=%zu", c->desc().c_str(), hex(iv, 24).c_str(), aad.size(), m.size()));
  t.label(m.empty() ? "empty message" : m.size() % 16 ? "partial" : "whole");
  t.nontrivial(m.size() + aad.size() > 0);
  size_t mis = t.chance(1, 4) ? t.below(8) : 0;
  for (int dir = 0; dir < 2; dir++) {
    bool enc = dir == 0, inplace = t.coin();
    const Bytes &in = enc ? m : ct, &want = enc ? ct : m;
    Buf vb(iv, mis), ab(aad, mis), ib(in, mis), ob(in.size(), 0x3c, mis), tb(16, 0x77, mis);
    CHECK(d->setiv(vb.p(), iv.size()) == 1, "setiv");
    if (!aad.empty()) CHECK(d->aad(ab.p(), aad.size()) == 1, "aad");
    CHECK(d->crypt(enc, false, ib.p(), in.size(), inplace ? ib.p() : ob.p(), in.size()) == 1, "crypt");
    CHECK(d->finish(tb.p(), 16) == 1, "finish");
    ib.check("gcm in"); ob.check("gcm out"); tb.check("gcm tag");
    Bytes got = inplace ? ib.get() : ob.get();
    if (got != want) fail("%s gcm %s of %zu bytes, iv %s: got %s, standard says %s", kind_name[c->kind], enc ? "encrypt" : "decrypt", in.size(), hex(iv).c_str(), hex(got, 80).c_str(), hex(want, 80).c_str());
    if (tb.get() != tag) fail("%s gcm %s tag for iv %s, %zu bytes aad, %zu bytes text: got %s, standard says %s", kind_name[c->kind], enc ? "encrypt" : "decrypt", hex(iv).c_str(), aad.size(), in.size(), hex(tb.get()).c_str(), hex(tag).c_str());
  }
  if (thorough() && !asan_build() && t.once(2, 1)) one_call(t, false);
  if (!asan_build() && t.once(0, 1)) huge_gcm(t, false);
  if (!asan_build() && t.once(1, 1)) huge_gcm(t, true);
  if (!asan_build() && t.once(3, 1)) { CipherP x = make_cipher(t.coin() ? K_SM4 : K_AES, t.bytes(16), 1); PlainDev g(*x); huge_field(t, *x->ref, identity_mask(), g, true); }
}
PROPERTY("P10", "GCM conformance", p10, "message or associated data is not empty", 3000, 300, false, 120);

// ---------------------------------------------------------------- P11
static void p11(Tape &t) {
  CipherP c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4, K_USER});
  size_t nctx = 1 + t.below(3);
  std::vector<std::unique_ptr<PlainDev>> ds; std::vector<GcmDev *> dv;
  for (size_t i = 0; i < nctx; i++) { ds.emplace_back(new PlainDev(*c)); dv.push_back(ds.back().get()); }
  t.describe(c->desc() + fmt(" contexts=%zu", nctx));
  gcm_history(t, *c->ref, identity_mask(), dv, 1 + t.below(6), 500);
}
PROPERTY("P11", "GCM histories", p11, "at least one message of the history was completed and its tag compared", 800, 100, true);

// ---------------------------------------------------------------- P12
struct Sched {
  WBCRYPTO_aes_context *aes; uint64_t plan; int width;
  std::atomic<int> inside{0}, maxin{0}; std::atomic<uint64_t> calls{0}, gen{0}, arrived{0};
};
// block cipher that aligns the worker threads before and after its work, as the plan says
static int sched_block(const unsigned char *in, unsigned char *out, const void *key) {
  Sched *s = (Sched *)key;
  unsigned char tmp[16];
  s->calls++;
  uint32_t ctr = (uint32_t)in[12] << 24 | in[13] << 16 | in[14] << 8 | in[15];
  Rng r(s->plan ^ ctr * 0x9e3779b97f4a7c15ull);
  uint64_t z = r.next();
  int now = ++s->inside; int m = s->maxin; while (now > m && !s->maxin.compare_exchange_weak(m, now)) {}
  WBCRYPTO_aes_encrypt(in, tmp, s->aes);
  auto meet = [&](int spins) {   // wait until the others are here, or for a while
    uint64_t g = s->gen.load();
    if ((int)s->arrived.fetch_add(1) + 1 >= s->width) { s->arrived = 0; s->gen++; return; }
    for (int i = 0; i < spins && s->gen.load() == g; i++) { if (i % 8 == 7) sched_yield(); }
    if (s->gen.load() == g) s->gen++, s->arrived = 0;
  };
  switch (z % 5) {
    case 0: meet(60); break;
    case 1: for (int i = 0; i < (int)(z >> 8) % 6; i++) sched_yield(); break;
    case 2: { volatile int x = 0; for (int i = 0; i < (int)((z >> 8) % 3000); i++) x += i; break; }
    case 3: if ((z >> 8) % 40 == 0) usleep(30); break;
    default: break;
  }
  memcpy(out, tmp, 16);
  if (z >> 60 < 8) meet(60);
  --s->inside;
  return 1;
}
static void p12(Tape &t) {
  Bytes key = t.bytes(16); Ref ref(REF_AES, key);
  CipherP c; Sched s; WBCRYPTO_gcm_context *g; const Ref *r = &ref;
  bool controlled = t.below(4) != 0;
  CipherP aes = make_cipher(K_AES, key, 1);
  s.aes = (WBCRYPTO_aes_context *)aes->ctx; s.plan = t.u64(); s.width = 2 + (int)t.below(3);
  if (controlled) { g = WBCRYPTO_gcm_init(&s, sched_block); CHECK(g, "gcm_init"); }
  else { c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4, K_USER}); g = c->gcm(); r = c->ref.get(); }
  PlainDev d(g);
  int msgs = 1 + (int)t.below(2);
  for (int k = 0; k < msgs; k++) {
    bool enc = !t.coin(), inplace = t.coin(), long_par = !controlled && t.chance(1, 60);
    if (!controlled && k == 0 && !asan_build()) for (int w = 0; w < 3; w++) for (int i = 20; i < 24; i++) long_par |= t.once(w, i);
    if (long_par) t.label("message of 32 kB and more");
    Bytes iv = draw_iv(t, *r), aad = draw_aad(t), in = t.bytes(long_par ? t.log_length(asan_build() ? 13 : 15, asan_build() ? 13 : 18) : t.chance(1, 3) ? t.length(6000) : t.length(900)), want, tag;
    if (enc) model_encrypt(*r, identity_mask(), iv, aad, in, want, tag); else model_decrypt(*r, identity_mask(), iv, aad, in, want, tag);
    Buf vb(iv), ab(aad), ib(in), ob(in.size(), 0x3c), tb(16, 0x77);
    CHECK(d.setiv(vb.p(), iv.size()) == 1, "setiv");
    if (!aad.empty()) d.aad(ab.p(), aad.size());
    size_t cut = t.coin() ? 16 * t.below(in.size() / 16 + 1) : 0;  // an earlier parallel or serial piece
    uint8_t *o = inplace ? ib.p() : ob.p();
    if (cut) CHECK(d.crypt(enc, t.coin(), ib.p(), cut, o, cut) == 1, "crypt");
    Interleave pauses(t);
    CHECK(d.crypt(enc, true, ib.p() + cut, in.size() - cut, o + cut, in.size() - cut) == 1, "parallel crypt returned 0");
    CHECK(d.finish(tb.p(), 16) == 1, "finish");
    ib.check("in"); ob.check("out");
    Bytes got(o, o + in.size());
    if (got != want) { size_t i = 0; while (got[i] == want[i]) i++; fail("parallel gcm %s%s of %zu bytes: byte %zu differs from the serial result (got %s, want %s)", enc ? "encrypt" : "decrypt", inplace ? " in place" : "", in.size(), i, hex(&got[i / 16 * 16], std::min<size_t>(32, got.size() - i / 16 * 16)).c_str(), hex(&want[i / 16 * 16], std::min<size_t>(32, got.size() - i / 16 * 16)).c_str()); }
    CHECK_EQ_BYTES(tb.get(), tag, fmt("tag after parallel %s%s of %zu bytes", enc ? "encrypt" : "decrypt", inplace ? " in place" : "", in.size()));
    t.nontrivial(in.size() > 32);
    t.describe(fmt("%s %s%s len=%zu cut=%zu width=%d concurrent=%d", controlled ? "controlled schedule" : kind_name[c->kind], enc ? "enc" : "dec", inplace ? " in place" : "", in.size(), cut, s.width, s.maxin.load()));
  }
  if (controlled) t.label(fmt("up to %d block calls at once", s.maxin.load()));
}
PROPERTY("P12", "parallel GCM", p12, "the message has more than two blocks, so several threads share it", 500, 60, true, 90);

// ---------------------------------------------------------------- P13
static void p13(Tape &t) {
  unsigned fam = (unsigned)t.below(8);
  std::unique_ptr<GcmDev> e, d; CipherP c; const char *nm;
  const Ref *r;
  if (fam < 5) { c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4}); e.reset(new PlainDev(*c)); d.reset(new PlainDev(*c)); nm = kind_name[c->kind]; r = c->ref.get(); }
  else if (fam < 7) { EE *x = draw_ee(t); e.reset(new EEDev(x)); d.reset(new EEDev(x)); nm = "wbgcm-ee"; r = x->ref.get(); }
  else { Mask *x = draw_mask(t); e.reset(new MaskDev(x, true)); d.reset(new MaskDev(x, false)); nm = "wbgcm-mask"; r = x->ref.get(); }
  bool par = e->has_par() && t.coin();
  Bytes iv = draw_iv(t, *r), aad = draw_aad(t), m = t.bytes(t.chance(1, asan_build() ? 200 : 60) ? t.log_length(10, asan_build() ? 13 : fam < 5 ? 21 : 18) : t.length(400)), ct(m.size()), tag(16);
  if (m.size() > 1000) t.label(m.size() >= 1 << 18 ? "message of 256 kB and more" : "message of 1 kB and more");
  e->setiv(iv.data(), iv.size()); if (!aad.empty()) e->aad(aad.data(), aad.size());
  CHECK(e->crypt(true, par, m.data(), m.size(), ct.data(), ct.size()) == 1, "encrypt");
  e->finish(tag.data(), 16);
  auto open = [&](const Bytes &iv2, const Bytes &aad2, const Bytes &ct2, Bytes &pt, Bytes &tg) {
    Buf vb(iv2), ab(aad2), ib(ct2), ob(ct2.size()), tb(16);
    d->setiv(vb.p(), iv2.size()); if (!aad2.empty()) d->aad(ab.p(), aad2.size());
    CHECK(d->crypt(false, e->has_par() && t.coin(), ib.p(), ct2.size(), ob.p(), ct2.size()) == 1, "decrypt");
    d->finish(tb.p(), 16); pt = ob.get(); tg = tb.get();
  };
  Bytes pt, tg;
  open(iv, aad, ct, pt, tg);
  CHECK_EQ_BYTES(pt, m, fmt("%s: decryption of the untouched ciphertext", nm));
  CHECK_EQ_BYTES(tg, tag, fmt("%s: tag of the untouched ciphertext", nm));
  int tries = 3;
  for (int k = 0; k < tries; k++) {
    Bytes iv2 = iv, aad2 = aad, ct2 = ct; std::string what;
    switch (t.below(10)) {
      case 0: case 1: if (ct2.empty()) continue; { size_t i = t.below(ct2.size()); ct2[i] ^= (uint8_t)(1 << t.below(8)); what = fmt("bit flipped in ciphertext byte %zu of %zu", i, ct.size()); } break;
      case 2: if (aad2.empty()) continue; { size_t i = t.below(aad2.size()); aad2[i] ^= (uint8_t)(1 << t.below(8)); what = fmt("bit flipped in aad byte %zu of %zu", i, aad.size()); } break;
      case 3: { size_t i = t.below(iv2.size()); iv2[i] ^= (uint8_t)(1 << t.below(8)); what = fmt("bit flipped in iv byte %zu", i); break; }
      case 4: if (ct2.empty()) continue; { size_t n = t.coin() ? ct2.size() - 1 : t.below(ct2.size()); ct2.resize(n); what = fmt("ciphertext cut from %zu to %zu", ct.size(), n); } break;
      case 5: { size_t n = 1 + t.below(20); ct2.resize(ct2.size() + n, 0); what = fmt("%zu zero bytes appended to %zu", n, ct.size()); break; }
      case 6: { size_t n = 1 + t.below(20); aad2.resize(aad2.size() + n, 0); what = fmt("%zu zero bytes appended to the aad", n); break; }
      case 7: if (ct2.size() < 32) continue; { size_t i = t.below(ct2.size() / 16), j = t.below(ct2.size() / 16); std::swap_ranges(ct2.begin() + 16 * i, ct2.begin() + 16 * i + 16, ct2.begin() + 16 * j); what = fmt("blocks %zu and %zu swapped", i, j); } break;
      case 8: if (aad2.empty()) continue; { size_t n = 1 + t.below(std::min<size_t>(16, aad2.size())); if (aad2.size() >= 16) n = 16; ct2.insert(ct2.begin(), aad2.end() - n, aad2.end()); aad2.resize(aad2.size() - n); what = fmt("%zu bytes moved from aad to ciphertext", n); } break;
      default: if (aad2.empty()) continue; { aad2.resize(t.below(aad2.size())); what = fmt("aad cut from %zu to %zu", aad.size(), aad2.size()); }
    }
    if (iv2 == iv && aad2 == aad && ct2 == ct) continue;
    open(iv2, aad2, ct2, pt, tg);
    t.label(what.substr(0, what.find_first_of("0123456789", 1)));
    CHECK(tg != tag, "%s%s: %s goes unnoticed: the tag is still %s", nm, par ? " (parallel)" : "", what.c_str(), hex(tag).c_str());
    t.describe(fmt("%s aad=%zu len=%zu: %s", nm, aad.size(), ct.size(), what.c_str()));
  }
  t.nontrivial(m.size() + aad.size() > 0);
}
PROPERTY("P13", "GCM tamper evidence", p13, "message or associated data is not empty; each case alters the sealed message up to three times", 800, 40, true);

// ---------------------------------------------------------------- P32
void p32_shared(Tape &t) {
  // several threads use one keyed context (and per-thread mode contexts) at the same time
  unsigned fam = (unsigned)t.below(6);   // block, gcm, fpe, ee, mask, sm3
  static const char *nm[] = {"block", "gcm", "fpe", "wbgcm-ee", "wbgcm-mask", "sm3"};
  t.label(nm[fam]);
  int nt = 2 + (int)t.below(3);
  CipherP c; EE *ee = nullptr; Mask *mk = nullptr; const Ref *r = nullptr;
  if (fam < 3) { c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4}); r = c->ref.get(); }
  if (fam == 3) { ee = draw_ee(t); r = ee->ref.get(); }
  if (fam == 4) { mk = draw_mask(t); r = mk->ref.get(); }
  struct Job { Bytes in, iv, aad, want, tag, got, gtag; bool enc = true; std::string s, ws, gs; Bytes tw; unsigned radix = 10; bool f1 = true; std::unique_ptr<GcmDev> dev; };
  std::vector<Job> J(nt);
  int reps = 4;
  bool enc0 = t.coin(), f10 = t.coin(), vary = t.chance(1, 3);
  for (auto &j : J) {
    j.enc = vary ? !t.coin() : enc0;
    if (fam == 0) {
      if (c->kind == K_WBAES) j.enc = true;
      j.in = t.bytes(16 * 64); j.want.resize(j.in.size()); j.got.resize(j.in.size());
      if (j.enc) r->enc(j.in.data(), j.want.data(), 64); else r->dec(j.in.data(), j.want.data(), 64);
    } else if (fam == 1 || fam == 3) {
      j.iv = draw_iv(t, *r); j.aad = draw_aad(t); j.in = t.bytes(t.length(600)); j.got.resize(j.in.size());
      if (j.enc) model_encrypt(*r, identity_mask(), j.iv, j.aad, j.in, j.want, j.tag); else model_decrypt(*r, identity_mask(), j.iv, j.aad, j.in, j.want, j.tag);
      if (fam == 1) j.dev.reset(new PlainDev(*c)); else j.dev.reset(new EEDev(ee));
    } else if (fam == 4) {  // result of a lone run is the reference
      j.iv = draw_iv(t, *r); j.aad = draw_aad(t); j.in = t.bytes(t.length(600)); j.got.resize(j.in.size()); j.want.resize(j.in.size()); j.tag.resize(16);
      j.dev.reset(new MaskDev(mk, j.enc));
      j.dev->setiv(j.iv.data(), j.iv.size()); j.dev->aad(j.aad.data(), j.aad.size()); j.dev->crypt(j.enc, false, j.in.data(), j.in.size(), j.want.data(), j.want.size()); j.dev->finish(j.tag.data(), 16);
    } else if (fam == 2) {
      j.radix = 2 + (unsigned)t.below(35); j.f1 = vary ? t.coin() : f10; j.tw = t.bytes(t.below(12));
      size_t n = 6 + t.below(12); Num x; Rng q(t.u64()); for (size_t i = 0; i < n; i++) x.push_back((unsigned)q.below(j.radix));
      j.s = num_to_str(x); j.ws = num_to_str(j.f1 ? ff1(*r, j.radix, j.tw, x, j.enc) : ff3(*r, j.radix, j.tw, x, j.enc));
    } else { j.in = t.bytes(t.length(2000)); j.want = ref_sm3(j.in); j.got.resize(32); }
  }
  // snapshot of the shared context: using it must not change it
  Bytes before;
  auto snap = [&]() {
    Bytes b; auto add = [&](const void *p, size_t n) { b.insert(b.end(), (const uint8_t *)p, (const uint8_t *)p + n); };
    if (c && c->kind == K_AES) add(c->ctx, sizeof(WBCRYPTO_aes_context));
    if (c && c->kind == K_SM4) add(c->ctx, sizeof(WBCRYPTO_sm4_context));
    if (c && c->kind == K_WBAES) add(c->ctx, sizeof(WBCRYPTO_wbaes_context));
    if (ee) add(ee->ctx, sizeof *ee->ctx);
    if (mk) { add(mk->enc, sizeof *mk->enc); add(mk->dec, sizeof *mk->dec); }
    return b;
  };
  before = snap();
  std::atomic<int> ready{0}; std::atomic<bool> bad{false};
  auto work = [&](int id) {
    Job &j = J[id];
    ready++; for (int i = 0; i < 20000 && ready < nt; i++) if (i % 16 == 15) sched_yield();
    for (int k = 0; k < reps && !bad; k++) {
      bool ok = true;
      if (fam == 0) {
        for (size_t i = 0; i < j.in.size(); i += 16) { if (j.enc) c->enc(&j.in[i], &j.got[i]); else c->dec(&j.in[i], &j.got[i]); }
        ok = j.got == j.want;
      } else if (fam == 1 || fam == 3 || fam == 4) {
        j.gtag.assign(16, 0);
        j.dev->setiv(j.iv.data(), j.iv.size()); j.dev->aad(j.aad.data(), j.aad.size());
        j.dev->crypt(j.enc, false, j.in.data(), j.in.size(), j.got.data(), j.got.size()); j.dev->finish(j.gtag.data(), 16);
        ok = j.got == j.want && j.gtag == j.tag;
      } else if (fam == 2) {
        WBCRYPTO_fpe_context *f = c->fpe(j.tw, j.radix); if (!f) { ok = false; } else {
          std::vector<char> in(j.s.begin(), j.s.end()), out(j.s.size() + 1); in.push_back(0);
          if (j.f1) { if (j.enc) WBCRYPTO_ff1_encrypt(f, in.data(), out.data()); else WBCRYPTO_ff1_decrypt(f, in.data(), out.data()); }
          else { if (j.enc) WBCRYPTO_ff3_encrypt(f, in.data(), out.data()); else WBCRYPTO_ff3_decrypt(f, in.data(), out.data()); }
          j.gs = out.data(); ok = j.gs == j.ws; free(f->tweak); free(f); }
      } else { WBCRYPTO_sm3(j.in.data(), j.in.size(), j.got.data()); ok = j.got == j.want; }
      if (!ok) bad = true;
    }
  };
  { Interleave pauses(t);
    std::vector<std::thread> th; for (int i = 0; i < nt; i++) th.emplace_back(work, i);
    for (auto &x : th) x.join(); }
  t.describe(fmt("%s %s threads=%d", nm[fam], c ? c->desc().c_str() : "", nt));
  CHECK(!bad, "%s: %d threads working at the same time on data of their own (shared key context: %s) produced a wrong result", nm[fam], nt, c ? kind_name[c->kind] : nm[fam]);
  CHECK(snap() == before, "%s: encrypting changed the key context", nm[fam]);
}
// registered in p_conc.cpp
