// P01 block ciphers, P02 key material, P04 white-box AES, P05 white-box SM4, P06 SE-WBSM4, P07 table diversity
#include "lib.h"

static const char *dir_name(bool e) { return e ? "encrypt" : "decrypt"; }

// ---------------------------------------------------------------- P01
static void p01(Tape &t) {
  bool aes = t.coin();
  t.label(aes ? "aes" : "sm4");
  WBCRYPTO_aes_context *a = aes ? WBCRYPTO_aes_context_init() : nullptr;
  WBCRYPTO_sm4_context *s = aes ? nullptr : WBCRYPTO_sm4_context_init();
  CHECK(aes ? (void *)a != nullptr : (void *)s != nullptr, "context_init failed");
  struct F { void *p; ~F() { free(p); } } fr{aes ? (void *)a : (void *)s};
  int rekeys = 1 + (int)t.below(3);
  for (int k = 0; k < rekeys; k++) {   // a context may be keyed again; only the last key counts
    Bytes key = draw_key(t);
    Buf kb(key);
    int r = aes ? WBCRYPTO_aes_init_key(a, kb.p(), key.size()) : WBCRYPTO_sm4_init_key(s, kb.p(), key.size());
    CHECK(r == 1, "init_key returned %d", r);
    CHECK_EQ_BYTES(kb.get(), key, "the caller's key was modified");
    Ref ref(aes ? REF_AES : REF_SM4, ref_key(key));
    t.describe(fmt("%s key=%s", aes ? "aes" : "sm4", hex(key).c_str()));
    size_t nops = 1 + t.below(12);
    Bytes prev(16, 0);
    for (size_t i = 0; i < nops; i++) {
      bool enc = !t.coin(), inplace = t.coin(), chain = t.chance(1, 4);
      size_t mis = t.chance(1, 4) ? t.below(8) : 0;
      Bytes in = chain ? prev : t.bytes(16);
      Bytes want(16);
      if (enc) ref.enc(in.data(), want.data()); else ref.dec(in.data(), want.data());
      Buf ib(in, mis), ob(16, 0x77, mis);
      uint8_t *out = inplace ? ib.p() : ob.p();
      if (aes) r = enc ? WBCRYPTO_aes_encrypt(ib.p(), out, a) : WBCRYPTO_aes_decrypt(ib.p(), out, a);
      else r = enc ? WBCRYPTO_sm4_encrypt(ib.p(), out, s) : WBCRYPTO_sm4_decrypt(ib.p(), out, s);
      CHECK(r == 1, "%s returned %d", dir_name(enc), r);
      Bytes got(out, out + 16);
      if (got != want) fail("%s %s of %s under key %s: got %s, standard says %s", aes ? "aes" : "sm4", dir_name(enc), hex(in).c_str(), hex(key).c_str(), hex(got).c_str(), hex(want).c_str());
      if (!inplace) CHECK_EQ_BYTES(ib.get(), in, "input was modified");
      ib.check("block input"); ob.check("block output");
      prev = got;
      t.label(fmt("%s%s", dir_name(enc), inplace ? " in place" : ""));
    }
  }
}
PROPERTY("P01", "block ciphers", p01, "every case keys a context and compares at least one block operation with OpenSSL's cipher", 20000, 2000);

// ---------------------------------------------------------------- P02
static void p02(Tape &t) {
  enum { AES, SM4, APP_AES, APP_SM4, WBAES, WBSM4, SE, EE_, MASK_, APP_WBAES, APP_WBSM4, NK };
  static const char *nm[] = {"aes", "sm4", "app-aes", "app-sm4", "wbaes", "wbsm4", "se-wbsm4", "wbgcm-ee", "wbgcm-mask", "app-wbaes", "app-wbsm4"};
  // cheap interfaces more often than those that generate tables
  int which = t.below(8) < 5 ? (int)t.below(4) : 4 + (int)t.below(7);
  size_t n = t.below(4) == 0 ? (t.chance(1, 3) ? t.log_length(8, 17) : t.below(200)) : t.below(20);
  Bytes key = t.bytes(n), pt = t.bytes(16), want(16);
  t.label(nm[which]); t.label(n < 16 ? "short key" : n == 16 ? "16-byte key" : n < 256 ? "long key" : "key of 256 bytes and more");
  t.nontrivial(n != 16);
  t.describe(fmt("%s keylen=%zu key=%s", nm[which], n, hex(key).c_str()));
  Ref ra(REF_AES, ref_key(key)), rs(REF_SM4, ref_key(key));
  Buf kb(key), ib(pt), ob(16);
  auto expect = [&](const Ref &r) {
    r.enc(pt.data(), want.data());
    if (ob.get() != want) fail("%s with a %zu-byte key %s does not behave as under the 16-byte key %s", nm[which], n, hex(key, 64).c_str(), hex(r.key).c_str());
  };
  switch (which) {
    case AES: case SM4: case WBAES: {
      CipherP c = make_cipher(which == AES ? K_AES : which == SM4 ? K_SM4 : K_WBAES, key, 1);
      c->enc(ib.p(), ob.p()); expect(which == SM4 ? rs : ra);
      if (which != WBAES) { Bytes w(16); (which == AES ? ra : rs).dec(pt.data(), w.data()); c->dec(ib.p(), ob.p()); CHECK_EQ_BYTES(ob.get(), w, fmt("%s decrypt, %zu-byte key", nm[which], n)); }
      break;
    }
    case WBSM4: {
      bool e = t.coin(); int d = draw_dummy(t);
      WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(e ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE, d);
      CHECK(WBCRYPTO_wbsm4_gen_table(c, kb.p(), n) == 1, "gen_table failed");
      if (e) { WBCRYPTO_wbsm4_encrypt(ib.p(), ob.p(), c); expect(rs); }
      else { WBCRYPTO_wbsm4_decrypt(ib.p(), ob.p(), c); rs.dec(pt.data(), want.data()); CHECK_EQ_BYTES(ob.get(), want, fmt("wbsm4 decrypt, %zu-byte key", n)); }
      drop(c);
      break;
    }
    case SE: {
      bool e = t.coin();
      WBCRYPTO_se_wbsm4_context *c = WBCRYPTO_se_wbsm4_context_init(e ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE);
      CHECK(WBCRYPTO_se_wbsm4_gen_table(c, kb.p(), n) == 1, "gen_table failed");
      if (e) { WBCRYPTO_se_wbsm4_encrypt(ib.p(), ob.p(), c); expect(rs); }
      else { WBCRYPTO_se_wbsm4_decrypt(ib.p(), ob.p(), c); rs.dec(pt.data(), want.data()); CHECK_EQ_BYTES(ob.get(), want, fmt("se-wbsm4 decrypt, %zu-byte key", n)); }
      free(c);
      break;
    }
    case EE_: {
      auto *c = (WBCRYPTO_wbaes_wbgcm_ee_context *)malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context));
      WBCRYPTO_wbaes_wbgcm_ee_gen_table(c, kb.p(), n);
      WBCRYPTO_wbgcm_ee_context *g = WBCRYPTO_wbaes_wbgcm_ee_init(c);
      Bytes iv = t.bytes(12), ct, tag; Buf ivb(iv), tb(16);
      CHECK(g && WBCRYPTO_wbaes_wbgcm_ee_setiv(g, ivb.p(), 12) == 1, "setiv");
      CHECK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, ib.p(), 16, ob.p(), 16) == 1, "encrypt");
      WBCRYPTO_wbaes_wbgcm_ee_finish(g, tb.p(), 16);
      gcm_encrypt(ra, iv, {}, pt, ct, tag);
      CHECK_EQ_BYTES(ob.get(), ct, fmt("wbgcm-ee ciphertext, %zu-byte key", n));
      CHECK_EQ_BYTES(tb.get(), tag, fmt("wbgcm-ee tag, %zu-byte key", n));
      free(c); free(g);
      break;
    }
    case MASK_: {
      auto *e = WBCRYPTO_wbaes_wbgcm_mask_init_table(), *d = WBCRYPTO_wbaes_wbgcm_mask_init_table();
      WBCRYPTO_wbaes_wbgcm_mask_gen_table(e, d, kb.p(), n);
      // empty message: the tag is E(J0) xor GHASH() and independent of the mask
      WBCRYPTO_wbgcm_mask_context *g = WBCRYPTO_wbaes_wbgcm_mask_init(e);
      Bytes iv = t.bytes(12), aad = t.bytes(5), ct, tag; Buf ivb(iv), ab(aad), tb(16);
      CHECK(g && WBCRYPTO_wbaes_wbgcm_mask_setiv(g, ivb.p(), 12) == 1, "setiv");
      WBCRYPTO_wbaes_wbgcm_mask_aad(g, ab.p(), 5);
      WBCRYPTO_wbaes_wbgcm_mask_finish(g, tb.p(), 16);
      gcm_encrypt(ra, iv, aad, {}, ct, tag);
      CHECK_EQ_BYTES(tb.get(), tag, fmt("wbgcm-mask tag of an empty message, %zu-byte key", n));
      free(g); drop(e); drop(d);
      break;
    }
    default: {
      const char *cn = which == APP_AES ? "aes" : which == APP_SM4 ? "sm4" : which == APP_WBAES ? "wbaes" : "wbsm4";
      const Ref &r = which == APP_AES || which == APP_WBAES ? ra : rs;
      bool f1 = t.coin();
      WBCRYPTO_fpe_app_context ctx;
      CHECK(WBCRYPTO_fpe_app_init(&ctx, kb.p(), n, (char *)cn, (char *)(f1 ? "ff1" : "ff3")) == 1, "fpe_app_init");
      std::string ph; for (int i = 0; i < 11; i++) ph += (char)('0' + t.below(10));
      Bytes in(ph.begin(), ph.end()); in.push_back(0); Buf pb(in), po(12, 0);
      CHECK(WBCRYPTO_fpe_encrypt_phone(&ctx, pb.c(), po.c()) == 1, "encrypt_phone");
      Num w = f1 ? ff1(r, 10, {0}, str_to_num(ph), true) : ff3(r, 10, {0}, str_to_num(ph), true);
      if (num_to_str(w) != po.c()) fail("%s %s with a %zu-byte key: phone %s -> %s, expected %s", nm[which], f1 ? "ff1" : "ff3", n, ph.c_str(), po.c(), num_to_str(w).c_str());
      if (which == APP_WBSM4) drop((WBCRYPTO_wbsm4_context *)ctx.cipher_ctx); else free(ctx.cipher_ctx);
    }
  }
  CHECK_EQ_BYTES(kb.get(), key, "the caller's key was modified");
  kb.check("key");
}
PROPERTY("P02", "key material", p02, "the key is not exactly 16 bytes long", 1500, 150);

// ---------------------------------------------------------------- white-box equivalence
static void blocks_for(Tape &t, Bytes &in, size_t n) {
  in = t.bytes(16 * n);
  // structured blocks: single bits, equal bytes, chained low-weight
  Rng r(t.u64());
  for (size_t i = 0; i < n; i += 8) {
    uint8_t *b = &in[16 * i];
    switch (r.below(4)) {
      case 0: memset(b, (int)r.below(256), 16); break;
      case 1: memset(b, 0, 16); b[r.below(16)] = (uint8_t)r.below(256); break;
      case 2: memset(b, 0xff, 16); b[r.below(16)] = (uint8_t)r.below(256); break;
      default: break;
    }
  }
}
template <class F> static void compare_blocks(Tape &t, const Ref &ref, bool enc, size_t n, const char *what, F f) {
  Bytes in, want(16 * n); blocks_for(t, in, n);
  if (enc) ref.enc(in.data(), want.data(), n); else ref.dec(in.data(), want.data(), n);
  bool inplace = t.coin();
  Buf ib(16), ob(16);
  for (size_t i = 0; i < n; i++) {
    memcpy(ib.p(), &in[16 * i], 16);
    uint8_t *out = inplace ? ib.p() : ob.p();
    int r = f(ib.p(), out);
    if (r != 1) fail("%s returned %d", what, r);
    if (memcmp(out, &want[16 * i], 16)) fail("%s of %s under key %s: got %s, plain cipher gives %s", what, hex(&in[16 * i], 16).c_str(), hex(ref.key).c_str(), hex(out, 16).c_str(), hex(&want[16 * i], 16).c_str());
  }
  ib.check(what); ob.check(what);
}
static void p04(Tape &t) {
  WBCRYPTO_wbaes_context *c = WBCRYPTO_wbaes_context_init();
  CHECK(c, "context_init");
  struct F { void *p; ~F() { free(p); } } fr{c};
  int gens = 1 + (int)t.chance(1, 3);
  for (int k = 0; k < gens; k++) {
    Bytes key = draw_key(t);
    Buf kb(key);
    CHECK(WBCRYPTO_wbaes_gen_table(c, kb.p(), key.size()) == 1, "gen_table");
    Ref ref(REF_AES, ref_key(key));
    t.describe(fmt("key=%s generation=%d", hex(key).c_str(), k));
    compare_blocks(t, ref, true, asan_build() ? 64 : 700, "wbaes encrypt", [&](uint8_t *i, uint8_t *o) { return WBCRYPTO_wbaes_encrypt(i, o, c); });
  }
  t.label(gens > 1 ? "tables generated again in the same context" : "fresh context");
}
PROPERTY("P04", "white-box AES", p04, "every case generates new tables and compares at least 64 blocks with AES", 200, 10);

static void p05(Tape &t) {
  bool e = !t.coin(); int d = t.chance(1, 8) ? (int)t.below(t.chance(1, 4) ? 70 : 20) : draw_dummy(t);
  WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(e ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE, d);
  CHECK(c, "context_init");
  struct F { WBCRYPTO_wbsm4_context *p; ~F() { drop(p); } } fr{c};
  t.label(fmt("%s dummy=%d", e ? "enc" : "dec", d));
  int gens = 1 + (int)t.chance(1, 4);
  for (int k = 0; k < gens; k++) {
    Bytes key = draw_key(t);
    Buf kb(key);
    CHECK(WBCRYPTO_wbsm4_gen_table(c, kb.p(), key.size()) == 1, "gen_table");
    Ref ref(REF_SM4, ref_key(key));
    t.describe(fmt("%s dummy=%d key=%s", e ? "enc" : "dec", d, hex(key).c_str()));
    compare_blocks(t, ref, e, asan_build() ? 64 : 300, e ? "wbsm4 encrypt" : "wbsm4 decrypt",
                   [&](uint8_t *i, uint8_t *o) { return e ? WBCRYPTO_wbsm4_encrypt(i, o, c) : WBCRYPTO_wbsm4_decrypt(i, o, c); });
  }
}
PROPERTY("P05", "white-box SM4", p05, "every case generates new tables and compares at least 64 blocks with SM4", 300, 20);

static void p06(Tape &t) {
  bool e = !t.coin();
  WBCRYPTO_se_wbsm4_context *c = WBCRYPTO_se_wbsm4_context_init(e ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE);
  CHECK(c, "context_init");
  struct F { void *p; ~F() { free(p); } } fr{c};
  t.label(e ? "enc" : "dec");
  int gens = 1 + (int)t.chance(1, 4);
  for (int k = 0; k < gens; k++) {
    Bytes key = draw_key(t);
    Buf kb(key);
    CHECK(WBCRYPTO_se_wbsm4_gen_table(c, kb.p(), key.size()) == 1, "gen_table");
    Ref ref(REF_SM4, ref_key(key));
    t.describe(fmt("%s key=%s", e ? "enc" : "dec", hex(key).c_str()));
    compare_blocks(t, ref, e, asan_build() ? 16 : 40, e ? "se-wbsm4 encrypt" : "se-wbsm4 decrypt",
                   [&](uint8_t *i, uint8_t *o) { return e ? WBCRYPTO_se_wbsm4_encrypt(i, o, c) : WBCRYPTO_se_wbsm4_decrypt(i, o, c); });
  }
}
PROPERTY("P06", "self-equivalence white-box SM4", p06, "every case generates new tables (32x4 random table indices) and compares at least 16 blocks with SM4", 1500, 60);
