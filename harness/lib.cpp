#include "lib.h"
const char *kind_name[K_N] = {"aes", "sm4", "wbaes", "wbsm4", "user"};

extern "C" {
static int user_enc(const unsigned char in[16], unsigned char out[16], const void *key) { ((const Ref *)key)->enc(in, out); return 1; }
static int user_dec(const unsigned char in[16], unsigned char out[16], const void *key) { ((const Ref *)key)->dec(in, out); return 1; }
}
int Cipher::enc(const uint8_t *in, uint8_t *out) const {
  switch (kind) {
    case K_AES: return WBCRYPTO_aes_encrypt(in, out, (WBCRYPTO_aes_context *)ctx);
    case K_SM4: return WBCRYPTO_sm4_encrypt(in, out, (WBCRYPTO_sm4_context *)ctx);
    case K_WBAES: return WBCRYPTO_wbaes_encrypt(in, out, (WBCRYPTO_wbaes_context *)ctx);
    case K_USER: return user_enc(in, out, ctx);
    default: return WBCRYPTO_wbsm4_encrypt(in, out, (WBCRYPTO_wbsm4_context *)ctx);
  }
}
int Cipher::dec(const uint8_t *in, uint8_t *out) const {
  switch (kind) {
    case K_AES: return WBCRYPTO_aes_decrypt(in, out, (WBCRYPTO_aes_context *)ctx);
    case K_SM4: return WBCRYPTO_sm4_decrypt(in, out, (WBCRYPTO_sm4_context *)ctx);
    case K_USER: return user_dec(in, out, ctx);
    case K_WBSM4: return WBCRYPTO_wbsm4_decrypt(in, out, (WBCRYPTO_wbsm4_context *)dctx);
    default: abort();
  }
}
block128_f Cipher::block() const {
  switch (kind) {
    case K_AES: return (block128_f)WBCRYPTO_aes_encrypt;
    case K_SM4: return (block128_f)WBCRYPTO_sm4_encrypt;
    case K_WBAES: return (block128_f)WBCRYPTO_wbaes_encrypt;
    case K_USER: return user_enc;
    default: return (block128_f)WBCRYPTO_wbsm4_encrypt;
  }
}
WBCRYPTO_gcm_context *Cipher::gcm() const {
  WBCRYPTO_gcm_context *g;
  switch (kind) {
    case K_AES: g = WBCRYPTO_aes_gcm_init((WBCRYPTO_aes_context *)ctx); break;
    case K_SM4: g = WBCRYPTO_sm4_gcm_init((WBCRYPTO_sm4_context *)ctx); break;
    case K_WBAES: g = WBCRYPTO_wbaes_gcm_init((WBCRYPTO_wbaes_context *)ctx); break;
    case K_USER: g = WBCRYPTO_gcm_init(ctx, user_enc); break;
    default: g = WBCRYPTO_wbsm4_gcm_init((WBCRYPTO_wbsm4_context *)ctx);
  }
  CHECK(g, "gcm init failed");
  return g;
}
WBCRYPTO_gcmfile_context *Cipher::gcmfile() const {
  WBCRYPTO_gcmfile_context *g;
  switch (kind) {
    case K_AES: g = WBCRYPTO_aes_gcmfile_init((WBCRYPTO_aes_context *)ctx); break;
    case K_SM4: g = WBCRYPTO_sm4_gcmfile_init((WBCRYPTO_sm4_context *)ctx); break;
    case K_WBAES: g = WBCRYPTO_wbaes_gcmfile_init((WBCRYPTO_wbaes_context *)ctx); break;
    case K_USER: g = WBCRYPTO_gcmfile_init(ctx, user_enc); break;
    default: g = WBCRYPTO_wbsm4_gcmfile_init((WBCRYPTO_wbsm4_context *)ctx);
  }
  CHECK(g, "gcmfile init failed");
  return g;
}
WBCRYPTO_fpe_context *Cipher::fpe(const Bytes &tw, unsigned radix) const {
  Buf b(tw);  // exact size: the tweak may not be read past its end
  const char *p = tw.empty() ? NULL : b.c();
  switch (kind) {
    case K_AES: return WBCRYPTO_aes_fpe_init((WBCRYPTO_aes_context *)ctx, p, tw.size(), radix);
    case K_SM4: return WBCRYPTO_sm4_fpe_init((WBCRYPTO_sm4_context *)ctx, p, tw.size(), radix);
    case K_WBAES: return WBCRYPTO_wbaes_fpe_init((WBCRYPTO_wbaes_context *)ctx, p, tw.size(), radix);
    case K_USER: return WBCRYPTO_fpe_init((const uint8_t *)p, tw.size(), radix, ctx, user_enc);
    default: return WBCRYPTO_wbsm4_fpe_init((WBCRYPTO_wbsm4_context *)ctx, p, tw.size(), radix);
  }
}
WBCRYPTO_fpe_mac_context *Cipher::fpe_mac(const Bytes &tw, unsigned radix) const {
  Buf b(tw);
  const char *p = tw.empty() ? NULL : b.c();
  switch (kind) {
    case K_AES: return WBCRYPTO_aes_fpe_mac_init((WBCRYPTO_aes_context *)ctx, p, tw.size(), radix);
    case K_SM4: return WBCRYPTO_sm4_fpe_mac_init((WBCRYPTO_sm4_context *)ctx, p, tw.size(), radix);
    case K_WBAES: return WBCRYPTO_wbaes_fpe_mac_init((WBCRYPTO_wbaes_context *)ctx, p, tw.size(), radix);
    case K_USER: return WBCRYPTO_fpe_mac_init((const uint8_t *)p, tw.size(), radix, ctx, user_enc);
    default: return WBCRYPTO_wbsm4_fpe_mac_init((WBCRYPTO_wbsm4_context *)ctx, p, tw.size(), radix);
  }
}
int Cipher::cbc_enc(const uint8_t *in, size_t n, uint8_t *out, size_t max, size_t *use, uint8_t *iv) const {
  switch (kind) {
    case K_AES: return WBCRYPTO_aes_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_aes_context *)ctx, iv);
    case K_SM4: return WBCRYPTO_sm4_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_sm4_context *)ctx, iv);
    case K_WBAES: return WBCRYPTO_wbaes_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_wbaes_context *)ctx, iv);
    case K_USER: return WBCRYPTO_cbc128_encrypt(in, n, out, max, use, ctx, iv, user_enc);
    default: return WBCRYPTO_wbsm4_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_wbsm4_context *)ctx, iv);
  }
}
int Cipher::cbc_dec(const uint8_t *in, size_t n, uint8_t *out, size_t max, size_t *use, uint8_t *iv) const {
  switch (kind) {
    case K_AES: return WBCRYPTO_aes_cbc_decrypt(in, n, out, max, use, (WBCRYPTO_aes_context *)ctx, iv);
    case K_SM4: return WBCRYPTO_sm4_cbc_decrypt(in, n, out, max, use, (WBCRYPTO_sm4_context *)ctx, iv);
    case K_USER: return WBCRYPTO_cbc128_decrypt(in, n, out, max, use, ctx, iv, user_dec);
    case K_WBSM4: return WBCRYPTO_wbsm4_cbc_decrypt(in, n, out, max, use, (WBCRYPTO_wbsm4_context *)dctx, iv);
    default: abort();
  }
}
std::string Cipher::desc() const {
  return fmt("%s key=%s", kind_name[kind], hex(rawkey).c_str()) + (kind == K_WBSM4 ? fmt(" dummy=%d", dummy) : "");
}
CipherP make_cipher(Kind k, const Bytes &key, int dummy) {
  auto c = std::make_shared<Cipher>();
  c->kind = k; c->rawkey = key; c->dummy = dummy;
  c->ref.reset(new Ref(ref_of(k), ref_key(key)));
  Buf kb(key);
  switch (k) {
    case K_AES: c->ctx = WBCRYPTO_aes_context_init(); CHECK(WBCRYPTO_aes_init_key((WBCRYPTO_aes_context *)c->ctx, kb.p(), key.size()) == 1, "aes_init_key"); break;
    case K_SM4: c->ctx = WBCRYPTO_sm4_context_init(); CHECK(WBCRYPTO_sm4_init_key((WBCRYPTO_sm4_context *)c->ctx, kb.p(), key.size()) == 1, "sm4_init_key"); break;
    case K_USER: c->ctx = c->ref.get(); break;
    case K_WBAES: c->ctx = WBCRYPTO_wbaes_context_init(); CHECK(WBCRYPTO_wbaes_gen_table((WBCRYPTO_wbaes_context *)c->ctx, kb.p(), key.size()) == 1, "wbaes_gen_table"); break;
    default:
      c->ctx = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, dummy);
      CHECK(WBCRYPTO_wbsm4_gen_table((WBCRYPTO_wbsm4_context *)c->ctx, kb.p(), key.size()) == 1, "wbsm4_gen_table");
      c->dctx = WBCRYPTO_wbsm4_context_init(WBCRYPTO_DECRYPT_MODE, dummy);
      CHECK(WBCRYPTO_wbsm4_gen_table((WBCRYPTO_wbsm4_context *)c->dctx, kb.p(), key.size()) == 1, "wbsm4_gen_table");
  }
  kb.check("key setup");
  return c;
}
void drop(WBCRYPTO_wbsm4_context *c) { if (c) WBCRYPTO_wbsm4_context_free(c); }
void drop(WBCRYPTO_wbaes_wbgcm_mask_context *c) {   // the library offers no function for this
  for (int i = 0; i < 16; i++) { for (int x = 0; x < 256; x++) free(c->GBOX_TypeIII[i][x]); free(c->GBOX_TypeIII[i]); }
  free(c->GBOX_TypeIII); free(c);
}
Cipher::~Cipher() {
  if (kind == K_WBSM4) { drop((WBCRYPTO_wbsm4_context *)ctx); drop((WBCRYPTO_wbsm4_context *)dctx); }
  else if (kind != K_USER) free(ctx);
}
Bytes draw_key(Tape &t) {
  size_t n;
  switch (t.below(4)) {
    case 1: n = t.below(41); break;
    case 2: n = 14 + t.below(5); break;
    default: n = 16;
  }
  return t.bytes(n);
}
int draw_dummy(Tape &t) { return (int)t.pick<int>({1, 0, 2, 3, 4, 7}); }

static CipherP pooled(Kind k, unsigned id) {
  static std::map<std::pair<int, unsigned>, CipherP> pool;
  auto &e = pool[{k, id}];
  if (!e) {
    Rng r(mix64(977, k * 1000 + id));
    size_t n = id % 3 == 1 ? r.below(41) : 16;
    Bytes key(n); for (auto &b : key) b = (uint8_t)r.next();
    set_time((uint32_t)r.next(), id % 2 ? 7919 : 0); SetRandSeed((unsigned)r.next()); InitRandom((unsigned)r.next());
    static const int d[] = {1, 0, 2, 3, 1, 0, 5, 3, 9, 0, 2, 33};
    e = make_cipher(k, key, d[id % 12]);
  }
  return e;
}
// Block functions no real cipher is: a chosen image of the zero block (GHASH key), outputs with constant bits, nearly or wholly constant ones.
// They make the rare values of the modes (leading zero bytes, zero halves, sparse hash keys) common.
CipherP draw_user(Tape &t, bool permutation) {
  CipherP c = make_cipher(K_USER, t.bytes(16), 1);
  Ref::Twist w; c->ref->twist(w);
  auto pattern = [&](Blk &b) {
    switch (t.below(5)) {
      case 0: b.fill(0); b[t.below(16)] = (uint8_t)(1 << t.below(8)); break;
      case 1: b.fill(0xff); break;
      case 2: { size_t k = t.below(17); for (size_t i = 0; i < 16; i++) b[i] = i < k ? 0 : 0xff; break; }
      case 3: { size_t k = t.below(17); for (size_t i = 0; i < 16; i++) b[i] = i < k ? 0xff : 0; break; }
      default: { Bytes r = t.bytes(16); memcpy(b.data(), r.data(), 16); }
    }
  };
  unsigned how = (unsigned)t.below(permutation ? 2 : 5);
  if (how == 0) { pattern(w.xin); pattern(w.xout); }
  else if (how == 1) { Blk h, z = c->ref->E(Blk{}); pattern(h); for (int i = 0; i < 16; i++) w.xout[i] = z[i] ^ h[i]; }   // E(0) = h
  else if (how == 2) pattern(w.keep);
  else if (how == 3) pattern(w.set);
  else { w.keep.fill(0); pattern(w.set); }
  c->ref->twist(w);
  t.label(how < 2 ? "cipher:user permutation" : how < 4 ? "cipher:user masked" : "cipher:user constant");
  return c;
}
CipherP draw_cipher(Tape &t, std::initializer_list<Kind> kinds) {
  Kind k = *(kinds.begin() + t.below(kinds.size()));
  if (k == K_USER) return draw_user(t, false);
  t.label(std::string("cipher:") + kind_name[k]);
  if (k == K_AES || k == K_SM4) return make_cipher(k, draw_key(t), 1);
  if (t.chance(1, 60)) { Bytes key = draw_key(t); int d = draw_dummy(t); return make_cipher(k, key, d); }
  return pooled(k, (unsigned)t.below(12));
}

EE *draw_ee(Tape &t) {
  static std::map<unsigned, EE *> pool;
  bool fresh = t.chance(1, 200);
  unsigned id = (unsigned)t.below(fresh ? 1u << 30 : 6);
  static EE scratch{};
  EE *e;
  if (fresh) { e = &scratch; if (!e->ctx) e->ctx = (WBCRYPTO_wbaes_wbgcm_ee_context *)malloc(sizeof *e->ctx); }
  else { e = pool[id]; if (e) return e; e = new EE(); e->ctx = (WBCRYPTO_wbaes_wbgcm_ee_context *)malloc(sizeof *e->ctx); pool[id] = e; }
  Rng r(mix64(4242, id));
  size_t n = id % 3 == 1 ? r.below(41) : 16;
  e->rawkey.assign(n, 0); for (auto &b : e->rawkey) b = (uint8_t)r.next();
  set_time((uint32_t)r.next(), 0); SetRandSeed((unsigned)r.next()); InitRandom((unsigned)r.next());
  memset(e->ctx, (int)(r.next() & 0xff), sizeof *e->ctx);
  Buf kb(e->rawkey);
  WBCRYPTO_wbaes_wbgcm_ee_gen_table(e->ctx, kb.p(), n);
  kb.check("ee gen_table");
  e->ref.reset(new Ref(REF_AES, ref_key(e->rawkey)));
  return e;
}
Mask *draw_mask(Tape &t) {
  static std::map<unsigned, Mask *> pool;
  bool fresh = t.chance(1, 200);
  unsigned id = (unsigned)t.below(fresh ? 1u << 30 : 6);
  static Mask scratch{};
  Mask *e;
  if (fresh) e = &scratch;
  else { e = pool[id]; if (e) return e; e = new Mask(); pool[id] = e; }
  e->id = id;
  Rng r(mix64(777, id));
  size_t n = id % 3 == 1 ? r.below(41) : 16;
  e->rawkey.assign(n, 0); for (auto &b : e->rawkey) b = (uint8_t)r.next();
  set_time((uint32_t)r.next(), 0); SetRandSeed((unsigned)r.next()); InitRandom((unsigned)r.next());
  if (!e->enc) e->enc = WBCRYPTO_wbaes_wbgcm_mask_init_table();
  if (!e->dec) e->dec = WBCRYPTO_wbaes_wbgcm_mask_init_table();
  CHECK(e->enc && e->dec, "mask init_table");
  Buf kb(e->rawkey);
  WBCRYPTO_wbaes_wbgcm_mask_gen_table(e->enc, e->dec, kb.p(), n);
  kb.check("mask gen_table");
  e->ref.reset(new Ref(REF_AES, ref_key(e->rawkey)));
  return e;
}
