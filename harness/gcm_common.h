// A model of one GCM context and the devices (API families) it is compared with.
#pragma once
#include "lib.h"

Bytes draw_iv(Tape &t, const Ref &r);   // any length >= 1, including ones whose counter wraps
Bytes draw_aad(Tape &t);

// one family of the library's GCM interfaces bound to one context
struct GcmDev {
  virtual ~GcmDev() {}
  virtual int setiv(const uint8_t *iv, size_t n) = 0;
  virtual int aad(const uint8_t *a, size_t n) = 0;
  virtual int crypt(bool enc, bool par, const uint8_t *in, size_t n, uint8_t *out, size_t outlen) = 0;
  virtual int finish(uint8_t *tag, size_t n) = 0;
  virtual bool has_par() const { return false; }
  virtual bool can(bool enc) const { (void)enc; return true; }
};
struct PlainDev : GcmDev {
  WBCRYPTO_gcm_context *g;
  explicit PlainDev(const Cipher &c) : g(c.gcm()) {}
  explicit PlainDev(WBCRYPTO_gcm_context *x) : g(x) {}
  ~PlainDev() override { free(g); }
  int setiv(const uint8_t *iv, size_t n) override { return WBCRYPTO_gcm_setiv(g, iv, n); }
  int aad(const uint8_t *a, size_t n) override { return WBCRYPTO_gcm_aad(g, a, n); }
  int crypt(bool e, bool par, const uint8_t *in, size_t n, uint8_t *out, size_t o) override {
    if (par) return e ? WBCRYPTO_gcm_parallel_encrypt(g, in, n, out, o) : WBCRYPTO_gcm_parallel_decrypt(g, in, n, out, o);
    return e ? WBCRYPTO_gcm_encrypt(g, in, n, out, o) : WBCRYPTO_gcm_decrypt(g, in, n, out, o);
  }
  int finish(uint8_t *tag, size_t n) override { return WBCRYPTO_gcm_finish(g, tag, n); }
  bool has_par() const override { return true; }
};
struct EEDev : GcmDev {
  WBCRYPTO_wbgcm_ee_context *g;
  explicit EEDev(EE *e) : g(WBCRYPTO_wbaes_wbgcm_ee_init(e->ctx)) { CHECK(g, "wbgcm_ee_init failed"); }
  ~EEDev() override { free(g); }
  int setiv(const uint8_t *iv, size_t n) override { return WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv, n); }
  int aad(const uint8_t *a, size_t n) override { return WBCRYPTO_wbaes_wbgcm_ee_aad(g, a, n); }
  int crypt(bool e, bool, const uint8_t *in, size_t n, uint8_t *out, size_t o) override {
    return e ? WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, in, n, out, o) : WBCRYPTO_wbaes_wbgcm_ee_decrypt(g, in, n, out, o);
  }
  int finish(uint8_t *tag, size_t n) override { return WBCRYPTO_wbaes_wbgcm_ee_finish(g, tag, n); }
};
struct MaskDev : GcmDev {
  WBCRYPTO_wbgcm_mask_context *g; bool enc_;
  MaskDev(Mask *m, bool enc) : g(WBCRYPTO_wbaes_wbgcm_mask_init(enc ? m->enc : m->dec)), enc_(enc) { CHECK(g, "wbgcm_mask_init failed"); }
  ~MaskDev() override { free(g); }
  int setiv(const uint8_t *iv, size_t n) override { return WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv, n); }
  int aad(const uint8_t *a, size_t n) override { return WBCRYPTO_wbaes_wbgcm_mask_aad(g, a, n); }
  int crypt(bool e, bool, const uint8_t *in, size_t n, uint8_t *out, size_t o) override {
    return e ? WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, in, n, out, o) : WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, in, n, out, o);
  }
  int finish(uint8_t *tag, size_t n) override { return WBCRYPTO_wbaes_wbgcm_mask_finish(g, tag, n); }
  bool can(bool e) const override { return e == enc_; }
};

// byte-wise output mask of WBGCM-Mask: fwd[position][value] (identity for the other families)
struct MaskTable { uint8_t fwd[16][256], inv[16][256]; };
const MaskTable *identity_mask();

// reference results for a whole message
void model_encrypt(const Ref &r, const MaskTable *m, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag);
void model_decrypt(const Ref &r, const MaskTable *m, const Bytes &iv, const Bytes &aad, const Bytes &ct, Bytes &pt, Bytes &tag);

// drives one device through one whole message drawn from the tape and compares with the model.
struct MsgOpts { bool allow_par = false, allow_cap = false; size_t maxlen = 700; };
// incremental history: several messages, several contexts
void gcm_history(Tape &t, const Ref &r, const MaskTable *m, const std::vector<GcmDev *> &devs, size_t messages, size_t maxlen);
void huge_field(Tape &t, const Ref &r, const MaskTable *m, GcmDev &d, bool iv);   // IV or associated data of more than 2^32 bits
