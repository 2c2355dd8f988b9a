// Access to the library under test (public headers only) and pooled cipher contexts.
#pragma once
#include "pbt.h"
#include "oracle.h"
extern "C" {
#include <wbcrypto/aes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/wbaes.h>
#include <wbcrypto/wbsm4.h>
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/sm3.h>
#include <wbcrypto/fpe.h>
#include <wbcrypto/fpe_app.h>
#include <wbcrypto/utils.h>
#include <wbcrypto/modes.h>
#include <wbcrypto/wbaes_wbgcm_ee.h>
#include <wbcrypto/wbaes_wbgcm_mask.h>
#include <WBMatrix/WBMatrix.h>
}

enum Kind { K_AES = 0, K_SM4, K_WBAES, K_WBSM4, K_USER, K_N };   // K_USER: a block function of the caller's own
extern const char *kind_name[K_N];
inline RefKind ref_of(Kind k) { return k == K_SM4 || k == K_WBSM4 ? REF_SM4 : REF_AES; }

struct Cipher {
  Kind kind; Bytes rawkey; int dummy = 1; uint32_t t = 0;
  std::unique_ptr<Ref> ref;
  void *ctx = nullptr;       // encryption context
  void *dctx = nullptr;      // decryption context (white-box SM4: its own tables)
  int enc(const uint8_t *in, uint8_t *out) const;
  int dec(const uint8_t *in, uint8_t *out) const;   // AES, SM4, WBSM4
  block128_f block() const;
  WBCRYPTO_gcm_context *gcm() const;
  WBCRYPTO_gcmfile_context *gcmfile() const;
  WBCRYPTO_fpe_context *fpe(const Bytes &tweak, unsigned radix) const;
  WBCRYPTO_fpe_mac_context *fpe_mac(const Bytes &tweak, unsigned radix) const;
  int cbc_enc(const uint8_t *in, size_t n, uint8_t *out, size_t max, size_t *use, uint8_t *iv) const;
  int cbc_dec(const uint8_t *in, size_t n, uint8_t *out, size_t max, size_t *use, uint8_t *iv) const;
  std::string desc() const;
  ~Cipher();
};
typedef std::shared_ptr<Cipher> CipherP;
void drop(WBCRYPTO_wbsm4_context *c);
void drop(WBCRYPTO_wbaes_wbgcm_mask_context *c);
CipherP make_cipher(Kind k, const Bytes &key, int dummy);
Bytes draw_key(Tape &t);                     // any length 0..40, mostly 16
CipherP draw_cipher(Tape &t, std::initializer_list<Kind> kinds);
CipherP draw_user(Tape &t, bool permutation);
int draw_dummy(Tape &t);

// contexts of the white-box GCM variants, pooled by id
struct EE { Bytes rawkey; std::unique_ptr<Ref> ref; WBCRYPTO_wbaes_wbgcm_ee_context *ctx; };
struct Mask { uint64_t id = ~0ull; Bytes rawkey; std::unique_ptr<Ref> ref; WBCRYPTO_wbaes_wbgcm_mask_context *enc = nullptr, *dec = nullptr; };
EE *draw_ee(Tape &t);
Mask *draw_mask(Tape &t);

#define CHECK_EQ_BYTES(got, want, what) \
  do { Bytes g_ = (got), w_ = (want); if (g_ != w_) fail("%s: got %s, want %s", std::string(what).c_str(), hex(g_).c_str(), hex(w_).c_str()); } while (0)
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
