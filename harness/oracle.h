// Independent reference implementations (OpenSSL EVP and textbook code), never the library's own code.
#pragma once
#include "pbt.h"
#include <array>

typedef std::array<uint8_t, 16> Blk;
enum RefKind { REF_AES = 0, REF_SM4 = 1 };

class Ref {  // one block cipher under one 16-byte key
 public:
  Ref(RefKind k, const Bytes &key16);
  ~Ref();
  Ref(const Ref &) = delete;
  void enc(const uint8_t *in, uint8_t *out, size_t blocks = 1) const;
  void dec(const uint8_t *in, uint8_t *out, size_t blocks = 1) const;
  // a block function that is no standard cipher: ((E(in ^ xin) ^ xout) & keep) | set; a permutation when nothing is masked
  struct Twist { Blk xin{}, xout{}, keep, set{}; Twist() { keep.fill(0xff); } };
  void twist(const Twist &t);
  bool twisted() const { return tw_ != nullptr; }
  Blk E(const Blk &b) const { Blk o; enc(b.data(), o.data()); return o; }
  RefKind kind;
  Bytes key;
 private:
  void *e_, *d_;
  struct Tw;
  Tw *tw_ = nullptr;
};

// first 16 bytes, or PKCS7 expansion to 16 bytes
Bytes ref_key(const Bytes &key);
Bytes ref_sm3(const Bytes &m);
void *ref_sm3_new(); void ref_sm3_update(void *, const uint8_t *, size_t); Bytes ref_sm3_final(void *);

Blk gf_mul(const Blk &a, const Blk &b);     // GCM field, bit-serial
Blk gf_inv(const Blk &a);
Blk ghash(const Blk &h, const Bytes &aad, const Bytes &ct);
Blk gcm_j0(const Ref &r, const Bytes &iv);
Bytes gcm_ctr(const Ref &r, Blk j0, const Bytes &in);   // counter starts at inc32(j0)
Bytes gcm_keystream(const Ref &r, Blk j0, size_t n);
// ciphertext, full tag
void gcm_encrypt(const Ref &r, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag);
// an IV of 16*blocks bytes whose pre-counter block is the given one
Bytes gcm_iv_for_j0(const Ref &r, const Blk &j0, const Bytes &prefix);
Bytes gcm_iv_for_j0_h(const Blk &h, const Blk &j0, const Bytes &prefix);
// AES-GCM from OpenSSL (second opinion / large inputs)
void evp_aes_gcm(const Bytes &key16, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag);

Bytes cbc_encrypt_raw(const Ref &r, const Bytes &iv, const Bytes &padded);
Bytes pkcs7_merge(const Bytes &m);   // the library's documented rule: only incomplete blocks are padded

// numerals: digits most significant first as in NIST SP 800-38G
typedef std::vector<unsigned> Num;
Num ff1(const Ref &r, unsigned radix, const Bytes &tweak, const Num &x, bool encrypt);
// FF3 with the tweak's first 8 bytes (zero-extended); the cipher key is used as given
Num ff3(const Ref &r, unsigned radix, const Bytes &tweak, const Num &x, bool encrypt, std::vector<Blk> *S = nullptr);
std::string num_to_str(const Num &n);
Num str_to_num(const std::string &s);
void oracle_selftest();   // aborts when a reference is wrong on published vectors
