#include "oracle.h"
#include <openssl/evp.h>
#include <openssl/aes.h>
#include <algorithm>

static const EVP_CIPHER *ecb(RefKind k) { return k == REF_AES ? EVP_aes_128_ecb() : EVP_sm4_ecb(); }
static void die(const char *m) { fprintf(stderr, "oracle: %s\n", m); abort(); }

Ref::Ref(RefKind k, const Bytes &key16) : kind(k), key(key16) {
  if (key16.size() != 16) die("key size");
  EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(), *d = EVP_CIPHER_CTX_new();
  if (!EVP_EncryptInit_ex(e, ecb(k), NULL, key16.data(), NULL)) die("init");
  if (!EVP_DecryptInit_ex(d, ecb(k), NULL, key16.data(), NULL)) die("init");
  EVP_CIPHER_CTX_set_padding(e, 0); EVP_CIPHER_CTX_set_padding(d, 0);
  e_ = e; d_ = d;
}
struct Ref::Tw { Twist t; AES_KEY e, d; };   // usable from several threads at a time
void Ref::twist(const Twist &t) {
  if (!tw_) tw_ = new Tw;
  tw_->t = t; AES_set_encrypt_key(key.data(), 128, &tw_->e); AES_set_decrypt_key(key.data(), 128, &tw_->d);
}
Ref::~Ref() { delete tw_; EVP_CIPHER_CTX_free((EVP_CIPHER_CTX *)e_); EVP_CIPHER_CTX_free((EVP_CIPHER_CTX *)d_); }
void Ref::enc(const uint8_t *in, uint8_t *out, size_t n) const {
  if (tw_) {
    const Twist &t = tw_->t;
    for (; n--; in += 16, out += 16) {
      Blk b; for (int i = 0; i < 16; i++) b[i] = in[i] ^ t.xin[i];
      AES_encrypt(b.data(), b.data(), &tw_->e);
      for (int i = 0; i < 16; i++) out[i] = (uint8_t)(((b[i] ^ t.xout[i]) & t.keep[i]) | t.set[i]);
    }
    return;
  }
  int l; if (n && !EVP_EncryptUpdate((EVP_CIPHER_CTX *)e_, out, &l, in, (int)(16 * n))) die("enc");
}
void Ref::dec(const uint8_t *in, uint8_t *out, size_t n) const {
  if (tw_) {
    const Twist &t = tw_->t;
    for (; n--; in += 16, out += 16) {
      Blk b; for (int i = 0; i < 16; i++) b[i] = in[i] ^ t.xout[i];
      AES_decrypt(b.data(), b.data(), &tw_->d);
      for (int i = 0; i < 16; i++) out[i] = b[i] ^ t.xin[i];
    }
    return;
  }
  int l; if (n && !EVP_DecryptUpdate((EVP_CIPHER_CTX *)d_, out, &l, in, (int)(16 * n))) die("dec");
}
Bytes ref_key(const Bytes &k) {
  Bytes o(k.begin(), k.begin() + std::min<size_t>(16, k.size()));
  uint8_t pad = (uint8_t)(16 - o.size());
  while (o.size() < 16) o.push_back(pad);
  return o;
}
void *ref_sm3_new() { EVP_MD_CTX *c = EVP_MD_CTX_new(); if (!EVP_DigestInit_ex(c, EVP_sm3(), NULL)) die("sm3"); return c; }
void ref_sm3_update(void *c, const uint8_t *p, size_t n) { EVP_DigestUpdate((EVP_MD_CTX *)c, p, n); }
Bytes ref_sm3_final(void *c) { Bytes o(32); unsigned l; EVP_DigestFinal_ex((EVP_MD_CTX *)c, o.data(), &l); EVP_MD_CTX_free((EVP_MD_CTX *)c); return o; }
Bytes ref_sm3(const Bytes &m) { void *c = ref_sm3_new(); ref_sm3_update(c, m.data(), m.size()); return ref_sm3_final(c); }

Blk gf_mul(const Blk &x, const Blk &y) {
  uint64_t zh = 0, zl = 0, vh = 0, vl = 0;
  for (int i = 0; i < 8; i++) { vh = vh << 8 | y[i]; vl = vl << 8 | y[8 + i]; }
  for (int i = 0; i < 128; i++) {
    if (x[i / 8] >> (7 - i % 8) & 1) { zh ^= vh; zl ^= vl; }
    uint64_t lsb = vl & 1;
    vl = vl >> 1 | vh << 63; vh >>= 1;
    if (lsb) vh ^= 0xe100000000000000ull;
  }
  Blk z;
  for (int i = 7; i >= 0; i--) { z[i] = (uint8_t)zh; z[8 + i] = (uint8_t)zl; zh >>= 8; zl >>= 8; }
  return z;
}
Blk gf_inv(const Blk &a) {  // a^(2^128-2)
  Blk r{}; r[0] = 0x80;     // 1
  Blk s = a;
  for (int i = 1; i < 128; i++) { s = gf_mul(s, s); r = gf_mul(r, s); }
  return r;
}
static void xorb(Blk &a, const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) a[i] ^= p[i]; }
static Blk lenblk(uint64_t a, uint64_t b) {
  Blk l; a *= 8; b *= 8;
  for (int i = 7; i >= 0; i--) { l[i] = (uint8_t)a; l[8 + i] = (uint8_t)b; a >>= 8; b >>= 8; }
  return l;
}
Blk ghash(const Blk &h, const Bytes &aad, const Bytes &ct) {
  Blk y{};
  for (size_t i = 0; i < aad.size(); i += 16) { xorb(y, &aad[i], std::min<size_t>(16, aad.size() - i)); y = gf_mul(y, h); }
  for (size_t i = 0; i < ct.size(); i += 16) { xorb(y, &ct[i], std::min<size_t>(16, ct.size() - i)); y = gf_mul(y, h); }
  Blk l = lenblk(aad.size(), ct.size());
  xorb(y, l.data(), 16);
  return gf_mul(y, h);
}
Blk gcm_j0(const Ref &r, const Bytes &iv) {
  Blk j{};
  if (iv.size() == 12) { memcpy(j.data(), iv.data(), 12); j[15] = 1; return j; }
  Blk h = r.E(Blk{});
  for (size_t i = 0; i < iv.size(); i += 16) { xorb(j, &iv[i], std::min<size_t>(16, iv.size() - i)); j = gf_mul(j, h); }
  Blk l = lenblk(0, iv.size());
  xorb(j, l.data(), 16);
  return gf_mul(j, h);
}
Bytes gcm_keystream(const Ref &r, Blk j, size_t n) {
  size_t nb = (n + 15) / 16;
  Bytes c(16 * nb), o(16 * nb);
  uint32_t k = (uint32_t)j[12] << 24 | (uint32_t)j[13] << 16 | (uint32_t)j[14] << 8 | j[15];
  for (size_t i = 0; i < nb; i++) {
    k++;
    memcpy(&c[16 * i], j.data(), 12);
    c[16 * i + 12] = (uint8_t)(k >> 24); c[16 * i + 13] = (uint8_t)(k >> 16); c[16 * i + 14] = (uint8_t)(k >> 8); c[16 * i + 15] = (uint8_t)k;
  }
  if (nb) r.enc(c.data(), o.data(), nb);
  o.resize(n);
  return o;
}
Bytes gcm_ctr(const Ref &r, Blk j, const Bytes &in) {
  Bytes o = gcm_keystream(r, j, in.size());
  for (size_t i = 0; i < in.size(); i++) o[i] ^= in[i];
  return o;
}
void gcm_encrypt(const Ref &r, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag) {
  Blk j = gcm_j0(r, iv), h = r.E(Blk{});
  ct = gcm_ctr(r, j, pt);
  Blk s = ghash(h, aad, ct), e = r.E(j);
  tag.assign(16, 0);
  for (int i = 0; i < 16; i++) tag[i] = s[i] ^ e[i];
}
Bytes gcm_iv_for_j0_h(const Blk &h, const Blk &j0, const Bytes &prefix) {
  // prefix: full blocks before the last one; J0 = ((Y_prefix ^ last)*H ^ len) * H
  Blk hi = gf_inv(h), y{};
  for (size_t i = 0; i < prefix.size(); i += 16) { xorb(y, &prefix[i], 16); y = gf_mul(y, h); }
  Blk t = gf_mul(j0, hi);
  Blk l = lenblk(0, prefix.size() + 16);
  xorb(t, l.data(), 16);
  t = gf_mul(t, hi);
  xorb(t, y.data(), 16);
  Bytes iv = prefix;
  iv.insert(iv.end(), t.begin(), t.end());
  return iv;
}
Bytes gcm_iv_for_j0(const Ref &r, const Blk &j0, const Bytes &prefix) { return gcm_iv_for_j0_h(r.E(Blk{}), j0, prefix); }
void evp_aes_gcm(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag) {
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l;
  if (!EVP_EncryptInit_ex(c, EVP_aes_128_gcm(), NULL, NULL, NULL)) die("gcm");
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), NULL);
  if (!EVP_EncryptInit_ex(c, NULL, NULL, key.data(), iv.data())) die("gcm iv");
  if (!aad.empty()) EVP_EncryptUpdate(c, NULL, &l, aad.data(), (int)aad.size());
  ct.assign(pt.size(), 0); tag.assign(16, 0);
  size_t off = 0;
  while (off < pt.size()) { size_t k = std::min<size_t>(pt.size() - off, 1 << 28); EVP_EncryptUpdate(c, &ct[off], &l, &pt[off], (int)k); off += k; }
  uint8_t dummy[16]; EVP_EncryptFinal_ex(c, dummy, &l);
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag.data());
  EVP_CIPHER_CTX_free(c);
}
Bytes pkcs7_merge(const Bytes &m) {
  Bytes o = m; uint8_t p = (uint8_t)(16 - m.size() % 16);
  if (p < 16) o.insert(o.end(), p, p);
  return o;
}
Bytes cbc_encrypt_raw(const Ref &r, const Bytes &iv, const Bytes &in) {
  Bytes o(in.size()); Blk c; memcpy(c.data(), iv.data(), 16);
  for (size_t i = 0; i + 16 <= in.size(); i += 16) { for (int k = 0; k < 16; k++) c[k] ^= in[i + k]; c = r.E(c); memcpy(&o[i], c.data(), 16); }
  return o;
}

// ---------------------------------------------------------------- format-preserving encryption
static Bytes num_bytes(const unsigned *d, size_t n, unsigned radix, size_t len) {  // big endian, len bytes
  Bytes b(len, 0); size_t used = 0;   // only the last used bytes are not zero
  for (size_t i = 0; i < n; i++) {
    uint64_t carry = d[i];
    for (size_t k = len; k > 0 && (len - k < used || carry); k--) { uint64_t v = (uint64_t)b[k - 1] * radix + carry; b[k - 1] = (uint8_t)v; carry = v >> 8; used = std::max(used, len - k + 1); }
  }
  return b;
}
static Num bytes_mod(Bytes b, unsigned radix, size_t m) {  // value mod radix^m as m digits, most significant first
  Num d(m, 0); while (b.size() % 4) b.insert(b.begin(), 0);
  std::vector<uint32_t> w; for (size_t i = 0; i < b.size(); i += 4) w.push_back((uint32_t)b[i] << 24 | (uint32_t)b[i + 1] << 16 | (uint32_t)b[i + 2] << 8 | b[i + 3]);
  size_t lead = 0;
  for (size_t i = m; i-- > 0;) {
    uint64_t rem = 0; while (lead < w.size() && !w[lead]) lead++;
    for (size_t k = lead; k < w.size(); k++) { uint64_t v = rem << 32 | w[k]; w[k] = (uint32_t)(v / radix); rem = v % radix; }
    d[i] = (unsigned)rem;
  }
  return d;
}
static Num addmod(const Num &a, const Num &y, unsigned radix, bool add) {
  Num o(a.size()); int carry = 0;
  for (size_t i = a.size(); i-- > 0;) {
    int v = add ? (int)a[i] + (int)y[i] + carry : (int)a[i] - (int)y[i] + carry;
    carry = 0;
    if (v >= (int)radix) { v -= radix; carry = 1; }
    if (v < 0) { v += radix; carry = -1; }
    o[i] = (unsigned)v;
  }
  return o;
}
// number of bits of radix^v - 1, exactly
static size_t bits_of_pow(unsigned radix, size_t v) {
  Num d(v, radix - 1);
  Bytes b = num_bytes(d.data(), v, radix, v + 1);
  for (size_t i = 0; i < b.size(); i++) if (b[i]) { int k = 0; while (b[i] >> k) k++; return (b.size() - 1 - i) * 8 + k; }
  return 0;
}
Num ff1(const Ref &r, unsigned radix, const Bytes &tweak, const Num &x, bool encrypt) {
  size_t n = x.size(), u = n / 2, v = n - u, t = tweak.size();
  // ceil(v*log2(radix)) is the bit length of radix^v - 1
  size_t b = (bits_of_pow(radix, v) + 7) / 8, d = 4 * ((b + 3) / 4) + 4;
  Bytes P = {1, 2, 1, (uint8_t)(radix >> 16), (uint8_t)(radix >> 8), (uint8_t)radix, 10, (uint8_t)(u % 256),
             (uint8_t)(n >> 24), (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n, (uint8_t)(t >> 24), (uint8_t)(t >> 16), (uint8_t)(t >> 8), (uint8_t)t};
  Num A(x.begin(), x.begin() + u), B(x.begin() + u, x.end());
  for (int k = 0; k < 10; k++) {
    int i = encrypt ? k : 9 - k;
    size_t m = i % 2 == 0 ? u : v;
    const Num &src = encrypt ? B : A;
    Bytes Q = tweak;
    while ((Q.size() + 1 + b) % 16) Q.push_back(0);
    Q.push_back((uint8_t)i);
    Bytes nb = num_bytes(src.data(), src.size(), radix, b);
    Q.insert(Q.end(), nb.begin(), nb.end());
    Bytes M = P; M.insert(M.end(), Q.begin(), Q.end());
    Blk R{};
    for (size_t o = 0; o < M.size(); o += 16) { for (int z = 0; z < 16; z++) R[z] ^= M[o + z]; R = r.E(R); }
    Bytes S(R.begin(), R.end());
    for (uint32_t j = 1; S.size() < d; j++) {
      Blk z = R; z[15] ^= (uint8_t)j; z[14] ^= (uint8_t)(j >> 8); z[13] ^= (uint8_t)(j >> 16); z[12] ^= (uint8_t)(j >> 24);
      z = r.E(z); S.insert(S.end(), z.begin(), z.end());
    }
    S.resize(d);
    Num y = bytes_mod(S, radix, m);
    if (encrypt) { Num C = addmod(A, y, radix, true); A = B; B = C; }
    else { Num C = addmod(B, y, radix, false); B = A; A = C; }
  }
  A.insert(A.end(), B.begin(), B.end());
  return A;
}
Num ff3(const Ref &r, unsigned radix, const Bytes &tweak, const Num &x, bool encrypt, std::vector<Blk> *Sout) {
  size_t n = x.size(), u = (n + 1) / 2, v = n - u;
  Bytes T = tweak; T.resize(8, 0);
  Num A(x.begin(), x.begin() + u), B(x.begin() + u, x.end());
  for (int k = 0; k < 8; k++) {
    int i = encrypt ? k : 7 - k;
    size_t m = i % 2 == 0 ? u : v;
    const uint8_t *W = i % 2 == 0 ? &T[4] : &T[0];
    const Num &src = encrypt ? B : A;
    Num rv(src.rbegin(), src.rend());
    Bytes nb = num_bytes(rv.data(), rv.size(), radix, 12);
    Blk P; memcpy(P.data(), W, 4); P[3] ^= (uint8_t)i; memcpy(&P[4], nb.data(), 12);
    std::reverse(P.begin(), P.end());
    Blk S = r.E(P);
    std::reverse(S.begin(), S.end());
    if (Sout) Sout->push_back(S);
    Num y = bytes_mod(Bytes(S.begin(), S.end()), radix, m);   // most significant first
    auto rev = [](Num q) { std::reverse(q.begin(), q.end()); return q; };
    if (encrypt) { Num C = rev(addmod(rev(A), y, radix, true)); A = B; B = C; }
    else { Num C = rev(addmod(rev(B), y, radix, false)); B = A; A = C; }
  }
  A.insert(A.end(), B.begin(), B.end());
  return A;
}
std::string num_to_str(const Num &n) { std::string s; for (unsigned d : n) s += d < 10 ? (char)('0' + d) : (char)('a' + d - 10); return s; }
Num str_to_num(const std::string &s) { Num n; for (char c : s) n.push_back(c >= 'a' ? c - 'a' + 10 : c - '0'); return n; }

static Bytes unhex(const char *s) { Bytes b; unsigned v; for (; *s; s += 2) { sscanf(s, "%2x", &v); b.push_back((uint8_t)v); } return b; }
void oracle_selftest() {
  {  // SP 800-38G FF1 samples 1, 2, 3, 4
    Ref r(REF_AES, unhex("2b7e151628aed2a6abf7158809cf4f3c"));
    if (num_to_str(ff1(r, 10, {}, str_to_num("0123456789"), true)) != "2433477484") die("FF1 sample 1");
    if (num_to_str(ff1(r, 10, unhex("39383736353433323130"), str_to_num("0123456789"), true)) != "6124200773") die("FF1 sample 2");
    if (num_to_str(ff1(r, 36, unhex("3737373770717273373737"), str_to_num("0123456789abcdefghi"), true)) != "a9tv40mll9kdu509eum") die("FF1 sample 3");
    if (num_to_str(ff1(r, 36, unhex("3737373770717273373737"), str_to_num("a9tv40mll9kdu509eum"), false)) != "0123456789abcdefghi") die("FF1 sample 3 dec");
  }
  {  // FF3 samples 1 and 5 (key is byte-reversed in NIST's REVB notation)
    Bytes k = unhex("ef4359d8d580aa4f7f036d6f04fc6a94"); std::reverse(k.begin(), k.end());
    Ref r(REF_AES, k);
    if (num_to_str(ff3(r, 10, unhex("d8e7920afa330a73"), str_to_num("890121234567890000"), true)) != "750918814058654607") die("FF3 sample 1");
    if (num_to_str(ff3(r, 26, unhex("9a768a92f60e12d8"), str_to_num("0123456789abcdefghi"), true)) != "g2pk40i992fn20cjakb") die("FF3 sample 5");
    if (num_to_str(ff3(r, 26, unhex("9a768a92f60e12d8"), str_to_num("g2pk40i992fn20cjakb"), false)) != "0123456789abcdefghi") die("FF3 sample 5 dec");
  }
  {  // SM4 standard example, SM3 "abc"
    Ref r(REF_SM4, unhex("0123456789abcdeffedcba9876543210")); Blk b; Bytes p = unhex("0123456789abcdeffedcba9876543210");
    r.enc(p.data(), b.data());
    if (Bytes(b.begin(), b.end()) != unhex("681edf34d206965e86b3e94f536e4246")) die("SM4");
    if (ref_sm3({'a', 'b', 'c'}) != unhex("66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0")) die("SM3");
  }
  Rng g(42);
  for (int i = 0; i < 60; i++) {  // own GCM against OpenSSL's
    auto rb = [&](size_t n) { Bytes b(n); for (auto &x : b) x = (uint8_t)g.next(); return b; };
    Bytes key = rb(16), iv = rb(i % 3 == 0 ? 12 : 1 + g.below(70)), aad = rb(g.below(50)), pt = rb(g.below(100)), c1, c2, t1, t2;
    Ref r(REF_AES, key);
    if (i % 5 == 0) { Blk j; for (auto &x : j) x = (uint8_t)g.next(); j[12] = j[13] = j[14] = 0xff; j[15] = 0xfd; iv = gcm_iv_for_j0(r, j, rb(16 * (i % 2))); if (gcm_j0(r, iv) != j) die("iv inversion"); }
    gcm_encrypt(r, iv, aad, pt, c1, t1); evp_aes_gcm(key, iv, aad, pt, c2, t2);
    if (c1 != c2 || t1 != t2) die("GCM");
  }
}
