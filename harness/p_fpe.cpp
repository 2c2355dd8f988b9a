// P20 FF1, P21 FF3, P22 permutation/tweak/radix, P23 authenticated format-preserving encryption
#include "lib.h"
#include <algorithm>
#include <cmath>
#include <set>

static unsigned draw_radix(Tape &t) { switch (t.below(4)) { case 0: return 10; case 1: return t.pick<unsigned>({2, 3, 16, 26, 35, 36, 4, 12}); default: return 2 + (unsigned)t.below(35); } }
static Num draw_num(Tape &t, unsigned radix, size_t n) {
  Num x(n); unsigned mode = (unsigned)t.below(4); uint64_t seed = t.u64(); Rng g(seed);
  for (size_t i = 0; i < n; i++) switch (mode) { case 0: x[i] = (unsigned)g.below(radix); break; case 1: x[i] = 0; break; case 2: x[i] = radix - 1; break; default: x[i] = i + 3 >= n || i < 1 ? (unsigned)g.below(radix) : 0; }
  return x;
}
static Bytes draw_tweak(Tape &t) {
  switch (t.below(5)) { case 0: return t.bytes(8); case 1: return {}; case 2: return t.bytes(t.below(20)); case 3: return t.bytes(15 + t.below(20)); default: return t.bytes(t.below(120)); }
}
static size_t ff3_max(unsigned radix) {  // NIST: 2*floor(log_radix(2^96))
  size_t k = 0; long double b = 0, l = log2l(radix); while (b + l <= 96.0L + 1e-12L) { b += l; k++; } return 2 * k;
}
static size_t draw_len(Tape &t, unsigned radix, bool f3, bool &conform) {
  size_t mx = ff3_max(radix), n; conform = true;
  switch (t.below(f3 ? 5 : 6)) {
    case 0: n = 2 + t.below(20); break;
    case 1: n = 2 + t.below(3); break;
    case 2: n = f3 ? 2 + t.below(mx - 1) : 2 + t.below(120); break;
    case 3: n = f3 ? mx - t.below(3) : 2 + t.below(300); break;
    case 4: if (f3) { n = mx + 1 + t.below(40); conform = false; } else n = 250 + t.below(300); break;
    default: n = 2 + t.below(40);
  }
  if (t.chance(1, 24)) { n = t.below(2); conform = false; t.label("text of one character or none"); }   // outside the standard, but not an error
  return n;
}
// one character of a text replaced by one the radix does not have
static std::string spoil(Tape &t, std::string s, unsigned radix) {
  char c;
  switch (t.below(6)) {
    case 0: c = (char)('A' + t.below(26)); break;
    case 1: c = t.pick<char>({'/', ':', '@', '`', '{', ' ', '-', '*', '\n', '\x7f'}); break;
    case 2: c = (char)(128 + t.below(128)); break;
    case 3: c = (char)(1 + t.below(31)); break;
    default: { unsigned d = radix + (unsigned)(t.coin() ? 0 : t.below(36)); c = d >= 36 ? '!' : d < 10 ? (char)('0' + d) : (char)('a' + d - 10); }
  }
  if (s.empty()) s = "0";
  s[t.below(s.size())] = c; return s;
}
typedef int (*FpeFn)(WBCRYPTO_fpe_context *, const char *, char *);
static std::string call_fpe(FpeFn f, WBCRYPTO_fpe_context *c, const std::string &in, bool inplace, const char *what) {
  Bytes ib(in.begin(), in.end()); ib.push_back(0);
  Buf b(ib), o(ib.size());
  char *out = inplace ? b.c() : o.c();
  int r = f(c, b.c(), out);
  CHECK(r == 1, "%s returned %d for '%s'", what, r, in.c_str());
  b.check("input text"); o.check("output text");
  if (!inplace) CHECK(b.get() == ib, "%s changed its input", what);
  CHECK(out[in.size()] == 0, "%s: output of %zu characters is not terminated", what, in.size());
  CHECK(strlen(out) == in.size(), "%s: %zu characters became %zu", what, in.size(), strlen(out));
  return out;
}
template <class F, class X> static void must_refuse(F f, X *c, const std::string &in, unsigned radix, const char *what) {
  Bytes ib(in.begin(), in.end()); ib.push_back(0);
  Buf b(ib), o(ib.size(), 0x6b);
  int r = f(c, b.c(), o.c());
  b.check("refused text"); o.check("output text");
  CHECK(r == 0, "%s took '%s', which is not a text of radix %u: returned %d", what, in.c_str(), radix, r);
  CHECK(b.get() == ib && o.get() == Bytes(ib.size(), 0x6b), "%s refused '%s' but wrote to the buffers", what, in.c_str());
}
// lengths whose upper bytes matter: more than 256 and 65536 units in the standard's counters
static void long_ff1(Tape &t, int what, bool mac);
static void fpe_case(Tape &t, bool f3) {
  if (!f3 && !asan_build()) for (int w = 0; w < 3; w++) if (t.once(w, 4)) return long_ff1(t, w, false);
  int nctx = 1 + (int)t.below(2), msgs = 1 + (int)t.below(3);
  struct C { CipherP c; unsigned radix; Bytes tw; WBCRYPTO_fpe_context *f; };
  std::vector<C> cs;
  for (int i = 0; i < nctx; i++) {
    C c; c.c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4, K_USER}); c.radix = draw_radix(t); c.tw = draw_tweak(t);
    if (!f3 && t.chance(1, 100)) { c.tw = t.bytes(200 + t.below(70000)); t.label("very long tweak"); }
    c.f = c.c->fpe(c.tw, c.radix);
    CHECK(c.f, "initialisation with radix %u and a tweak of %zu bytes failed", c.radix, c.tw.size());
    cs.push_back(c);
  }
  FpeFn E = f3 ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff1_encrypt, D = f3 ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff1_decrypt;
  const char *nm = f3 ? "FF3" : "FF1";
  bool nt = false;
  for (int k = 0; k < msgs; k++) {
    C &c = cs[t.below(cs.size())]; bool conform; size_t n = draw_len(t, c.radix, f3, conform);
    if (c.tw.size() > 200) n = std::min<size_t>(n, 40);
    if (!f3 && !asan_build() && t.chance(1, 400)) { n = 1000 + t.below(thorough() ? 9000 : 2000); t.label("very long text"); }
    Num x = draw_num(t, c.radix, n); std::string s = num_to_str(x);
    bool dirE = t.coin(), ip = t.chance(1, 4);
    if (t.chance(1, 6)) { must_refuse(dirE ? E : D, c.f, spoil(t, s, c.radix), c.radix, nm); t.label("character outside the radix"); }
    t.label(fmt("%s%s", dirE ? "encrypt" : "decrypt", conform ? "" : " beyond NIST length"));
    t.label(n % 2 ? "odd length" : "even length");
    t.describe(fmt("%s %s radix %u length %zu tweak %zu", kind_name[c.c->kind], dirE ? "enc" : "dec", c.radix, n, c.tw.size()));
    std::string got = call_fpe(dirE ? E : D, c.f, s, ip, nm);
    if (conform) {
      std::string want = num_to_str(f3 ? ff3(*c.c->ref, c.radix, c.tw, x, dirE) : ff1(*c.c->ref, c.radix, c.tw, x, dirE));
      CHECK(got == want, "%s %s with %s, radix %u, tweak %s: '%s' gives '%s', NIST SP 800-38G gives '%s'", nm, dirE ? "encryption" : "decryption", c.c->desc().c_str(), c.radix, hex(c.tw).c_str(), s.substr(0, 200).c_str(), got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
    }
    for (char ch : got) { unsigned d = ch >= 'a' ? ch - 'a' + 10 : ch - '0'; CHECK(((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z')) && d < c.radix, "%s: '%c' is not a digit of radix %u", nm, ch, c.radix); }
    std::string back = call_fpe(dirE ? D : E, c.f, got, t.chance(1, 4), nm);
    CHECK(back == s, "%s, radix %u, tweak %s: '%s' -> '%s' -> '%s' instead of the original", nm, c.radix, hex(c.tw).c_str(), s.c_str(), got.c_str(), back.c_str());
    nt |= n >= 3;
  }
  for (auto &c : cs) WBCRYPTO_fpe_free(c.f);
  t.nontrivial(nt);
}
static void p20(Tape &t) { fpe_case(t, false); }
PROPERTY("P20", "FF1 conformance", p20, "some text of the case has at least 3 characters", 2000, 300);
static void p21(Tape &t) { fpe_case(t, true); }
PROPERTY("P21", "FF3 conformance", p21, "some text of the case has at least 3 characters", 2000, 300);

// ---------------------------------------------------------------- P22
static void p22(Tape &t) {
  unsigned kind = (unsigned)t.below(5);
  if (kind == 0) {   // radix limits
    CipherP c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4});
    unsigned radix; switch (t.below(4)) { case 0: radix = t.pick<unsigned>({0, 1, 37, 38}); break; case 1: radix = (unsigned)t.below(2); break; case 2: radix = 37 + (unsigned)t.below(300); break; default: radix = (unsigned)(t.u64() | 64); }
    if (radix >= 2 && radix <= 36) discard();
    Bytes tw = draw_tweak(t);
    CHECK(c->fpe(tw, radix) == nullptr, "radix %u was accepted", radix);
    CHECK(c->fpe_mac(tw, radix) == nullptr, "radix %u was accepted (authenticated variant)", radix);
    unsigned ok = 2 + (unsigned)t.below(35); auto f = c->fpe(tw, ok); auto m = c->fpe_mac(tw, ok);
    CHECK(f && m, "radix %u was refused", ok); WBCRYPTO_fpe_free(f); WBCRYPTO_fpe_mac_free(m);
    t.label("radix limits"); t.describe(fmt("radix %u refused", radix)); return;
  }
  // the whole domain of one radix and length
  bool f3 = t.coin(); unsigned radix = draw_radix(t); size_t mx = asan_build() ? 300 : 700, n = 2; uint64_t N = (uint64_t)radix * radix;
  if (N > 1400) { radix = 10; N = 100; }
  while (N * radix <= mx && t.chance(3, 4)) { N *= radix; n++; }
  CipherP c = draw_cipher(t, {K_AES, K_AES, K_SM4, K_WBAES});
  Bytes tw = draw_tweak(t), tw2 = tw; std::string how;
  switch (t.below(4)) {   // a different tweak
    case 0: if (tw2.empty()) tw2.push_back(1); else tw2[t.below(f3 ? std::min<size_t>(8, tw2.size()) : tw2.size())] ^= (uint8_t)(1 << t.below(8)); how = "one bit of the tweak"; break;
    case 1: tw2.push_back((uint8_t)(1 + t.below(255))); how = "one more tweak byte"; break;
    case 2: if (tw2.empty()) tw2.push_back(9); else tw2.pop_back(); how = "one tweak byte less"; break;
    default: tw2 = t.bytes(tw.size()); how = "another tweak";
  }
  if (f3) { Bytes a = tw, b = tw2; a.resize(8, 0); b.resize(8, 0); if (a == b) tw2 = tw; }
  FpeFn E = f3 ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff1_encrypt, D = f3 ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff1_decrypt;
  auto f = c->fpe(tw, radix), g = c->fpe(tw2, radix); CHECK(f && g, "initialisation failed");
  std::set<std::string> seen; bool differ = false; uint64_t fixed = 0;
  for (uint64_t v = 0; v < N; v++) {
    Num x(n); uint64_t z = v; for (size_t i = n; i-- > 0;) { x[i] = (unsigned)(z % radix); z /= radix; }
    std::string s = num_to_str(x), y = call_fpe(E, f, s, false, "encryption");
    CHECK(seen.insert(y).second, "%s radix %u length %zu: two texts encrypt to '%s'", f3 ? "FF3" : "FF1", radix, n, y.c_str());
    CHECK(call_fpe(D, f, y, false, "decryption") == s, "%s radix %u length %zu: '%s' encrypts to '%s', which decrypts to something else", f3 ? "FF3" : "FF1", radix, n, s.c_str(), y.c_str());
    if (tw2 != tw && call_fpe(E, g, s, false, "encryption") != y) differ = true;
    fixed += s == y;
  }
  t.label(f3 ? "FF3 whole domain" : "FF1 whole domain"); t.describe(fmt("%s %s: all %llu texts of radix %u length %zu, %s", kind_name[c->kind], f3 ? "FF3" : "FF1", (unsigned long long)N, radix, n, tw2 == tw ? "same tweak" : how.c_str()));
  t.nontrivial(N >= 16);
  // below 60 elements two permutations may coincide on a domain by chance; from there on never
  if (tw2 != tw && N >= 60) { CHECK(differ, "%s radix %u length %zu: changing %s (%s -> %s) changes no ciphertext", f3 ? "FF3" : "FF1", radix, n, how.c_str(), hex(tw).c_str(), hex(tw2).c_str()); t.label("tweak dependence"); }
  if (N >= 60) CHECK(fixed < N / 2, "%s radix %u length %zu leaves %llu of %llu texts unchanged", f3 ? "FF3" : "FF1", radix, n, (unsigned long long)fixed, (unsigned long long)N);
  WBCRYPTO_fpe_free(f); WBCRYPTO_fpe_free(g);
}
PROPERTY("P22", "FPE permutes its domain", p22, "a domain of at least 16 texts was enumerated, or a radix outside 2..36 was offered", 60, 8);

// ---------------------------------------------------------------- P23
typedef int (*MacFn)(WBCRYPTO_fpe_mac_context *, const char *, char *);
struct MacRes { std::string text; Bytes tag; };
static MacRes call_mac(bool f3, bool enc, WBCRYPTO_fpe_mac_context *c, const std::string &in, bool inplace) {
  MacFn f = f3 ? (enc ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff3_gmac_decrypt) : (enc ? WBCRYPTO_ff1_cmac_encrypt : WBCRYPTO_ff1_cmac_decrypt);
  const char *what = f3 ? "FF3-GMAC" : "FF1-CMAC";
  Bytes ib(in.begin(), in.end()); ib.push_back(0);
  Buf b(ib), o(ib.size()), tg(16);
  char *out = inplace ? b.c() : o.c();
  int r = f(c, b.c(), out);
  CHECK(r == 1, "%s returned %d for '%s'", what, r, in.c_str());
  b.check("input text"); o.check("output text");
  if (!inplace) CHECK(b.get() == ib, "%s changed its input", what);
  CHECK(strnlen(out, in.size() + 1) == in.size(), "%s: %zu characters became %zu", what, in.size(), strnlen(out, in.size() + 1));
  size_t len = 77;
  r = f3 ? WBCRYPTO_ff3_gmac_finish(c, tg.c(), &len) : WBCRYPTO_ff1_cmac_finish(c, tg.c(), &len);
  CHECK(r == 1 && len == 16, "%s finish returned %d with a tag length of %zu", what, r, len);
  tg.check("tag");
  return {out, tg.get()};
}
static void long_ff1(Tape &t, int what, bool mac) {
  CipherP c = draw_cipher(t, {K_AES, K_SM4}); unsigned radix = what == 0 ? 30 + (unsigned)t.below(7) : what == 1 ? 2 : draw_radix(t);
  size_t n = what == 0 ? 14000 + t.below(3000) : what == 1 ? 66000 + t.below(3000) : 2 + t.below(50); bool enc = t.coin();
  Bytes tw = what == 2 ? Bytes() : draw_tweak(t); Rng g(t.u64());
  if (what == 2) { tw.resize((1u << 24) + t.below(1u << 20)); for (auto &b : tw) b = (uint8_t)g.next(); }
  Num x(n); for (auto &d : x) d = (unsigned)g.below(radix);
  std::string s = num_to_str(x), want = num_to_str(ff1(*c->ref, radix, tw, x, enc)), got;
  t.label(what == 2 ? "tweak of more than 2^24 bytes" : what == 1 ? "text of more than 2^16 characters" : "text needing more than 256 blocks of round output"); t.describe(fmt("%s %s radix %u length %zu tweak %zu", mac ? "FF1-CMAC" : "FF1", kind_name[c->kind], radix, n, tw.size()));
  if (mac) {
    auto m = c->fpe_mac(tw, radix); CHECK(m, "initialisation failed"); struct F { WBCRYPTO_fpe_mac_context *m; ~F() { WBCRYPTO_fpe_mac_free(m); } } f{m};
    MacRes a = call_mac(false, enc, m, s, false), b = call_mac(false, !enc, m, a.text, false); got = a.text;
    CHECK(b.text == s && a.tag == b.tag, "FF1-CMAC of %zu characters: the way back gives another text or tag", n);
  } else {
    auto m = c->fpe(tw, radix); CHECK(m, "initialisation failed"); struct F { WBCRYPTO_fpe_context *m; ~F() { WBCRYPTO_fpe_free(m); } } f{m};
    got = call_fpe(enc ? WBCRYPTO_ff1_encrypt : WBCRYPTO_ff1_decrypt, m, s, false, "FF1");
    CHECK(call_fpe(enc ? WBCRYPTO_ff1_decrypt : WBCRYPTO_ff1_encrypt, m, got, false, "FF1") == s, "FF1 of %zu characters: the way back gives another text", n);
  }
  size_t k = 0; while (k < n && got[k] == want[k]) k++;
  CHECK(k == n, "%s %s of %zu characters of radix %u with a tweak of %zu bytes differs from NIST SP 800-38G at character %zu", mac ? "FF1-CMAC" : "FF1", enc ? "encryption" : "decryption", n, radix, tw.size(), k);
}
static void p23(Tape &t) {
  if (!asan_build()) for (int w = 0; w < 3; w++) if (t.once(w, 4)) return long_ff1(t, w, true);
  bool f3 = t.coin(); const char *nm = f3 ? "FF3-GMAC" : "FF1-CMAC";
  CipherP c = draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4, K_USER}); unsigned radix = draw_radix(t);
  Bytes tw = draw_tweak(t);
  auto m = c->fpe_mac(tw, radix); CHECK(m, "initialisation failed");
  auto plain = c->fpe(tw, radix);
  int msgs = 1 + (int)t.below(3);
  struct Sealed { std::string pt, ct; Bytes tag; }; std::vector<Sealed> all;
  bool nt = false;
  for (int k = 0; k < msgs; k++) {
    bool conform; size_t n = draw_len(t, radix, f3, conform); if (asan_build()) n = std::min<size_t>(n, 150);
    Num x = draw_num(t, radix, n); std::string s = num_to_str(x);
    t.describe(fmt("%s %s radix %u length %zu tweak %zu", nm, kind_name[c->kind], radix, n, tw.size())); t.label(nm);
    bool encfirst = t.chance(3, 4);
    if (t.chance(1, 6)) { must_refuse(f3 ? (encfirst ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff3_gmac_decrypt) : (encfirst ? WBCRYPTO_ff1_cmac_encrypt : WBCRYPTO_ff1_cmac_decrypt), m, spoil(t, s, radix), radix, nm); t.label("character outside the radix"); }
    MacRes a = call_mac(f3, encfirst, m, s, t.chance(1, 4));
    std::vector<Blk> S;
    if (conform) {
      Num y = f3 ? ff3(*c->ref, radix, tw, x, encfirst, &S) : ff1(*c->ref, radix, tw, x, encfirst);
      CHECK(a.text == num_to_str(y), "%s %s with %s, radix %u, tweak %s: '%s' gives '%s', plain %s gives '%s'", nm, encfirst ? "encryption" : "decryption", c->desc().c_str(), radix, hex(tw).c_str(), s.c_str(), a.text.c_str(), f3 ? "FF3" : "FF1", num_to_str(y).c_str());
    }
    std::string p2 = call_fpe(f3 ? (encfirst ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff3_decrypt) : (encfirst ? WBCRYPTO_ff1_encrypt : WBCRYPTO_ff1_decrypt), plain, s, false, "plain variant");
    CHECK(p2 == a.text, "%s: '%s' gives '%s', without authentication it gives '%s'", nm, s.c_str(), a.text.c_str(), p2.c_str());
    if (f3 && conform) {   // tag = H*T xor sum of H*S_i
      Blk h = c->ref->E(Blk{}), T{}, want; memcpy(T.data(), tw.data(), std::min<size_t>(16, tw.size())); want = gf_mul(h, T);
      for (auto &q : S) { Blk z = gf_mul(h, q); for (int i = 0; i < 16; i++) want[i] ^= z[i]; }
      CHECK_EQ_BYTES(a.tag, Bytes(want.begin(), want.end()), fmt("%s tag of '%s' (%s)", nm, s.c_str(), encfirst ? "encrypting" : "decrypting"));
    }
    // the other direction returns the text and the same tag; also through a context of its own
    auto m2 = t.coin() ? c->fpe_mac(tw, radix) : m;
    MacRes b = call_mac(f3, !encfirst, m2, a.text, t.chance(1, 4));
    CHECK(b.text == s, "%s: '%s' -> '%s' -> '%s'", nm, s.c_str(), a.text.c_str(), b.text.c_str());
    CHECK(b.tag == a.tag, "%s radix %u: the tag of '%s' is %s when %s and %s when %s", nm, radix, s.c_str(), hex(a.tag).c_str(), encfirst ? "encrypting" : "decrypting", hex(b.tag).c_str(), encfirst ? "decrypting" : "encrypting");
    if (m2 != m) WBCRYPTO_fpe_mac_free(m2);
    std::string ct = encfirst ? a.text : s;
    bool big = conform && c->kind != K_USER && n * log2(radix) >= 44;   // below, a keyed 10-round network may legitimately repeat its inner values
    if (big) {
      nt = true;
      std::string bad = ct; size_t pos = t.below(n); unsigned d = (unsigned)(str_to_num(bad)[pos] + 1 + t.below(radix - 1)) % radix; bad[pos] = d < 10 ? '0' + d : 'a' + d - 10;
      MacRes q = call_mac(f3, false, m, bad, false);
      CHECK(q.tag != a.tag, "%s radix %u length %zu: the tag %s stays the same after character %zu of the ciphertext was altered", nm, radix, n, hex(a.tag).c_str(), pos);
      Bytes tw2 = tw; if (tw2.empty()) tw2.push_back(1); else tw2[t.below(f3 ? std::min<size_t>(16, tw2.size()) : tw2.size())] ^= (uint8_t)(1 << t.below(8));
      auto m3 = c->fpe_mac(tw2, radix); MacRes w = call_mac(f3, false, m3, ct, false); WBCRYPTO_fpe_mac_free(m3);
      CHECK(w.tag != a.tag, "%s: the tag stays the same under another tweak", nm);
      if (c->kind <= K_SM4) { Bytes k2 = ref_key(c->rawkey); k2[t.below(16)] ^= (uint8_t)(1 << t.below(8)); CipherP c2 = make_cipher(c->kind, k2, 1); auto m4 = c2->fpe_mac(tw, radix); MacRes v = call_mac(f3, false, m4, ct, false); WBCRYPTO_fpe_mac_free(m4); CHECK(v.tag != a.tag, "%s: the tag stays the same under another key", nm); }
    }
    all.push_back({encfirst ? s : a.text, ct, a.tag});
  }
  for (auto &z : all) {   // nothing the context did since changed what it computes
    MacRes b = call_mac(f3, true, m, z.pt, false);
    CHECK(b.text == z.ct && b.tag == z.tag, "%s: the same text gives another result later: '%s' %s, first '%s' %s", nm, b.text.c_str(), hex(b.tag).c_str(), z.ct.c_str(), hex(z.tag).c_str());
  }
  t.nontrivial(nt);
  WBCRYPTO_fpe_mac_free(m); WBCRYPTO_fpe_free(plain);
}
PROPERTY("P23", "authenticated format-preserving encryption", p23, "some text comes from a domain of at least 2^44 values, so alteration was tried", 600, 80);
