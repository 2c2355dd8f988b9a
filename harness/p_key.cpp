// P26 white-box key export/import, P27 malformed key files, P28 padding and key store helpers
#include "file_common.h"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>

static void same_cipher(Tape &t, WBCRYPTO_wbsm4_context *x, bool enc, const Ref &r, const char *what) {
  Bytes in = t.bytes(16 * 6), out(16), want(16);
  for (int i = 0; i < 6; i++) {
    if (enc) { WBCRYPTO_wbsm4_encrypt(&in[16 * i], out.data(), x); r.enc(&in[16 * i], want.data()); }
    else { WBCRYPTO_wbsm4_decrypt(&in[16 * i], out.data(), x); r.dec(&in[16 * i], want.data()); }
    if (out != want) fail("%s: the context %ss %s to %s, SM4 under its key gives %s", what, enc ? "encrypt" : "decrypt", hex(&in[16 * i], 16).c_str(), hex(out).c_str(), hex(want).c_str());
  }
}
static void scribble(WBCRYPTO_wbsm4_context *c) {
  for (int i = 0; i < c->rounds; i++) for (int k = 0; k < 4; k++) { memset(c->CC[i][k], 0x5a, 1024); memset(c->DD[i][k], 0x5a, 1024); memset(c->Table[i][k], 0x5a, 1024); for (int j = 0; j < 3; j++) memset(c->MM[i][j][k], 0x5a, 1024); }
  memset(c->SE, 0x5a, sizeof c->SE); memset(c->FE, 0x5a, sizeof c->FE);
}
// with the same key and the same randomness the same bytes leave the process, whatever its memory held before
static void no_residue(Tape &t) {
  std::string d = fresh_dir(), p = d + "/key";
  Bytes key = draw_key(t); int enc = (int)t.below(2), dummy = t.coin() ? 0 : 1 + (int)t.below(4), fill = (int)t.below(256); uint32_t base = (uint32_t)t.u64();
  t.label("same randomness, other memory"); t.describe(fmt("exports of a key with %d dummy rounds, generated twice over different memory contents", dummy));
  bool again = t.coin(); Bytes former = draw_key(t);
  if (again) t.label("same randomness, context held another key");
  Bytes file[2], str[2];
  for (int i = 0; i < 2; i++) {
    fix_random(base, 0); fill_memory(fill ^ (i ? 0xff : 0), fill ^ (i ? 0xff : 0));
    Buf kb(key);
    WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(enc, dummy); CHECK(c, "context_init");
    struct Free { WBCRYPTO_wbsm4_context *c; ~Free() { drop(c); } } fr{c};
    if (again && i) {   // the second context was used with another key before; nothing of it may be left
      fix_random(base ^ 0x5bd1e995, 0);
      Buf fb(former); CHECK(WBCRYPTO_wbsm4_gen_table(c, fb.p(), former.size()) == 1, "gen_table of the former key");
      fix_random(base, 0);
    }
    CHECK(WBCRYPTO_wbsm4_gen_table(c, kb.p(), key.size()) == 1, "gen_table");
    CHECK(WBCRYPTO_wbsm4_key2file(c, (char *)p.c_str()) == 1 && read_file(p, file[i]), "key2file");
    char *ks = nullptr; CHECK(WBCRYPTO_wbsm4_key2bytes(c, &ks) == 1 && ks, "key2bytes");
    uint32_t n; memcpy(&n, ks, 4); if (n < 40) { free(ks); fail("the exported bytes state a length of %u", n); }
    str[i].assign((uint8_t *)ks, (uint8_t *)ks + n); free(ks);
  }
  auto cmp = [](const Bytes &a, const Bytes &b, const char *what) {
    CHECK(a.size() == b.size(), "%s: %zu and %zu bytes", what, a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) fail("%s: byte %zu of %zu depends on what the memory or the context held before, not only on key and randomness", what, i, a.size());
  };
  cmp(file[0], file[1], "key file"); cmp(str[0], str[1], "key bytes");
  clear_dir(d);
}
static void p26(Tape &t) {
  if (t.chance(1, 7)) return no_residue(t);
  std::string d = fresh_dir(), p = d + "/key", p2 = d + "/key2";
  bool many = t.chance(1, 12);
  CipherP c = many ? make_cipher(K_WBSM4, draw_key(t), 4 + (int)t.below(t.coin() ? 12 : 60)) : draw_cipher(t, {K_WBSM4});
  if (many) t.label("many dummy rounds");
  bool enc = !t.coin(), file = t.coin(); int td = t.chance(1, 10) ? (int)t.below(70) : draw_dummy(t); int tm = (int)t.below(2);
  auto *src = (WBCRYPTO_wbsm4_context *)(enc ? c->ctx : c->dctx);
  // the receiving context: any mode and number of dummy rounds, unkeyed or keyed with another key
  WBCRYPTO_wbsm4_context *dst = WBCRYPTO_wbsm4_context_init(tm, td);
  if (t.chance(1, 4)) { Bytes k2 = t.bytes(16); WBCRYPTO_wbsm4_gen_table(dst, k2.data(), 16); t.label("receiver was keyed"); }
  t.label(fmt("%s %s", file ? "file" : "bytes", enc ? "enc" : "dec"));
  t.label(td < c->dummy ? "receiver has fewer rounds" : td > c->dummy ? "receiver has more rounds" : "same rounds");
  t.describe(fmt("%s %s via %s into a context with %d dummy rounds", c->desc().c_str(), enc ? "enc" : "dec", file ? "file" : "bytes", td));
  int hops = 1 + (int)t.below(2);
  for (int h = 0; h < hops; h++) {
    if (file) {
      if (t.chance(1, 4)) write_file(p, t.bytes(t.below(3000000)));
      CHECK(WBCRYPTO_wbsm4_key2file(src, (char *)p.c_str()) == 1, "key2file failed");
      CHECK(WBCRYPTO_wbsm4_file2key(dst, (char *)p.c_str()) == 1, "file2key of an exported file failed");
    } else {
      char *ks = nullptr;
      CHECK(WBCRYPTO_wbsm4_key2bytes(src, &ks) == 1 && ks, "key2bytes failed");
      uint32_t n; memcpy(&n, ks, 4);
      Bytes copy((uint8_t *)ks, (uint8_t *)ks + n);   // as if sent to another process
      memset(ks, 0xee, n); free(ks);
      Buf kb(copy);
      CHECK(WBCRYPTO_wbsm4_bytes2key(dst, kb.c()) == 1, "bytes2key failed");
      CHECK_EQ_BYTES(kb.get(), copy, "bytes2key modified the stream");
    }
    CHECK(dst->rounds == src->rounds && dst->encmode == src->encmode, "imported rounds/mode %d/%d, exported %d/%d", dst->rounds, dst->encmode, src->rounds, src->encmode);
    same_cipher(t, dst, enc, *c->ref, "after import");
    same_cipher(t, src, enc, *c->ref, "the exporting context after export");
    // exporting the import yields the same file
    CHECK(WBCRYPTO_wbsm4_key2file(src, (char *)p.c_str()) == 1 && WBCRYPTO_wbsm4_key2file(dst, (char *)p2.c_str()) == 1, "key2file");
    Bytes a, b; read_file(p, a); read_file(p2, b);
    CHECK(a == b, "the key file of the imported context differs from the original's");
  }
  // the two contexts share nothing
  if (t.coin()) {
    Bytes k2 = t.bytes(16);
    CHECK(WBCRYPTO_wbsm4_gen_table(dst, k2.data(), 16) == 1, "gen_table in the imported context");
    Ref r2(REF_SM4, k2); same_cipher(t, dst, enc, r2, "imported context keyed again");
  } else scribble(dst);
  same_cipher(t, src, enc, *c->ref, "the exporting context after the import was overwritten");
  drop(dst); clear_dir(d);
}
PROPERTY("P26", "white-box key export and import", p26, "every case exports a key and either imports it and compares blocks and a second export, or compares the export with that of the same key and randomness over other memory contents or in a context that held another key", 200, 20);

static void p27(Tape &t) {
  std::string d = fresh_dir(), p = d + "/key";
  CipherP c = draw_cipher(t, {K_WBSM4});
  auto *src = (WBCRYPTO_wbsm4_context *)c->ctx;
  CHECK(WBCRYPTO_wbsm4_key2file(src, (char *)p.c_str()) == 1, "key2file");
  Bytes f; read_file(p, f); size_t full = f.size();
  // the victim is keyed; a refused import must leave it working
  CipherP v = make_cipher(K_WBSM4, t.bytes(16), (int)t.below(3));
  auto *dst = (WBCRYPTO_wbsm4_context *)v->ctx;
  std::string what;
  switch (t.below(9)) {
    case 0: { size_t k = t.coin() ? t.below(full) : t.below(64); f.resize(k); what = fmt("cut to %zu of %zu bytes", k, full); break; }
    case 1: { size_t k = full - 1 - t.below(200); f.resize(k); what = fmt("cut to %zu of %zu bytes", k, full); break; }
    case 2: { size_t i = t.below(16); f[i] ^= (uint8_t)(1 + t.below(255)); what = fmt("name byte %zu altered", i); break; }
    case 3: { int32_t r = (int32_t)t.u64(); r = (int32_t)(t.coin() ? r : (int)t.below(32)); if (r >= 32 && (r - 32) % 4 == 0 && 24 + 32768 + (int64_t)r * 24576 <= (int64_t)f.size()) discard(); memcpy(&f[16], &r, 4); what = fmt("round count %d", r); break; }
    case 4: { int32_t r = 33 + 4 * (int)t.below(8) + (int)t.below(3); memcpy(&f[16], &r, 4); what = fmt("round count %d", r); break; }
    case 5: { int32_t r = 32 + 4 * c->dummy + 4 * (1 + (int)t.below(20000)); memcpy(&f[16], &r, 4); what = fmt("round count %d needs more than the file has", r); break; }
    case 6: f.clear(); what = "empty file"; break;
    case 7: { f = t.bytes(t.below(3000)); if (f.size() >= 16) f[0] = 'X'; what = "arbitrary bytes"; break; }
    default: { f[t.below(16)] = t.coin() ? '\n' : 0; what = "newline or NUL in the name"; }
  }
  if (t.chance(1, 6) && what[0] == 'n') { f.resize(f.size() + t.below(100), 7); }
  write_file(p, f);
  t.label(what.substr(0, what.find_first_of("0123456789-")));
  t.describe(what);
  int r = WBCRYPTO_wbsm4_file2key(dst, (char *)p.c_str());
  CHECK(r == 0, "a key file that is damaged (%s) was accepted: returned %d", what.c_str(), r);
  same_cipher(t, dst, true, *v->ref, "context after a refused import");
  // the same context then accepts a good file
  CHECK(WBCRYPTO_wbsm4_key2file(src, (char *)p.c_str()) == 1 && WBCRYPTO_wbsm4_file2key(dst, (char *)p.c_str()) == 1, "a good key file is refused after a bad one");
  same_cipher(t, dst, true, *c->ref, "context after importing a good file");
  clear_dir(d);
}
PROPERTY("P27", "malformed key files", p27, "every case damages a key file so that it is not a complete export", 200, 20);

static void p28(Tape &t) {
  size_t n = t.coin() ? t.below(40) : t.length(600);
  Bytes m = t.bytes(n);
  if (n && t.coin()) m.back() = (uint8_t)t.below(20);
  switch (t.below(6)) {
    case 0: case 1: {
      bool z = t.coin(); Buf s(m), o(16, 0x3c);
      size_t r = z ? WBCRYPTO_key_padding_zeros(s.p(), n, o.p()) : WBCRYPTO_key_padding_pkcs7(s.p(), n, o.p());
      CHECK(r == 16, "key padding returned %zu", r); o.check("key padding");
      Bytes want = ref_key(m); if (z) for (size_t i = n; i < 16; i++) want[i] = 0;
      CHECK_EQ_BYTES(o.get(), want, fmt("%s key padding of %zu bytes", z ? "zero" : "PKCS7", n));
      CHECK_EQ_BYTES(s.get(), m, "key padding modified its input");
      t.label("key padding"); t.nontrivial(n != 16); break;
    }
    case 2: case 3: {
      Bytes want = pkcs7_merge(m); Buf s(m), o(want.size(), 0x3c);
      size_t l = WBCRYPTO_padding_pkcs7_merge_length(s.p(), n);
      CHECK(l == want.size(), "merge_length(%zu) = %zu, want %zu", n, l, want.size());
      size_t r = WBCRYPTO_padding_pkcs7_merge(s.p(), n, o.p());
      CHECK(r == want.size(), "merge(%zu) = %zu, want %zu", n, r, want.size()); o.check("merge");
      CHECK_EQ_BYTES(o.get(), want, fmt("PKCS7 padding of %zu bytes", n));
      CHECK_EQ_BYTES(s.get(), m, "padding modified its input");
      if (n % 16) {  // padded messages come back
        size_t sl = WBCRYPTO_padding_pkcs7_separate_length(o.p(), want.size());
        CHECK(sl == n, "separate_length of a padded message of %zu bytes = %zu", n, sl);
        Buf b(n, 0x3c); size_t sr = WBCRYPTO_padding_pkcs7_separate(o.p(), want.size(), b.p()); b.check("separate");
        CHECK(sr == n, "separate of a padded message of %zu bytes = %zu", n, sr);
        CHECK_EQ_BYTES(b.get(), m, "padding round trip");
      }
      t.label("message padding"); t.nontrivial(n % 16 != 0); break;
    }
    case 4: {
      switch (t.below(3)) { case 0: m.resize(t.below(18)); break; case 1: m.resize(n / 16 * 16); break; default: break; }   // the data may be shorter than its last byte says
      n = m.size(); if (n && t.chance(2, 3)) m.back() = (uint8_t)t.below(20);
      size_t p = n ? m.back() : 0, want = n == 0 ? 0 : p <= 16 && p <= n ? n - p : n;
      Buf s(m), o(want, 0x3c);
      size_t l = WBCRYPTO_padding_pkcs7_separate_length(s.p(), n), r = WBCRYPTO_padding_pkcs7_separate(s.p(), n, o.p());
      CHECK(l == want && r == want, "separating %zu bytes ending in %zu gives %zu / %zu, want %zu", n, p, l, r, want);
      o.check("separate"); CHECK_EQ_BYTES(o.get(), Bytes(m.begin(), m.begin() + want), "separated message");
      t.label("separation"); t.nontrivial(n > 0); break;
    }
    default: {
      std::string d = fresh_dir(), p = d + "/ks";
      if (t.chance(1, 2)) write_file(p, t.bytes(t.below(2000)));
      CHECK(WBCRYPTO_keystore_key_to_file(m.data(), n, (char *)p.c_str()) == 1, "key_to_file of %zu bytes failed", n);
      Bytes got; CHECK(read_file(p, got) && got == m, "key store file of %zu bytes has other contents (%zu bytes)", n, got.size());
      size_t k = t.chance(1, 3) ? t.below(n + 1) : n; Buf o(k, 0x3c);
      CHECK(WBCRYPTO_keystore_file_to_key(o.p(), k, (char *)p.c_str()) == 1, "file_to_key failed"); o.check("file_to_key");
      CHECK_EQ_BYTES(o.get(), Bytes(m.begin(), m.begin() + k), "key store round trip");
      // a whole keyed context survives the store
      if (t.chance(1, 3)) {
        CipherP c = draw_cipher(t, {K_AES, K_SM4, K_WBAES});
        size_t sz = c->kind == K_AES ? sizeof(WBCRYPTO_aes_context) : c->kind == K_SM4 ? sizeof(WBCRYPTO_sm4_context) : sizeof(WBCRYPTO_wbaes_context);
        void *x = malloc(sz); struct F { void *p; ~F() { free(p); } } fr{x};
        CHECK(WBCRYPTO_keystore_key_to_file(c->ctx, sz, (char *)p.c_str()) == 1 && WBCRYPTO_keystore_file_to_key(x, sz, (char *)p.c_str()) == 1, "key store of a context");
        Cipher y; y.kind = c->kind; y.ctx = x; Bytes in = t.bytes(16), o1(16), o2(16);
        y.enc(in.data(), o1.data()); c->ref->enc(in.data(), o2.data()); y.ctx = nullptr;
        CHECK_EQ_BYTES(o1, o2, fmt("%s context loaded from the key store", kind_name[c->kind]));
        t.label("context through the key store");
      }
      t.label("key store"); t.nontrivial(n > 0); clear_dir(d);
    }
  }
  t.describe(fmt("%zu bytes %s", n, hex(m, 20).c_str()));
}
PROPERTY("P28", "padding and key store", p28, "the input is not already of the target size", 5000, 500);
