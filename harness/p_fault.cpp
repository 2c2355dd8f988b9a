// P36 a failing block function is never taken for success
#include "file_common.h"
#include <atomic>
#include <algorithm>

long heap_blocks() __attribute__((weak));   // p_life.cpp
namespace {
// a block function of the caller's that fails at chosen calls
struct Faulty {
  Ref *ref; int mode = 0;                    // 0 never, 1 one call, 2 from a call on, 3 some calls
  uint64_t at = 0, seed = 0; int leaves = 0; // what a failing call leaves in the output: nothing, zeros, garbage, the right block
  std::atomic<uint64_t> calls{0}, failed{0};
  void arm(int m, uint64_t k) { mode = m; at = k; calls = 0; failed = 0; }
  int run(bool enc, const uint8_t *in, uint8_t *out) {
    uint64_t n = calls++;
    Blk b; if (enc) ref->enc(in, b.data()); else ref->dec(in, b.data());
    bool bad = mode == 1 ? n == at : mode == 2 ? n >= at : mode == 3 ? mix64(seed, n) % (at + 2) == 0 : false;
    if (!bad) { memcpy(out, b.data(), 16); return 1; }
    failed++;
    if (leaves == 1) memset(out, 0, 16);
    if (leaves == 2) { Rng g(seed ^ n); for (int i = 0; i < 16; i++) out[i] = (uint8_t)g.next(); }
    if (leaves == 3) memcpy(out, b.data(), 16);
    return 0;
  }
};
}
extern "C" {
static int faulty_enc(const unsigned char in[16], unsigned char out[16], const void *key) { return ((Faulty *)key)->run(true, in, out); }
static int faulty_dec(const unsigned char in[16], unsigned char out[16], const void *key) { return ((Faulty *)key)->run(false, in, out); }
}

// One operation: op() runs it from the start and returns what the library answered; good() is called after it answered 1 and compares its results.
static void judge(Tape &t, Faulty &f, const std::string &what, const std::function<bool()> &op, const std::function<void()> &good, bool par = false) {
  auto run = [&](const char *when, bool was) {
    bool ok = op(); uint64_t bad = f.failed;
    CHECK(ok || bad, "%s %s: reported failure although no call of the block function failed", what.c_str(), when);
    CHECK(!ok || !bad, "%s %s: reported success although %llu of %llu calls of the block function failed", what.c_str(), when, (unsigned long long)bad, (unsigned long long)f.calls.load());
    if (ok) good();
    (void)was; return bad > 0;
  };
  f.arm(0, 0); run("without a fault", false);
  uint64_t n = f.calls;
  int mode = 1 + (int)t.below(3); uint64_t k = t.below(n + 1), near = t.below(3);
  if (near == 1) k = 0; else if (near == 2 && n) k = n - 1;
  if (mode == 3) k = t.below(n + 1);
  f.leaves = (int)t.below(4); f.seed = t.u64();
  t.describe(fmt("%s: %s %llu of %llu", what.c_str(), mode == 1 ? "failing call" : mode == 2 ? "failing from call" : "failing one call in", (unsigned long long)k + (mode == 3 ? 2 : 0), (unsigned long long)n));
  f.arm(mode, k); bool hit = run("with a fault", true);
  if (hit) {
    t.label("fault reached"); t.nontrivial();
    if (!par && heap_blocks) {   // failing again and again keeps nothing
      f.arm(mode, k); op(); long h = heap_blocks();
      for (int i = 0; i < 3; i++) { f.arm(mode, k); op(); }
      long h2 = heap_blocks();
      CHECK(h2 < h + 3, "%s with a fault: three more failing calls hold %ld more blocks of memory", what.c_str(), h2 - h);
    }
  }
  f.arm(0, 0); run("after the fault was gone", false);
}
static Bytes whole_block_safe(Bytes m) { if (!m.empty() && m.size() % 16 == 0) m.back() |= 0x80; return m; }   // keeps clear of the finding CBC-ALIGNED
static void p36(Tape &t) {
  Bytes key = t.bytes(16); Ref ref(REF_AES, key); Ref::Twist w; ref.twist(w);   // usable from several threads
  Faulty f; f.ref = &ref;
  t.nontrivial(false);
  switch (t.below(8)) {
    case 0: {   // CBC
      bool enc = t.coin(); Bytes iv = t.bytes(16), m = whole_block_safe(t.bytes(t.length(200))), pad = pkcs7_merge(m), ct = cbc_encrypt_raw(ref, iv, pad);
      const Bytes &in = enc ? m : ct, &want = enc ? ct : pad;
      std::unique_ptr<Buf> ob; size_t use = 0; bool place = t.coin(); if (place) t.label("CBC in place");
      judge(t, f, fmt("CBC %s of %zu bytes%s", enc ? "encryption" : "decryption", in.size(), place ? " in place" : ""), [&] {
        Buf ib(in), vb(iv); ob.reset(new Buf(want.size())); use = 0; uint8_t *src = ib.p();
        if (place) { if (!in.empty()) memcpy(ob->p(), in.data(), in.size()); src = ob->p(); }
        int r = enc ? WBCRYPTO_cbc128_encrypt(src, in.size(), ob->p(), want.size(), &use, &f, vb.p(), faulty_enc)
                    : WBCRYPTO_cbc128_decrypt(src, in.size(), ob->p(), want.size(), &use, &f, vb.p(), faulty_dec);
        ib.check("in"); ob->check("out"); vb.check("iv");
        return r == 1;
      }, [&] { CHECK_EQ_BYTES(ob->get(enc ? ct.size() : m.size()), enc ? ct : m, "CBC result"); CHECK(use == (enc ? ct.size() : m.size()), "CBC length %zu", use); });
      break;
    }
    case 1: {   // GCM and file contexts: creation
      bool file = t.coin(); void *g = nullptr;
      judge(t, f, file ? "creating a file context" : "creating a GCM context", [&] {
        g = file ? (void *)WBCRYPTO_gcmfile_init(&f, faulty_enc) : (void *)WBCRYPTO_gcm_init(&f, faulty_enc);
        return g != nullptr;
      }, [&] { if (file) WBCRYPTO_gcmfile_free((WBCRYPTO_gcmfile_context *)g); else WBCRYPTO_gcm_free((WBCRYPTO_gcm_context *)g); });
      break;
    }
    case 2: case 3: case 4: {   // GCM messages, serial and parallel
      auto g = WBCRYPTO_gcm_init(&f, faulty_enc); CHECK(g, "gcm_init");
      struct Free { WBCRYPTO_gcm_context *g; ~Free() { WBCRYPTO_gcm_free(g); } } fr{g};
      bool par = t.coin(); int msgs = 1 + (int)t.below(2);
      for (int k = 0; k < msgs; k++) {
        bool enc = t.coin(); Bytes iv = draw_iv(t, ref), aad = draw_aad(t), in = t.bytes(t.length(par ? 1500 : 300)), want, tag;
        if (enc) model_encrypt(ref, identity_mask(), iv, aad, in, want, tag); else model_decrypt(ref, identity_mask(), iv, aad, in, want, tag);
        size_t cut = t.coin() ? 16 * t.below(in.size() / 16 + 1) : 0; bool par0 = par && t.coin(), place = t.coin();
        std::unique_ptr<Buf> ob, tb;
        judge(t, f, fmt("%s GCM %s of %zu bytes in %d pieces", par ? "parallel" : "serial", enc ? "encryption" : "decryption", in.size(), cut ? 2 : 1), [&] {
          Buf vb(iv), ab(aad), ib(in); ob.reset(new Buf(in.size())); tb.reset(new Buf(16)); uint8_t *src = ib.p();
          if (place && !in.empty()) { memcpy(ob->p(), in.data(), in.size()); src = ob->p(); }
          PlainDev d(g); struct Keep { PlainDev &d; ~Keep() { d.g = nullptr; } } keep{d};
          // every call answers for the failures that happened in it
          auto step = [&](int r, uint64_t before, const char *n) {
            uint64_t bad = f.failed - before;
            CHECK((r == 1) == (bad == 0), "%s answered %d although %llu calls of the block function failed in it", n, r, (unsigned long long)bad);
            return r == 1;
          };
          uint64_t b = f.failed; bool ok = step(d.setiv(vb.p(), iv.size()), b, "setiv");
          if (!ok) return false;
          if (!aad.empty()) { b = f.failed; if (!step(d.aad(ab.p(), aad.size()), b, "aad")) return false; }
          if (cut) { b = f.failed; if (!step(d.crypt(enc, par0, src, cut, ob->p(), cut), b, "the first piece")) return false; }
          b = f.failed; if (!step(d.crypt(enc, par, src + cut, in.size() - cut, ob->p() + cut, in.size() - cut), b, "the last piece")) return false;
          b = f.failed; ok = step(d.finish(tb->p(), 16), b, "finish");
          ib.check("in"); ob->check("out"); tb->check("tag");
          return ok;
        }, [&] { CHECK_EQ_BYTES(ob->get(), want, "GCM result"); CHECK_EQ_BYTES(tb->get(), tag, "GCM tag"); }, par);
      }
      break;
    }
    case 5: {   // files
      auto g = WBCRYPTO_gcmfile_init(&f, faulty_enc); CHECK(g, "gcmfile_init");
      struct Free { WBCRYPTO_gcmfile_context *g; ~Free() { WBCRYPTO_gcmfile_free(g); } } fr{g};
      bool enc = t.coin(); Bytes iv = draw_iv(t, ref), aad = draw_aad(t), m = t.bytes(file_length(t, 700)), ct, tag;
      model_encrypt(ref, identity_mask(), iv, aad, m, ct, tag);
      Bytes whole = tag; for (int i = 0; i < 8; i++) whole.push_back((uint8_t)((uint64_t)m.size() >> 8 * i)); whole.insert(whole.end(), ct.begin(), ct.end());
      std::string dir = fresh_dir(), a = dir + "/in", b = dir + "/out";
      write_file(a, enc ? m : whole);
      judge(t, f, fmt("%s a file of %zu bytes", enc ? "encrypting" : "decrypting", m.size()), [&] {
        Buf vb(iv), ab(aad);
        if (WBCRYPTO_gcmfile_setiv(g, vb.p(), iv.size()) != 1) return false;
        CHECK(f.failed == 0, "setiv of a file context answered 1 although the block function failed");
        if (!aad.empty() && WBCRYPTO_gcmfile_aad(g, ab.p(), aad.size()) != 1) return false;
        int r = enc ? WBCRYPTO_gcmfile_encrypt(g, (char *)a.c_str(), (char *)b.c_str()) : WBCRYPTO_gcmfile_decrypt(g, (char *)a.c_str(), (char *)b.c_str());
        for (auto &x : list_dir(dir)) CHECK(x == "in" || x == "out", "a file %s stayed behind", x.c_str());
        return r == 1;
      }, [&] { Bytes o; CHECK(read_file(b, o), "no output file"); CHECK_EQ_BYTES(o, enc ? whole : m, "output file"); });
      clear_dir(dir);
      break;
    }
    default: {   // FF1, FF3 and the authenticated forms
      bool f3 = t.coin(), mac = t.coin(), enc = t.coin(); unsigned radix = 2 + (unsigned)t.below(35); Bytes tw = t.bytes(t.below(40));
      size_t n = 2 + t.below(f3 ? 35 : 60); Num x(n); Rng g(t.u64()); for (auto &d : x) d = (unsigned)g.below(radix);   // 36 characters conform to FF3 for every radix
      std::string in = num_to_str(x), want = num_to_str(f3 ? ff3(ref, radix, tw, x, enc) : ff1(ref, radix, tw, x, enc)), got; Bytes tag, tag0;
      Buf twb(tw); WBCRYPTO_fpe_context *c = nullptr; WBCRYPTO_fpe_mac_context *mc = nullptr;
      if (mac) { mc = WBCRYPTO_fpe_mac_init(twb.p(), tw.size(), radix, &f, faulty_enc); CHECK(mc, "fpe_mac_init"); }
      else { c = WBCRYPTO_fpe_init(twb.p(), tw.size(), radix, &f, faulty_enc); CHECK(c, "fpe_init"); }
      struct Free { WBCRYPTO_fpe_context *c; WBCRYPTO_fpe_mac_context *m; ~Free() { if (c) WBCRYPTO_fpe_free(c); if (m) WBCRYPTO_fpe_mac_free(m); } } fr{c, mc};
      judge(t, f, fmt("%s%s %s, radix %u, %zu characters", f3 ? "FF3" : "FF1", mac ? f3 ? "-GMAC" : "-CMAC" : "", enc ? "encryption" : "decryption", radix, n), [&] {
        Bytes ib(in.begin(), in.end()); ib.push_back(0); Buf b(ib), o(ib.size()); int r;
        if (mac) r = f3 ? (enc ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff3_gmac_decrypt)(mc, b.c(), o.c()) : (enc ? WBCRYPTO_ff1_cmac_encrypt : WBCRYPTO_ff1_cmac_decrypt)(mc, b.c(), o.c());
        else r = f3 ? (enc ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff3_decrypt)(c, b.c(), o.c()) : (enc ? WBCRYPTO_ff1_encrypt : WBCRYPTO_ff1_decrypt)(c, b.c(), o.c());
        b.check("input text"); o.check("output text");
        if (r != 1) return false;
        got = std::string(o.c(), strnlen(o.c(), ib.size()));
        if (mac && !f.failed) {
          Buf tb(16); size_t len = 0;
          r = f3 ? WBCRYPTO_ff3_gmac_finish(mc, tb.c(), &len) : WBCRYPTO_ff1_cmac_finish(mc, tb.c(), &len);
          tb.check("tag"); tag = tb.get(); if (r != 1) return false;
        }
        return true;
      }, [&] { CHECK(got == want, "the text is '%s', not '%s'", got.c_str(), want.c_str()); if (mac) { if (tag0.empty()) tag0 = tag; CHECK_EQ_BYTES(tag, tag0, "tag of the same text"); } });
    }
  }
}
PROPERTY("P36", "faulty block function", p36, "a failing call of the block function was reached inside the operation", 500, 60);
