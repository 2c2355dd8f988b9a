// P37 running out of memory is reported, never taken for success
#include "file_common.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <mysql.h>
#include <openssl/crypto.h>
#include <openssl/err.h>

long heap_blocks();   // p_life.cpp

// ---------------------------------------------------------------- allocation faults
// Only allocations made by the library's own objects (linked with --wrap) and by OpenSSL on its behalf
// pass here, not those of the C library, of libgomp or of this harness's containers.
namespace {
struct Faults {
  int mode = 0;                                // 0 none, 1 one allocation, 2 all from one on, 3 some
  uint64_t at = 0, seed = 0, calls = 0, failed = 0;
  bool hit() {
    uint64_t n = calls++;
    bool bad = mode == 1 ? n == at : mode == 2 ? n >= at : mode == 3 ? mix64(seed, n) % (at + 2) == 0 : false;
    if (bad) { failed++; errno = ENOMEM; }
    return bad;
  }
};
Faults F;
thread_local bool armed = false;              // set in the thread that is inside a library call
struct Arm { Arm() { armed = true; } ~Arm() { armed = false; } };
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return armed && F.hit() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return armed && F.hit() ? nullptr : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return armed && F.hit() ? nullptr : __real_realloc(p, n); }
static void *o_malloc(size_t n, const char *, int) { return armed && F.hit() ? nullptr : __real_malloc(n); }
static void *o_realloc(void *p, size_t n, const char *, int) { return armed && F.hit() ? nullptr : __real_realloc(p, n); }
static void o_free(void *p, const char *, int) { free(p); }
__attribute__((constructor(101))) static void hook_openssl() {
  if (!CRYPTO_set_mem_functions(o_malloc, o_realloc, o_free)) { fprintf(stderr, "cannot hook the allocations of OpenSSL\n"); abort(); }
}
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);
bool fpe5_init(UDF_INIT *, UDF_ARGS *, char *); void fpe5_deinit(UDF_INIT *); char *fpe5(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);
}
static void warm_up() {   // what OpenSSL sets up once per process
  static bool done; if (done) return;
  done = true;
  ERR_raise(ERR_LIB_BN, ERR_R_MALLOC_FAILURE); ERR_clear_error();
}
// a library call that may fail: f runs with the allocations under observation
#define LIB(T, e) ([&]() -> T { Arm arm_; return (e); }())

// op() runs the operation from the start and says whether the library reported success; good() checks its results.
// undo() gives back what a successful op() made.
static void judge(Tape &t, const std::string &what, const std::function<bool()> &op, const std::function<void()> &good, const std::function<void()> &undo = [] {}) {
  warm_up();
  auto run = [&](const char *when) {
    F.calls = F.failed = 0;
    bool ok = op(); ERR_clear_error();
    CHECK(ok || F.failed, "%s %s: reported failure although memory was available", what.c_str(), when);
    if (ok) { good(); undo(); }
    return ok;
  };
  F.mode = 0; run("with enough memory");
  uint64_t n = F.calls;
  if (!n) { t.label("no allocation"); return; }
  int mode = t.pick<int>({1, 1, 2, 3}); uint64_t near = t.below(4), k = t.below(n);
  if (near == 1) k = 0; else if (near == 2) k = n - 1; else if (near == 3) k = n < 12 ? k : k % 12;
  if (mode == 3) k = t.below(n + 1);
  F.seed = t.u64(); F.at = k;
  struct Off { ~Off() { F.mode = 0; armed = false; } } off;
  t.describe(fmt("%s: %s allocation %llu of %llu", what.c_str(), mode == 1 ? "refusing" : mode == 2 ? "refusing from" : "refusing one in", (unsigned long long)k + (mode == 3 ? 2 : 0), (unsigned long long)n));
  F.mode = mode; run("short of memory");
  if (F.failed) {
    t.nontrivial(); t.label("refused");
    for (int i = 0; i < 2; i++) run("short of memory");
    long h = heap_blocks();
    for (int i = 0; i < 3; i++) run("short of memory");
    long h2 = heap_blocks();
    CHECK(h2 < h + 3, "%s short of memory: three more attempts hold %ld more blocks of memory", what.c_str(), h2 - h);
  }
  F.mode = 0; run("with enough memory again");
}
static Bytes whole_block_safe(Bytes m) { if (!m.empty() && m.size() % 16 == 0) m.back() |= 0x80; return m; }   // keeps clear of the finding CBC-ALIGNED
static void block_check(const char *what, const Bytes &in, const std::function<int(uint8_t *, uint8_t *)> &f, const Ref &r, bool enc = true) {
  Bytes want(16); Buf ib(in), ob(16); if (enc) r.enc(in.data(), want.data()); else r.dec(in.data(), want.data());
  CHECK(f(ib.p(), ob.p()) == 1, "%s", what); CHECK_EQ_BYTES(ob.get(), want, what);
}

static void oom_contexts(Tape &t) {   // creating and keying cipher contexts
  Bytes key = draw_key(t), in = t.bytes(16); Buf kb(key); void *p = nullptr;
  bool enc = t.coin(), split = t.coin(); int d = draw_dummy(t);
  int k = (int)t.pick<int>({0, 1, 1, 2, 3, 3, 4});
  Ref aes(REF_AES, ref_key(key)), sm4(REF_SM4, ref_key(key));
  static const char *names[] = {"aes", "sm4", "wbaes", "wbsm4", "se-wbsm4"};
  auto init = [&]() -> void * { switch (k) { case 0: return WBCRYPTO_aes_context_init(); case 1: return WBCRYPTO_sm4_context_init(); case 2: return WBCRYPTO_wbaes_context_init(); case 3: return WBCRYPTO_wbsm4_context_init(enc, d); default: return WBCRYPTO_se_wbsm4_context_init(enc); } };
  auto keyit = [&](void *q) { switch (k) {
    case 0: return WBCRYPTO_aes_init_key((WBCRYPTO_aes_context *)q, kb.p(), key.size());
    case 1: return WBCRYPTO_sm4_init_key((WBCRYPTO_sm4_context *)q, kb.p(), key.size());
    case 2: return WBCRYPTO_wbaes_gen_table((WBCRYPTO_wbaes_context *)q, kb.p(), key.size());
    case 3: return WBCRYPTO_wbsm4_gen_table((WBCRYPTO_wbsm4_context *)q, kb.p(), key.size());
    default: return WBCRYPTO_se_wbsm4_gen_table((WBCRYPTO_se_wbsm4_context *)q, kb.p(), key.size()); } };
  auto freeit = [&](void *q) { switch (k) {
    case 0: WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)q); break; case 1: WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)q); break;
    case 2: WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)q); break; case 3: WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)q); break;
    default: WBCRYPTO_se_wbsm4_context_free((WBCRYPTO_se_wbsm4_context *)q); } };
  auto use = [&](void *q) { switch (k) {
    case 0: block_check("AES block", in, [&](uint8_t *a, uint8_t *b) { return WBCRYPTO_aes_encrypt(a, b, (WBCRYPTO_aes_context *)q); }, aes); break;
    case 1: block_check("SM4 block", in, [&](uint8_t *a, uint8_t *b) { return WBCRYPTO_sm4_encrypt(a, b, (WBCRYPTO_sm4_context *)q); }, sm4); break;
    case 2: block_check("white-box AES block", in, [&](uint8_t *a, uint8_t *b) { return WBCRYPTO_wbaes_encrypt(a, b, (WBCRYPTO_wbaes_context *)q); }, aes); break;
    case 3: block_check("white-box SM4 block", in, [&](uint8_t *a, uint8_t *b) { return enc ? WBCRYPTO_wbsm4_encrypt(a, b, (WBCRYPTO_wbsm4_context *)q) : WBCRYPTO_wbsm4_decrypt(a, b, (WBCRYPTO_wbsm4_context *)q); }, sm4, enc); break;
    default: block_check("SE white-box SM4 block", in, [&](uint8_t *a, uint8_t *b) { return enc ? WBCRYPTO_se_wbsm4_encrypt(a, b, (WBCRYPTO_se_wbsm4_context *)q) : WBCRYPTO_se_wbsm4_decrypt(a, b, (WBCRYPTO_se_wbsm4_context *)q); }, sm4, enc); } };
  if (k == 3 && t.chance(1, 2)) {   // the tables alone
    judge(t, fmt("creating a wbsm4 context with %d dummy rounds", d), [&] { p = LIB(void *, init()); return p != nullptr; }, [] {}, [&] { freeit(p); });
  } else if (split) {
    p = init(); CHECK(p, "context_init");
    struct Free { const std::function<void(void *)> f; void *p; ~Free() { f(p); } } fr{freeit, p};
    judge(t, fmt("keying a %s context", names[k]), [&] { return LIB(int, keyit(p)) == 1; }, [&] { use(p); });
  } else judge(t, fmt("creating and keying a %s context", names[k]), [&] {
    p = LIB(void *, init()); if (!p) return false;
    if (LIB(int, keyit(p)) == 1) return true;
    freeit(p); return false;
  }, [&] { use(p); }, [&] { freeit(p); });
}
static void oom_modes(Tape &t) {
  CipherP c = draw_cipher(t, {K_AES, K_SM4, K_AES, K_SM4, K_WBSM4, K_WBAES}); const Ref &r = *c->ref;
  switch (t.below(6)) {
    case 0: {
      bool enc = c->kind == K_WBAES || t.coin(); Bytes iv = t.bytes(16), m = whole_block_safe(t.bytes(t.length(200))), pad = pkcs7_merge(m), ct = cbc_encrypt_raw(r, iv, pad);
      const Bytes &in = enc ? m : ct; std::unique_ptr<Buf> ob; size_t use = 0;
      judge(t, fmt("%s CBC %s of %zu bytes", kind_name[c->kind], enc ? "encryption" : "decryption", in.size()), [&] {
        Buf ib(in), vb(iv); ob.reset(new Buf(pad.size())); use = 0;
        int q = enc ? LIB(int, c->cbc_enc(ib.p(), in.size(), ob->p(), pad.size(), &use, vb.p())) : LIB(int, c->cbc_dec(ib.p(), in.size(), ob->p(), pad.size(), &use, vb.p()));
        ib.check("in"); ob->check("out"); vb.check("iv"); return q == 1;
      }, [&] { CHECK_EQ_BYTES(ob->get(enc ? ct.size() : m.size()), enc ? ct : m, "CBC result"); });
      break;
    }
    case 1: {
      bool file = t.coin(); void *g = nullptr; Bytes iv = t.bytes(12), m = t.bytes(20), ct, tag;
      gcm_encrypt(r, iv, {}, m, ct, tag);
      judge(t, file ? "creating a file context" : "creating a GCM context", [&] {
        g = LIB(void *, file ? (void *)WBCRYPTO_gcmfile_init(c->ctx, c->block()) : (void *)WBCRYPTO_gcm_init(c->ctx, c->block())); return g != nullptr;
      }, [&] {
        WBCRYPTO_gcm_context *x = file ? ((WBCRYPTO_gcmfile_context *)g)->gcm : (WBCRYPTO_gcm_context *)g; Buf vb(iv), ib(m), ob(m.size()), tb(16);
        CHECK(WBCRYPTO_gcm_setiv(x, vb.p(), 12) == 1 && WBCRYPTO_gcm_encrypt(x, ib.p(), m.size(), ob.p(), m.size()) == 1 && WBCRYPTO_gcm_finish(x, tb.p(), 16) == 1, "GCM");
        CHECK_EQ_BYTES(ob.get(), ct, "ciphertext"); CHECK_EQ_BYTES(tb.get(), tag, "tag");
      }, [&] { if (file) WBCRYPTO_gcmfile_free((WBCRYPTO_gcmfile_context *)g); else WBCRYPTO_gcm_free((WBCRYPTO_gcm_context *)g); });
      break;
    }
    default: {
      auto g = c->gcm(); struct Free { WBCRYPTO_gcm_context *g; ~Free() { WBCRYPTO_gcm_free(g); } } fr{g};
      bool par = t.chance(4, 5), enc = t.coin(); Bytes iv = draw_iv(t, r), aad = draw_aad(t), in = t.bytes(t.length(par ? 900 : 300)), want, tag;
      if (enc) model_encrypt(r, identity_mask(), iv, aad, in, want, tag); else model_decrypt(r, identity_mask(), iv, aad, in, want, tag);
      size_t cut = t.coin() ? 16 * t.below(in.size() / 16 + 1) : 0; bool par0 = t.coin();
      std::unique_ptr<Buf> ob, tb;
      judge(t, fmt("%s %s GCM %s of %zu bytes in %d pieces", kind_name[c->kind], par ? "parallel" : "serial", enc ? "encryption" : "decryption", in.size(), cut ? 2 : 1), [&] {
        Buf vb(iv), ab(aad), ib(in); ob.reset(new Buf(in.size())); tb.reset(new Buf(16));
        PlainDev d(g); struct Keep { PlainDev &d; ~Keep() { d.g = nullptr; } } keep{d};
        if (LIB(int, d.setiv(vb.p(), iv.size())) != 1) return false;
        if (!aad.empty() && LIB(int, d.aad(ab.p(), aad.size())) != 1) return false;
        if (cut && LIB(int, d.crypt(enc, par && par0, ib.p(), cut, ob->p(), cut)) != 1) return false;
        if (LIB(int, d.crypt(enc, par, ib.p() + cut, in.size() - cut, ob->p() + cut, in.size() - cut)) != 1) return false;
        int q = LIB(int, d.finish(tb->p(), 16));
        ib.check("in"); ob->check("out"); tb->check("tag"); return q == 1;
      }, [&] { CHECK_EQ_BYTES(ob->get(), want, "GCM result"); CHECK_EQ_BYTES(tb->get(), tag, "GCM tag"); });
    }
  }
}
static void oom_wbgcm(Tape &t) {   // contexts of the white-box GCM variants
  if (t.coin()) {
    bool mask = t.coin(); EE *e = mask ? nullptr : draw_ee(t); Mask *m = mask ? draw_mask(t) : nullptr; bool enc = t.coin(); void *g = nullptr;
    Bytes iv = t.bytes(12), a = t.bytes(30), ct, tag; gcm_encrypt(mask ? *m->ref : *e->ref, iv, a, {}, ct, tag);
    judge(t, mask ? "creating a WBGCM-Mask context" : "creating a WBGCM-EE context", [&] {
      g = LIB(void *, mask ? (void *)WBCRYPTO_wbaes_wbgcm_mask_init(enc ? m->enc : m->dec) : (void *)WBCRYPTO_wbaes_wbgcm_ee_init(e->ctx)); return g != nullptr;
    }, [&] {
      Buf vb(iv), ab(a), tb(16);
      if (mask) { auto x = (WBCRYPTO_wbgcm_mask_context *)g; WBCRYPTO_wbaes_wbgcm_mask_setiv(x, vb.p(), 12); WBCRYPTO_wbaes_wbgcm_mask_aad(x, ab.p(), 30); WBCRYPTO_wbaes_wbgcm_mask_finish(x, tb.p(), 16); }
      else { auto x = (WBCRYPTO_wbgcm_ee_context *)g; WBCRYPTO_wbaes_wbgcm_ee_setiv(x, vb.p(), 12); WBCRYPTO_wbaes_wbgcm_ee_aad(x, ab.p(), 30); WBCRYPTO_wbaes_wbgcm_ee_finish(x, tb.p(), 16); }
      CHECK_EQ_BYTES(tb.get(), tag, "tag");
    }, [&] { if (mask) WBCRYPTO_wbaes_wbgcm_mask_free((WBCRYPTO_wbgcm_mask_context *)g); else WBCRYPTO_wbaes_wbgcm_ee_free((WBCRYPTO_wbgcm_ee_context *)g); });
  } else {
    WBCRYPTO_wbaes_wbgcm_mask_context *x = nullptr;
    judge(t, "creating the tables of WBGCM-Mask", [&] { x = LIB(WBCRYPTO_wbaes_wbgcm_mask_context *, WBCRYPTO_wbaes_wbgcm_mask_init_table()); return x != nullptr; },
          [&] { for (int i = 0; i < 16; i++) for (int j = 0; j < 256; j++) memset(x->GBOX_TypeIII[i][j], i + j, 256); }, [&] { drop(x); });
  }
}
static void oom_files(Tape &t) {
  auto f = draw_filedev(t, t.coin()); bool enc = t.coin(); Bytes iv = draw_iv(t, *f->ref), aad = draw_aad(t), m = t.bytes(file_length(t, 700)), ct, tag;
  model_encrypt(*f->ref, f->mask, iv, aad, m, ct, tag);
  Bytes whole = tag; for (int i = 0; i < 8; i++) whole.push_back((uint8_t)((uint64_t)m.size() >> 8 * i)); whole.insert(whole.end(), ct.begin(), ct.end());
  std::string dir = fresh_dir(), a = dir + "/in", b = dir + "/out"; write_file(a, enc ? m : whole);
  judge(t, fmt("%s %s a file of %zu bytes", f->name.c_str(), enc ? "encrypting" : "decrypting", m.size()), [&] {
    if (LIB(int, f->begin(enc, iv, aad)) != 1) return false;
    int q = LIB(int, f->run(enc, a, b));
    for (auto &x : list_dir(dir)) CHECK(x == "in" || x == "out", "a file %s stayed behind", x.c_str());
    return q == 1;
  }, [&] { Bytes o; CHECK(read_file(b, o), "no output file"); CHECK_EQ_BYTES(o, enc ? whole : m, "output file"); });
  clear_dir(dir);
}
static void oom_fpe(Tape &t) {
  CipherP ci = draw_cipher(t, {K_AES, K_SM4}); const Ref &ref = *ci->ref;
  bool f3 = t.coin(), mac = t.coin(), enc = t.coin(), split = t.chance(2, 3); unsigned radix = 2 + (unsigned)t.below(35); Bytes tw = t.bytes(t.below(40));
  size_t n = 2 + t.below(f3 ? 35 : t.chance(1, 8) ? 600 : 60); Num x(n); Rng g(t.u64()); for (auto &d : x) d = (unsigned)g.below(radix);
  std::string in = num_to_str(x), want = num_to_str(f3 ? ff3(ref, radix, tw, x, enc) : ff1(ref, radix, tw, x, enc)), got; Bytes tag, tag0;
  Buf twb(tw); WBCRYPTO_fpe_context *c = nullptr; WBCRYPTO_fpe_mac_context *mc = nullptr;
  auto init = [&] { if (mac) mc = LIB(WBCRYPTO_fpe_mac_context *, WBCRYPTO_fpe_mac_init(twb.p(), tw.size(), radix, ci->ctx, ci->block())); else c = LIB(WBCRYPTO_fpe_context *, WBCRYPTO_fpe_init(twb.p(), tw.size(), radix, ci->ctx, ci->block())); return c || mc; };
  auto done = [&] { if (c) WBCRYPTO_fpe_free(c); if (mc) WBCRYPTO_fpe_mac_free(mc); c = nullptr; mc = nullptr; };
  struct Free { const std::function<void()> f; ~Free() { f(); } } fr{done};
  if (split) { F.mode = 0; CHECK(init(), "fpe_init"); }
  judge(t, fmt("%s%s %s, radix %u, %zu characters%s", f3 ? "FF3" : "FF1", mac ? f3 ? "-GMAC" : "-CMAC" : "", enc ? "encryption" : "decryption", radix, n, split ? "" : " in a new context"), [&] {
    if (!split && !init()) return false;
    Bytes ib(in.begin(), in.end()); ib.push_back(0); Buf b(ib), o(ib.size()); int r;
    if (mac) r = LIB(int, f3 ? (enc ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff3_gmac_decrypt)(mc, b.c(), o.c()) : (enc ? WBCRYPTO_ff1_cmac_encrypt : WBCRYPTO_ff1_cmac_decrypt)(mc, b.c(), o.c()));
    else r = LIB(int, f3 ? (enc ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff3_decrypt)(c, b.c(), o.c()) : (enc ? WBCRYPTO_ff1_encrypt : WBCRYPTO_ff1_decrypt)(c, b.c(), o.c()));
    b.check("input text"); o.check("output text");
    if (r == 1) {
      got = std::string(o.c(), strnlen(o.c(), ib.size()));
      if (mac) { Buf tb(16); size_t len = 0; r = LIB(int, f3 ? WBCRYPTO_ff3_gmac_finish(mc, tb.c(), &len) : WBCRYPTO_ff1_cmac_finish(mc, tb.c(), &len)); tb.check("tag"); tag = tb.get(); }
    }
    if (r != 1 && !split) done();
    return r == 1;
  }, [&] { CHECK(got == want, "the text is '%s', not '%s'", got.c_str(), want.c_str()); if (mac) { if (tag0.empty()) tag0 = tag; CHECK_EQ_BYTES(tag, tag0, "tag of the same text"); } }, [&] { if (!split) done(); });
}
static void app_free(const std::string &ci, void *p) {
  if (ci == "sm4") WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)p); else if (ci == "wbsm4") WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)p);
  else if (ci == "wbaes") WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)p); else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)p);
}
static void oom_app(Tape &t) {   // application helpers: the answers must be those given with enough memory
  std::string ci = t.pick<const char *>({"sm4", "aes", "sm4", "des", "aes", "sm4", "wbsm4", "wbaes"}), ff = t.pick<const char *>({"ff1", "ff3"}); Bytes key = draw_key(t); Buf kb(key);
  int what = (int)t.below(3); bool enc = t.coin(), split = t.chance(1, 2); WBCRYPTO_fpe_app_context c; bool made = false; std::string text, got, want; size_t n;
  if (what == 2) { n = 1 + t.below(12); for (size_t i = 0; i < n; i++) { unsigned u = 0x4e00 + (unsigned)t.below(20736); text += (char)(0xe0 | u >> 12); text += (char)(0x80 | (u >> 6 & 0x3f)); text += (char)(0x80 | (u & 0x3f)); } }
  else { n = what ? 18 : 11; for (size_t i = 0; i < n; i++) text += (char)('0' + t.below(10)); if (what && t.coin()) text.back() = 'X'; }
  auto init = [&] { memset(&c, 0x5a, sizeof c); made = LIB(int, WBCRYPTO_fpe_app_init(&c, kb.p(), key.size(), (char *)ci.c_str(), (char *)ff.c_str())) == 1; return made; };
  auto done = [&] { if (made) app_free(ci, c.cipher_ctx); made = false; };
  struct Free { const std::function<void()> f; ~Free() { f(); } } fr{done};
  if (t.chance(1, 3)) {   // the context alone: what it encrypts is looked at once it is made
    ci = t.pick<const char *>({"wbsm4", "sm4", "wbsm4", "des"}); text = text.substr(0, 11); if (what == 2) text = "13800138000";
    judge(t, fmt("creating an application context with %s/%s", ci.c_str(), ff.c_str()), init, [&] {
      Bytes ib(text.begin(), text.end()); ib.push_back(0); Buf b(ib), o(11, 0);
      CHECK(WBCRYPTO_fpe_encrypt_phone(&c, b.c(), o.c()) == 1, "encrypt_phone"); Bytes g = o.get(); got.assign(g.begin(), g.end());
      if (want.empty()) want = got; CHECK(got == want, "the result differs from the one given by another context with the same key");
    }, done);
    return;
  }
  if (split) { F.mode = 0; CHECK(init(), "fpe_app_init"); }
  judge(t, fmt("%s %s with %s/%s%s", enc ? "encrypting" : "decrypting", what == 0 ? "a phone number" : what == 1 ? "an identity-card number" : "a Chinese text", ci.c_str(), ff.c_str(), split ? "" : " in a new context"), [&] {
    if (!split && !init()) return false;
    Bytes ib(text.begin(), text.end()); ib.push_back(0); Buf b(ib), o(text.size(), 0); int r;
    if (what == 0) r = LIB(int, enc ? WBCRYPTO_fpe_encrypt_phone(&c, b.c(), o.c()) : WBCRYPTO_fpe_decrypt_phone(&c, b.c(), o.c()));
    else if (what == 1) r = LIB(int, enc ? WBCRYPTO_fpe_encrypt_idcard(&c, b.c(), o.c()) : WBCRYPTO_fpe_decrypt_idcard(&c, b.c(), o.c()));
    else r = LIB(int, enc ? WBCRYPTO_fpe_encrypt_cn_utf8(&c, b.c(), o.c()) : WBCRYPTO_fpe_decrypt_cn_utf8(&c, b.c(), o.c()));
    b.check("text"); o.check("result"); Bytes g = o.get(); got.assign(g.begin(), g.end());
    if (!split && r != 1) done();
    return r == 1;
  }, [&] { if (want.empty()) want = got; CHECK(got == want, "the result differs from the one given with enough memory"); }, [&] { if (!split) done(); });
}
static void oom_udf(Tape &t) {
  bool v5 = t.coin(); auto f_init = v5 ? fpe5_init : fpe_init; auto f_run = v5 ? fpe5 : fpe; auto f_deinit = v5 ? fpe5_deinit : fpe_deinit;
  std::string mode = t.coin() ? "phone" : "idcard", text, got, want; for (size_t i = 0, n = mode == "phone" ? 11 : 18; i < n; i++) text += (char)('0' + t.below(10));
  judge(t, fmt("the MySQL %d function for %s", v5 ? 5 : 8, mode.c_str()), [&] {
    UDF_INIT ui; memset(&ui, 0, sizeof ui); UDF_ARGS ua; memset(&ua, 0, sizeof ua); char msg[512] = ""; unsigned char null = 0, err = 0; unsigned long len = 0; char result[256];
    Item_result ty[2] = {STRING_RESULT, STRING_RESULT}; char *av[2] = {&text[0], &mode[0]}; unsigned long al[2] = {text.size(), mode.size()}; char mn[2] = {0, 0};
    ua.arg_count = 2; ua.arg_type = ty; ua.args = av; ua.lengths = al; ua.maybe_null = mn;
    if (LIB(bool, f_init(&ui, &ua, msg))) return false;
    char *p = LIB(char *, f_run(&ui, &ua, result, &len, (char *)&null, (char *)&err));
    bool ok = p && !err && !null; if (ok) got.assign(p, len);
    CHECK(ok || err, "the function answered neither a value nor an error");
    f_deinit(&ui); return ok;
  }, [&] { if (want.empty()) want = got; CHECK(got == want, "the value differs from the one given with enough memory"); });
}
static void oom_keys(Tape &t) {   // moving white-box keys into contexts with another number of rounds
  CipherP c = draw_cipher(t, {K_WBSM4}); bool enc = t.coin(); int td = draw_dummy(t) + (int)t.below(3); auto *src = (WBCRYPTO_wbsm4_context *)(enc ? c->ctx : c->dctx);
  Bytes in = t.bytes(16); std::string d = fresh_dir(), p = d + "/key"; WBCRYPTO_wbsm4_context *dst = nullptr; bool file = t.coin();
  CHECK(WBCRYPTO_wbsm4_key2file(src, (char *)p.c_str()) == 1, "key2file");
  judge(t, fmt("importing a white-box key from %s into a context with %d dummy rounds", file ? "a file" : "bytes", td), [&] {
    dst = WBCRYPTO_wbsm4_context_init(!enc, td); CHECK(dst, "context_init");
    int r;
    if (file) r = LIB(int, WBCRYPTO_wbsm4_file2key(dst, (char *)p.c_str()));
    else {
      char *ks = nullptr; r = LIB(int, WBCRYPTO_wbsm4_key2bytes(src, &ks));
      if (r == 1) { CHECK(ks, "key2bytes"); r = LIB(int, WBCRYPTO_wbsm4_bytes2key(dst, ks)); free(ks); }
    }
    if (r != 1) { WBCRYPTO_wbsm4_context_free(dst); return false; }
    return true;
  }, [&] { block_check("imported key", in, [&](uint8_t *a, uint8_t *b) { return enc ? WBCRYPTO_wbsm4_encrypt(a, b, dst) : WBCRYPTO_wbsm4_decrypt(a, b, dst); }, *c->ref, enc); }, [&] { WBCRYPTO_wbsm4_context_free(dst); });
  block_check("exporting context", in, [&](uint8_t *a, uint8_t *b) { return enc ? WBCRYPTO_wbsm4_encrypt(a, b, src) : WBCRYPTO_wbsm4_decrypt(a, b, src); }, *c->ref, enc);
  clear_dir(d);
}
static void p37(Tape &t) {
  t.nontrivial(false);
  switch (t.below(12)) {
    case 0: case 1: t.label("contexts"); oom_contexts(t); break;
    case 2: case 3: t.label("modes"); oom_modes(t); break;
    case 4: t.label("white-box GCM"); oom_wbgcm(t); break;
    case 5: t.label("files"); oom_files(t); break;
    case 6: t.label("application helpers"); oom_app(t); break;
    case 7: t.label("MySQL function"); oom_udf(t); break;
    case 8: t.label("key transport"); oom_keys(t); break;
    default: t.label("format-preserving"); oom_fpe(t);
  }
}
PROPERTY("P37", "out of memory", p37, "at least one allocation was refused inside the operation", 300, 40);
