// P32 independence of concurrent operations (threads on one shared key context: p32_shared in p_modes.cpp)
#include "file_common.h"
#include <atomic>
#include <thread>
#include <mutex>
#include <sched.h>
#include <unistd.h>
#include <mysql.h>
extern "C" {
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *); void fpe_deinit(UDF_INIT *); char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);
bool fpe5_init(UDF_INIT *, UDF_ARGS *, char *); void fpe5_deinit(UDF_INIT *); char *fpe5(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);
}
void p32_shared(Tape &t);
typedef std::string Str;
namespace {
// what one thread does: run() works on data of its own (or on a key context it only reads) and returns all results as a text.
// Table generation is randomised, but its results here (blocks, files) are not.
struct Task { Str name; std::function<Str()> run; int reps = 8; Str want; std::shared_ptr<void> keep; };
Str raw(const Bytes &b) { return Str(b.begin(), b.end()); }
std::vector<char> text(const Str &s) { std::vector<char> v(s.begin(), s.end()); v.push_back(0); return v; }
Str blocks(const Bytes &in, const std::function<int(const uint8_t *, uint8_t *)> &f) {
  Bytes o(in.size(), 0x5a); Str r;
  for (size_t i = 0; i + 16 <= in.size(); i += 16) r += (char)('0' + f(&in[i], &o[i]));
  return r + raw(o);
}
// key contexts that may be shared between the threads of one case
struct Shared { CipherP c; std::shared_ptr<WBCRYPTO_fpe_app_context> app; };

// var: the variant of the operation
Task make_task(Tape &t, int i, Shared &sh, int op, uint64_t var) {
  Task k; auto bit = [&](int n) { return (var >> n & 1) != 0; };
  switch (op) {
    case 0: case 8: {   // keying a context of its own again and again
      Bytes a = draw_key(t), b = draw_key(t), in = t.bytes(32); bool sm4 = bit(0); k.name = sm4 ? "keying SM4" : "keying AES"; k.reps = 300;
      if (sm4) { std::shared_ptr<WBCRYPTO_sm4_context> c(WBCRYPTO_sm4_context_init(), WBCRYPTO_sm4_context_free);
        k.run = [=] { Str r; for (auto *q : {&a, &b}) { WBCRYPTO_sm4_init_key(c.get(), q->data(), q->size());
          r += blocks(in, [&](const uint8_t *x, uint8_t *y) { return WBCRYPTO_sm4_encrypt(x, y, c.get()); }) + blocks(in, [&](const uint8_t *x, uint8_t *y) { return WBCRYPTO_sm4_decrypt(x, y, c.get()); }); } return r; };
      } else { std::shared_ptr<WBCRYPTO_aes_context> c(WBCRYPTO_aes_context_init(), WBCRYPTO_aes_context_free);
        k.run = [=] { Str r; for (auto *q : {&a, &b}) { WBCRYPTO_aes_init_key(c.get(), q->data(), q->size());
          r += blocks(in, [&](const uint8_t *x, uint8_t *y) { return WBCRYPTO_aes_encrypt(x, y, c.get()); }) + blocks(in, [&](const uint8_t *x, uint8_t *y) { return WBCRYPTO_aes_decrypt(x, y, c.get()); }); } return r; }; }
      break;
    }
    case 1: {   // CBC
      CipherP c = sh.c && t.coin() ? sh.c : draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4}); if (!sh.c) sh.c = c;
      Bytes iv = t.bytes(16), m = t.bytes(t.length(400)); bool dec = c->kind != K_WBAES; k.name = "CBC"; k.reps = 20;
      k.run = [=] { Bytes v = iv, o(m.size() + 16, 0), p(m.size() + 16, 0); size_t n = 0, u = 0; Str r;
        r += (char)('0' + c->cbc_enc(m.data(), m.size(), o.data(), o.size(), &n, v.data())); if (n > o.size()) return Str("too long"); r += raw(o);
        if (dec && n) { v = iv; r += (char)('0' + c->cbc_dec(o.data(), n, p.data(), p.size(), &u, v.data())); r += raw(p) + std::to_string(u); }
        return r + std::to_string(n); };
      break;
    }
    case 2: {   // parallel GCM (starts threads of its own)
      CipherP c = sh.c && t.coin() ? sh.c : draw_cipher(t, {K_AES, K_SM4, K_WBSM4}); if (!sh.c) sh.c = c;
      Bytes iv = t.bytes(12), m = t.bytes(t.length(1500)); bool enc = bit(0); k.name = "parallel GCM"; k.reps = 3;
      k.run = [=] { PlainDev d(*c); Bytes o(m.size()), tag(16); Str r; if (!d.g) return Str("no context");
        r += (char)('0' + d.setiv(iv.data(), iv.size())); r += (char)('0' + d.crypt(enc, true, m.data(), m.size(), o.data(), o.size())); r += (char)('0' + d.finish(tag.data(), 16)); return r + raw(o) + raw(tag); };
      break;
    }
    case 3: {   // authenticated FPE
      CipherP c = sh.c && t.coin() ? sh.c : draw_cipher(t, {K_AES, K_SM4, K_WBAES}); if (!sh.c) sh.c = c;
      bool f3 = bit(0), enc = bit(1); unsigned radix = 2 + (unsigned)t.below(35); Bytes tw = t.bytes(t.below(20));
      size_t n = 4 + t.below(20); Num x; Rng q(t.u64()); for (size_t j = 0; j < n; j++) x.push_back((unsigned)q.below(radix));
      Str s = num_to_str(x); k.name = f3 ? "FF3-GMAC" : "FF1-CMAC"; k.reps = 8;
      k.run = [=] { WBCRYPTO_fpe_mac_context *f = c->fpe_mac(tw, radix); if (!f) return Str("no context");
        auto in = text(s); std::vector<char> o(s.size() + 1), tag(16); size_t l = 0; Str r;
        r += (char)('0' + (f3 ? enc ? WBCRYPTO_ff3_gmac_encrypt(f, in.data(), o.data()) : WBCRYPTO_ff3_gmac_decrypt(f, in.data(), o.data()) : enc ? WBCRYPTO_ff1_cmac_encrypt(f, in.data(), o.data()) : WBCRYPTO_ff1_cmac_decrypt(f, in.data(), o.data())));
        r += (char)('0' + (f3 ? WBCRYPTO_ff3_gmac_finish(f, tag.data(), &l) : WBCRYPTO_ff1_cmac_finish(f, tag.data(), &l)));
        WBCRYPTO_fpe_mac_free(f); return r + Str(o.begin(), o.end()) + Str(tag.begin(), tag.end()) + std::to_string(l); };
      break;
    }
    case 4: {   // application helpers, on a shared or an own context
      std::shared_ptr<WBCRYPTO_fpe_app_context> a = sh.app;
      if (!a || t.coin()) {
        bool sm4 = t.coin(); Bytes key = t.bytes(16); Str ff = bit(0) ? "ff1" : "ff3", ci = sm4 ? "sm4" : "aes";
        a.reset(new WBCRYPTO_fpe_app_context, [sm4](WBCRYPTO_fpe_app_context *p) { if (sm4) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)p->cipher_ctx); else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)p->cipher_ctx); delete p; });
        memset(a.get(), 0, sizeof *a); CHECK(WBCRYPTO_fpe_app_init(a.get(), key.data(), 16, &ci[0], &ff[0]) == 1, "fpe_app_init");
        sh.app = a;
      }
      unsigned form = (unsigned)(var >> 8) % 3; bool smp = bit(1); Str s, sample; Rng q(t.u64());
      if (form < 2) { for (int j = 0; j < (form ? 18 : 11); j++) { s += (char)('0' + q.below(10)); sample += j > 2 ? '*' : s.back(); } }
      else for (int j = 0; j < 6; j++) { unsigned u = 0x4e00 + (unsigned)q.below(20000); Str c3; c3 += (char)(0xe0 | u >> 12); c3 += (char)(0x80 | (u >> 6 & 63)); c3 += (char)(0x80 | (u & 63)); s += c3; sample += j ? Str("*") : c3; }
      static const char *nm[] = {"phone", "idcard", "Chinese text"}; k.name = nm[form]; k.reps = 6;
      k.run = [=] { auto in = text(s), sm = text(sample); std::vector<char> o(s.size() + 1), p(s.size() + 1); auto c = a.get(); int x, y;
        if (smp) switch (form) {
          case 0: x = WBCRYPTO_fpe_encrypt_phone_with_sample(c, in.data(), o.data(), sm.data()); y = WBCRYPTO_fpe_decrypt_phone_with_sample(c, o.data(), p.data(), sm.data()); break;
          case 1: x = WBCRYPTO_fpe_encrypt_idcard_with_sample(c, in.data(), o.data(), sm.data()); y = WBCRYPTO_fpe_decrypt_idcard_with_sample(c, o.data(), p.data(), sm.data()); break;
          default: x = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(c, in.data(), o.data(), sm.data()); y = WBCRYPTO_fpe_decrypt_cn_utf8_with_sample(c, o.data(), p.data(), sm.data());
        } else switch (form) {
          case 0: x = WBCRYPTO_fpe_encrypt_phone(c, in.data(), o.data()); y = WBCRYPTO_fpe_decrypt_phone(c, o.data(), p.data()); break;
          case 1: x = WBCRYPTO_fpe_encrypt_idcard(c, in.data(), o.data()); y = WBCRYPTO_fpe_decrypt_idcard(c, o.data(), p.data()); break;
          default: x = WBCRYPTO_fpe_encrypt_cn_utf8(c, in.data(), o.data()); y = WBCRYPTO_fpe_decrypt_cn_utf8(c, o.data(), p.data());
        }
        return Str(o.begin(), o.end()) + Str(p.begin(), p.end()) + std::to_string(x) + std::to_string(y); };
      break;
    }
    case 5: {   // the MySQL function: one statement per thread
      bool v5 = bit(0); Rng q(t.u64()); std::vector<Str> rows; for (int j = 0; j < 3; j++) { Str s; for (int d = 0; d < 11; d++) s += (char)('0' + q.below(10)); rows.push_back(s); }
      k.name = "MySQL function"; k.reps = 5;
      k.run = [=] { UDF_INIT I; UDF_ARGS A; memset(&I, 0, sizeof I); memset(&A, 0, sizeof A); Item_result ty[2] = {STRING_RESULT, STRING_RESULT}; char maybe[2] = {1, 1}; Str mode = "phone", r;
        char *ptr[2] = {nullptr, &mode[0]}; unsigned long len[2] = {11, 5}; A.arg_count = 2; A.arg_type = ty; A.args = ptr; A.lengths = len; A.maybe_null = maybe; char msg[MYSQL_ERRMSG_SIZE];
        if ((v5 ? fpe5_init : fpe_init)(&I, &A, msg)) return Str("refused");
        for (auto &row : rows) { Str s = row; ptr[0] = &s[0]; char res[256], nul = 0, err = 0; unsigned long n = 0; char *o = (v5 ? fpe5 : fpe)(&I, &A, res, &n, &nul, &err);
          r += (o && n <= 11 ? Str(o, n) : Str("?")) + std::to_string(nul) + std::to_string(err); }
        (v5 ? fpe5_deinit : fpe_deinit)(&I); return r; };
      break;
    }
    case 6: {   // files of its own
      CipherP c = sh.c && t.coin() ? sh.c : draw_cipher(t, {K_AES, K_SM4}); if (!sh.c) sh.c = c;
      Bytes iv = t.bytes(12), m = t.bytes(file_length(t, 500)); Str d = scratch_dir() + "/t" + std::to_string(i); k.name = "file encryption"; k.reps = 3;
      write_file(d + ".in", m); k.keep.reset((void *)1, [d](void *) { for (const char *e : {".in", ".enc", ".dec"}) unlink((d + e).c_str()); });
      k.run = [=] { WBCRYPTO_gcmfile_context *g = c->gcmfile(); if (!g) return Str("no context"); Str a = d + ".in", b = d + ".enc", e = d + ".dec", r;
        r += (char)('0' + WBCRYPTO_gcmfile_setiv(g, iv.data(), iv.size())); r += (char)('0' + WBCRYPTO_gcmfile_encrypt(g, &a[0], &b[0]));
        r += (char)('0' + WBCRYPTO_gcmfile_setiv(g, iv.data(), iv.size())); r += (char)('0' + WBCRYPTO_gcmfile_decrypt(g, &b[0], &e[0]));
        Bytes x, y; read_file(b, x); read_file(e, y); WBCRYPTO_gcmfile_free(g); return r + raw(x) + raw(y); };
      break;
    }
    case 7: {   // generating white-box tables
      Bytes key = draw_key(t), in = t.bytes(64); int which = (int)((var >> 8) % 5), d = (int)t.below(3); bool enc = t.coin(); k.reps = 1;
      static const char *nm[] = {"generating white-box AES", "generating white-box SM4", "generating self-equivalence SM4", "generating white-box GCM with encodings", "generating white-box GCM with masks"}; k.name = nm[which];
      if (which == 4) {   // these tables cannot be released: each thread keeps one pair
        static Mask pair[4]; Mask *m = &pair[i & 3];
        if (!m->enc) { m->enc = WBCRYPTO_wbaes_wbgcm_mask_init_table(); m->dec = WBCRYPTO_wbaes_wbgcm_mask_init_table(); CHECK(m->enc && m->dec, "mask init_table"); }
        k.run = [=]() -> Str { WBCRYPTO_wbaes_wbgcm_mask_gen_table(m->enc, m->dec, key.data(), key.size()); MaskDev e(m, true), d(m, false); Bytes c(in.size()), p(in.size()), t1(16), t2(16);
          e.setiv(in.data(), 12); e.crypt(true, false, in.data(), in.size(), c.data(), c.size()); e.finish(t1.data(), 16); d.setiv(in.data(), 12); d.crypt(false, false, c.data(), c.size(), p.data(), p.size()); d.finish(t2.data(), 16);
          return raw(p) + (p == in ? " back" : " changed") + (t1 == t2 ? " same tag" : " other tag"); };
        break;
      }
      k.run = [=]() -> Str {
        if (which == 3) { EE e{}; e.ctx = (WBCRYPTO_wbaes_wbgcm_ee_context *)calloc(1, sizeof *e.ctx); WBCRYPTO_wbaes_wbgcm_ee_gen_table(e.ctx, key.data(), key.size()); Bytes o(in.size()), tag(16);
          { EEDev d(&e); d.setiv(in.data(), 12); d.crypt(true, false, in.data(), in.size(), o.data(), o.size()); d.finish(tag.data(), 16); } free(e.ctx); return raw(o) + raw(tag); }
        if (which == 0) { auto c = WBCRYPTO_wbaes_context_init(); int r = WBCRYPTO_wbaes_gen_table(c, key.data(), key.size()); Str s = blocks(in, [&](const uint8_t *x, uint8_t *y) { return WBCRYPTO_wbaes_encrypt(x, y, c); }); WBCRYPTO_wbaes_context_free(c); return s + std::to_string(r); }
        if (which == 1) { auto c = WBCRYPTO_wbsm4_context_init(enc, d); int r = WBCRYPTO_wbsm4_gen_table(c, key.data(), key.size()); Str s = blocks(in, [&](const uint8_t *x, uint8_t *y) { return enc ? WBCRYPTO_wbsm4_encrypt(x, y, c) : WBCRYPTO_wbsm4_decrypt(x, y, c); }); WBCRYPTO_wbsm4_context_free(c); return s + std::to_string(r); }
        auto c = WBCRYPTO_se_wbsm4_context_init(enc); int r = WBCRYPTO_se_wbsm4_gen_table(c, key.data(), key.size()); Str s = blocks(in, [&](const uint8_t *x, uint8_t *y) { return enc ? WBCRYPTO_se_wbsm4_encrypt(x, y, c) : WBCRYPTO_se_wbsm4_decrypt(x, y, c); }); WBCRYPTO_se_wbsm4_context_free(c); return s + std::to_string(r); };
      break;
    }
    case 9: {   // exporting one white-box SM4 key from several threads, importing it
      CipherP c = sh.c && sh.c->kind == K_WBSM4 ? sh.c : draw_cipher(t, {K_WBSM4}); sh.c = c; Bytes in = t.bytes(64); k.name = "key export and import"; k.reps = 1;
      k.run = [=] { char *ks = nullptr; Str r = std::to_string(WBCRYPTO_wbsm4_key2bytes((WBCRYPTO_wbsm4_context *)c->ctx, &ks)); if (!ks) return r;
        auto d = WBCRYPTO_wbsm4_context_init(1, 0); r += std::to_string(WBCRYPTO_wbsm4_bytes2key(d, ks)); free(ks);
        r += blocks(in, [&](const uint8_t *x, uint8_t *y) { return WBCRYPTO_wbsm4_encrypt(x, y, d); }); WBCRYPTO_wbsm4_context_free(d); return r; };
      break;
    }
    case 10: {   // matrix algebra
      M32 a, b; M64 e; M128 f; Rng q(t.u64()); for (auto &x : a.M) x = (uint32_t)q.next(); for (auto &x : e.M) x = q.next(); for (auto &x : f.M) x[0] = q.next(), x[1] = q.next();
      identityM32(&b); for (int s = 0; s < 200; s++) { unsigned x = (unsigned)q.below(32), y = (unsigned)q.below(32); if (x != y) b.M[x] ^= b.M[y]; }
      k.name = "matrix algebra"; k.reps = 20;
      k.run = [=] { Str r; auto put = [&](const void *p, size_t n) { r.append((const char *)p, n); }; M32 c, d; MatMulMatM32(a, b, &c); invsM32(b, &d); put(&c, sizeof c); put(&d, sizeof d); MattransM32(a, &c); put(&c, sizeof c);
        M64 g; MatMulMatM64(e, e, &g); put(&g, sizeof g); MattransM64(e, &g); put(&g, sizeof g); M128 h; MattransM128(f, &h); put(&h, sizeof h); r += std::to_string(isinvertM32(a)) + std::to_string(isinvertM64(e)); return r; };
      break;
    }
    case 12: {   // application contexts of its own, made again and again
      Bytes key = draw_key(t); bool sm4 = bit(0); Str ff = bit(1) ? "ff1" : "ff3", ci = sm4 ? "sm4" : "aes", s; Rng q(t.u64()); for (int j = 0; j < 11; j++) s += (char)('0' + q.below(10));
      k.name = "making application contexts"; k.reps = 60;
      k.run = [=] { WBCRYPTO_fpe_app_context c; memset(&c, 0, sizeof c); auto cn = text(ci), fn = text(ff), in = text(s); std::vector<char> o(s.size() + 1);
        Str r = std::to_string(WBCRYPTO_fpe_app_init(&c, key.data(), key.size(), cn.data(), fn.data())); r += std::to_string(WBCRYPTO_fpe_encrypt_phone(&c, in.data(), o.data()));
        if (sm4) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)c.cipher_ctx); else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)c.cipher_ctx);
        return r + Str(o.begin(), o.end()); };
      break;
    }
    case 13: {   // white-box GCM files
      std::shared_ptr<FileDev> f(draw_filedev(t, true)); Bytes iv = t.bytes(12), aad = t.bytes(t.below(20)), m = t.bytes(file_length(t, 500)); Str d = scratch_dir() + "/t" + std::to_string(i); k.name = "white-box GCM files"; k.reps = 3;
      write_file(d + ".in", m); k.keep.reset((void *)1, [d](void *) { for (const char *e : {".in", ".enc", ".dec"}) unlink((d + e).c_str()); });
      k.run = [=] { Str a = d + ".in", b = d + ".enc", e = d + ".dec", r; r += (char)('0' + f->begin(true, iv, aad)); r += (char)('0' + f->run(true, a, b)); r += (char)('0' + f->begin(false, iv, aad)); r += (char)('0' + f->run(false, b, e));
        Bytes x, y; read_file(b, x); read_file(e, y); return r + raw(x) + raw(y); };
      break;
    }
    default: {   // incremental hashing and the padding helpers
      Bytes m = t.bytes(t.length(700)); size_t cut = m.empty() ? 0 : t.below(m.size() + 1); k.name = "SM3 in pieces and padding"; k.reps = 40;
      k.run = [=] { WBCRYPTO_sm3_context c; Bytes o(32), p(m.size() + 32, 0), in = m; WBCRYPTO_sm3_init(&c); WBCRYPTO_sm3_update(&c, m.data(), cut); WBCRYPTO_sm3_update(&c, m.data() + cut, m.size() - cut); WBCRYPTO_sm3_final(&c, o.data());
        size_t n = WBCRYPTO_padding_pkcs7_merge(in.data(), in.size(), p.data()), l = n && n <= p.size() ? WBCRYPTO_padding_pkcs7_separate_length(p.data(), n) : 0; Bytes q(16); WBCRYPTO_key_padding_pkcs7(m.data(), m.size(), q.data());
        return raw(o) + raw(p) + raw(q) + std::to_string(n) + " " + std::to_string(l); };
    }
  }
  return k;
}
void p32(Tape &t) {
  if (t.coin()) return p32_shared(t);
  t.label("independent operations");
  int nt = 2 + (int)t.below(3); bool same = t.chance(3, 4); int op0 = (int)t.below(14); uint64_t var = t.u64(); bool vary = t.chance(1, 4);   // mostly the same operation in all threads
  Shared sh; std::vector<Task> T;
  for (int i = 0; i < nt; i++) { T.push_back(make_task(t, i, sh, same ? op0 : (int)t.below(14), same && !vary ? var : t.u64())); t.label(T.back().name); }
  Str names; for (auto &k : T) { k.want = k.run(); names += (names.empty() ? "" : ", ") + k.name; }
  t.describe(fmt("%d threads: %s", nt, names.c_str()));
  std::atomic<int> ready{0}, bad{-1};
  auto work = [&](int id) {
    Task &k = T[id]; ready++; for (int i = 0; i < 20000 && ready < nt; i++) if (i % 16 == 15) sched_yield();
    for (int r = 0; r < k.reps && bad < 0; r++) if (k.run() != k.want) bad = id;
  };
  Interleave pauses(t);
  std::vector<std::thread> th; for (int i = 0; i < nt; i++) th.emplace_back(work, i);
  for (auto &x : th) x.join();
  if (bad >= 0) {
    bool alone = T[bad].run() == T[bad].want;
    fail("%s in one of %d threads that work on data of their own (%s) gave another result than alone (alone again afterwards: %s)", T[bad].name.c_str(), nt, names.c_str(), alone ? "right" : "different too");
  }
}
}
PROPERTY("P32", "concurrent use", p32, "every case runs at least two threads at the same time", 500, 60, true, 90);
