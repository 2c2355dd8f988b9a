// P34 freeing a context erases and releases it, P35 repeated use accumulates nothing
#include "gcm_common.h"
#include <algorithm>
#include <atomic>
#include <dirent.h>
#include <malloc.h>
#include <set>

// ---------------------------------------------------------------- allocation accounting
// every allocation of the process passes here, those of OpenSSL and of the C library included
static size_t block_size(const void *p);
static void released(const void *p);          // called before a block goes back to the allocator
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_FUZZ)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
static size_t block_size(const void *p) { return __sanitizer_get_allocated_size(p); }
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
static std::atomic<long> blocks;
static int hooks = __sanitizer_install_malloc_and_free_hooks([](const volatile void *, size_t) { blocks++; }, [](const volatile void *p) { if (p) { blocks--; released((const void *)p); } });
#else
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
}
static size_t block_size(const void *p) { return malloc_usable_size((void *)p); }
static std::atomic<size_t> used; static std::atomic<long> blocks;
static inline void *took(void *p) { if (p) { used += malloc_usable_size(p); blocks++; } return p; }
static inline void gone(void *p) { if (p) { released(p); used -= malloc_usable_size(p); blocks--; } }
extern "C" {
void *malloc(size_t n) { return took(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return took(__libc_calloc(n, m)); }
void free(void *p) { gone(p); __libc_free(p); }
void *realloc(void *p, size_t n) {
  size_t o = p ? malloc_usable_size(p) : 0; if (p) released(p);
  void *q = __libc_realloc(p, n); if (p && (q || !n)) { used -= o; blocks--; } return took(q);
}
void *memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { *p = took(__libc_memalign(a, n)); return *p ? 0 : 12; }
}
static size_t in_use() { return used; }
#endif
static int open_files() {
  int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d); return n;
}

// regions whose release is being observed, and secrets no released block may contain
struct Watch { const uint8_t *p; size_t n; bool seen, clean; std::string what; };
struct Observed { std::vector<Watch> w; std::vector<Bytes> secrets; const char *leaked = nullptr; std::atomic_flag busy = ATOMIC_FLAG_INIT; };
static std::atomic<Observed *> watching;
static void released(const void *q) {
  Observed *o = watching; if (!o || !q) return;
  const uint8_t *b = (const uint8_t *)q; size_t n = block_size(q);
  while (o->busy.test_and_set()) {}
  for (auto &w : o->w) if (!w.seen && w.p >= b && w.p < b + n) {
    w.seen = true; w.clean = true;
    for (size_t i = 0; i < w.n; i++) if (w.p[i]) { w.clean = false; break; }
  }
  if (n <= 1 << 20) for (auto &s : o->secrets) if (memmem(b, n, s.data(), s.size())) o->leaked = "a block that still contains the key or its round keys was given back to the allocator";
  o->busy.clear();
}
struct Observe {   // for the duration of one library call
  Observed o;
  void begin() { watching = &o; }
  void stop() { watching = nullptr; }
  void end(const char *what) {
    watching = nullptr;
    if (o.leaked) fail("%s: %s", what, o.leaked);
    for (auto &w : o.w) {
      if (!w.seen) fail("%s: %s was not given back", what, w.what.c_str());
      if (!w.clean) fail("%s: %s was given back without having been erased", what, w.what.c_str());
    }
  }
  ~Observe() { watching = nullptr; }
  void add(const void *p, size_t n, const std::string &what) { o.w.push_back({(const uint8_t *)p, n, false, false, what}); }
};

// ---------------------------------------------------------------- P34
enum LK { L_AES, L_SM4, L_WBAES, L_WBSM4, L_SE, L_KEYS, L_GCM = L_KEYS, L_FILE, L_EE, L_MASK, L_FPE, L_FPEMAC, L_N };
static const char *lk_name[] = {"aes", "sm4", "wbaes", "wbsm4", "se-wbsm4", "gcm", "gcmfile", "wbgcm-ee", "wbgcm-mask", "fpe", "fpe-mac"};
struct Obj { LK k; void *p; bool keyed = false, enc = true; Bytes key; int parent = -1, users = 0, dummy = 0; std::unique_ptr<Ref> ref; EE *ee = nullptr; Mask *mask = nullptr; Bytes tw; unsigned radix = 10; bool alive = true; };
template <class G> static void add_gcm(Observe &ob, G *g, const char *n) {
  ob.add(g->HL, sizeof g->HL, fmt("the hash key of %s", n)); ob.add(g->HH, sizeof g->HH, fmt("the hash key of %s", n));
  ob.add(g->base_ectr, 16, fmt("the tag mask of %s", n)); ob.add(g->buf, 16, fmt("the hash state of %s", n)); ob.add(g->y, 16, fmt("the counter of %s", n));
}
static void add_regions(Observe &ob, const Obj &x) {
  switch (x.k) {
    case L_AES: ob.add(x.p, sizeof(WBCRYPTO_aes_context), "the AES key schedule"); break;
    case L_SM4: { auto c = (WBCRYPTO_sm4_context *)x.p; ob.add(c->rk, sizeof c->rk, "the SM4 key schedule"); break; }
    case L_WBAES: ob.add(x.p, sizeof(WBCRYPTO_wbaes_context), "the white-box AES tables"); break;
    case L_SE: { auto c = (WBCRYPTO_se_wbsm4_context *)x.p; ob.add(c->M, sizeof c->M, "M of SE-WBSM4"); ob.add(c->C, sizeof c->C, "C of SE-WBSM4"); ob.add(c->D, sizeof c->D, "D of SE-WBSM4"); ob.add(c->SE, sizeof c->SE, "SE of SE-WBSM4"); ob.add(c->FE, sizeof c->FE, "FE of SE-WBSM4"); break; }
    case L_WBSM4: {
      auto c = (WBCRYPTO_wbsm4_context *)x.p;
      ob.add(c->SE, sizeof c->SE, "SE of WBSM4"); ob.add(c->FE, sizeof c->FE, "FE of WBSM4");
      for (int i = 0; i < c->rounds; i++) for (int k = 0; k < 4; k++) {
        for (int j = 0; j < 3; j++) ob.add(c->MM[i][j][k], 1024, fmt("MM[%d][%d][%d] of WBSM4", i, j, k));
        ob.add(c->CC[i][k], 1024, fmt("CC[%d][%d] of WBSM4", i, k)); ob.add(c->DD[i][k], 1024, fmt("DD[%d][%d] of WBSM4", i, k)); ob.add(c->Table[i][k], 1024, fmt("Table[%d][%d] of WBSM4", i, k));
      }
      break; }
    case L_GCM: add_gcm(ob, (WBCRYPTO_gcm_context *)x.p, "the GCM context"); break;
    case L_FILE: ob.add(x.p, 0, "the file context"); add_gcm(ob, ((WBCRYPTO_gcmfile_context *)x.p)->gcm, "the file context"); break;
    case L_EE: add_gcm(ob, (WBCRYPTO_wbgcm_ee_context *)x.p, "the WBGCM-EE context"); break;
    case L_MASK: add_gcm(ob, (WBCRYPTO_wbgcm_mask_context *)x.p, "the WBGCM-Mask context"); break;
    // these hold no key material of their own
    case L_FPE: ob.add(x.p, 0, "the format-preserving context"); ob.add(((WBCRYPTO_fpe_context *)x.p)->tweak, 0, "the tweak"); break;
    default: { auto m = (WBCRYPTO_fpe_mac_context *)x.p; ob.add(m, 0, "the authenticated format-preserving context"); ob.add(m->fpe_ctx, 0, "its inner context"); ob.add(m->fpe_ctx->tweak, 0, "its tweak"); }
  }
}
static void lib_free(LK k, void *p) {
  switch (k) {
    case L_AES: WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)p); break;
    case L_SM4: WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)p); break;
    case L_WBAES: WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)p); break;
    case L_WBSM4: WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)p); break;
    case L_SE: WBCRYPTO_se_wbsm4_context_free((WBCRYPTO_se_wbsm4_context *)p); break;
    case L_GCM: WBCRYPTO_gcm_free((WBCRYPTO_gcm_context *)p); break;
    case L_FILE: WBCRYPTO_gcmfile_free((WBCRYPTO_gcmfile_context *)p); break;
    case L_EE: WBCRYPTO_wbaes_wbgcm_ee_free((WBCRYPTO_wbgcm_ee_context *)p); break;
    case L_MASK: WBCRYPTO_wbaes_wbgcm_mask_free((WBCRYPTO_wbgcm_mask_context *)p); break;
    case L_FPE: WBCRYPTO_fpe_free((WBCRYPTO_fpe_context *)p); break;
    default: WBCRYPTO_fpe_mac_free((WBCRYPTO_fpe_mac_context *)p);
  }
}
struct NoFree : PlainDev { explicit NoFree(WBCRYPTO_gcm_context *x) : PlainDev(x) {} ~NoFree() override { g = nullptr; } };
static std::vector<Bytes> secrets_of(const Bytes &raw) {   // the key and stretches of its key schedules, in the byte orders in use
  Bytes k = ref_key(raw); std::vector<Bytes> v{k}, out;
  auto words = [&](const uint32_t *w) { Bytes a(16), b(16), c(16); for (int i = 0; i < 4; i++) { memcpy(&a[4 * i], w + i, 4); memcpy(&b[4 * i], w + 3 - i, 4); for (int j = 0; j < 4; j++) c[4 * i + j] = (uint8_t)(w[i] >> (24 - 8 * j)); } v.push_back(a); v.push_back(b); v.push_back(c); };
  WBCRYPTO_sm4_context s4; WBCRYPTO_sm4_init_key(&s4, k.data(), 16); words(s4.rk); words(s4.rk + 14); words(s4.rk + 28);
  WBCRYPTO_aes_context ae; WBCRYPTO_aes_init_key(&ae, k.data(), 16); words((uint32_t *)ae.aes_key.rd_key + 4); words((uint32_t *)ae.aes_key.rd_key + 40); words((uint32_t *)ae.aes_dec_key.rd_key + 4);
  for (auto &b : v) if (std::set<uint8_t>(b.begin(), b.end()).size() >= 8) out.push_back(b);   // regular ones occur by chance
  return out;
}
static void p34(Tape &t) {
  std::vector<std::unique_ptr<Obj>> L;
  struct Clean { std::vector<std::unique_ptr<Obj>> &L; ~Clean() { watching = nullptr; for (int pass = 0; pass < 2; pass++) for (auto &o : L) if (o->alive && (o->k >= L_KEYS) == !pass) lib_free(o->k, o->p); } } clean{L};
  size_t nops = 3 + t.below(14); size_t frees = 0, after = 0; std::string hist; bool big = false;
  auto key_it = [&](Obj &o) {
    Bytes key = draw_key(t); Buf kb(key); Observe ob;
    ob.o.secrets = secrets_of(key);
    int r; bool e = o.enc; (void)e;
    ob.begin();
    switch (o.k) {
      case L_AES: r = WBCRYPTO_aes_init_key((WBCRYPTO_aes_context *)o.p, kb.p(), key.size()); break;
      case L_SM4: r = WBCRYPTO_sm4_init_key((WBCRYPTO_sm4_context *)o.p, kb.p(), key.size()); break;
      case L_WBAES: r = WBCRYPTO_wbaes_gen_table((WBCRYPTO_wbaes_context *)o.p, kb.p(), key.size()); break;
      case L_WBSM4: r = WBCRYPTO_wbsm4_gen_table((WBCRYPTO_wbsm4_context *)o.p, kb.p(), key.size()); break;
      default: r = WBCRYPTO_se_wbsm4_gen_table((WBCRYPTO_se_wbsm4_context *)o.p, kb.p(), key.size());
    }
    ob.stop();
    ob.end(fmt("keying a %s context", lk_name[o.k]).c_str());
    CHECK(r == 1, "keying failed"); o.key = key; o.keyed = true;
    o.ref.reset(new Ref(o.k == L_AES || o.k == L_WBAES ? REF_AES : REF_SM4, ref_key(key)));
  };
  auto use = [&](Obj &o) {
    if (o.k < L_KEYS) {
      if (!o.keyed) return false;
      Bytes in = t.bytes(16), want(16); Buf ib(in), ob(16);
      switch (o.k) {
        case L_AES: WBCRYPTO_aes_encrypt(ib.p(), ob.p(), (WBCRYPTO_aes_context *)o.p); break;
        case L_SM4: WBCRYPTO_sm4_encrypt(ib.p(), ob.p(), (WBCRYPTO_sm4_context *)o.p); break;
        case L_WBAES: WBCRYPTO_wbaes_encrypt(ib.p(), ob.p(), (WBCRYPTO_wbaes_context *)o.p); break;
        case L_WBSM4: if (o.enc) WBCRYPTO_wbsm4_encrypt(ib.p(), ob.p(), (WBCRYPTO_wbsm4_context *)o.p); else WBCRYPTO_wbsm4_decrypt(ib.p(), ob.p(), (WBCRYPTO_wbsm4_context *)o.p); break;
        default: if (o.enc) WBCRYPTO_se_wbsm4_encrypt(ib.p(), ob.p(), (WBCRYPTO_se_wbsm4_context *)o.p); else WBCRYPTO_se_wbsm4_decrypt(ib.p(), ob.p(), (WBCRYPTO_se_wbsm4_context *)o.p);
      }
      if (o.enc) o.ref->enc(in.data(), want.data()); else o.ref->dec(in.data(), want.data());
      CHECK_EQ_BYTES(ob.get(), want, fmt("%s context after other contexts were freed (%s)", lk_name[o.k], hist.c_str()));
      return true;
    }
    if (o.k == L_GCM || o.k == L_FILE) {
      WBCRYPTO_gcm_context *g = o.k == L_GCM ? (WBCRYPTO_gcm_context *)o.p : ((WBCRYPTO_gcmfile_context *)o.p)->gcm;
      NoFree d(g); gcm_history(t, *L[o.parent]->ref, identity_mask(), {&d}, 1, 60); return true;
    }
    if (o.k == L_EE) {
      auto g = (WBCRYPTO_wbgcm_ee_context *)o.p; Bytes iv = t.bytes(12), m = t.bytes(t.below(40)), ct, tag; Buf ivb(iv), mb(m), ob(m.size()), tb(16);
      CHECK(WBCRYPTO_wbaes_wbgcm_ee_setiv(g, ivb.p(), 12) == 1 && WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, mb.p(), m.size(), ob.p(), m.size()) == 1, "wbgcm-ee");
      WBCRYPTO_wbaes_wbgcm_ee_finish(g, tb.p(), 16); gcm_encrypt(*o.ee->ref, iv, {}, m, ct, tag);
      CHECK_EQ_BYTES(ob.get(), ct, "wbgcm-ee after other contexts were freed"); CHECK_EQ_BYTES(tb.get(), tag, "wbgcm-ee tag after other contexts were freed"); return true;
    }
    if (o.k == L_MASK) {
      auto g = (WBCRYPTO_wbgcm_mask_context *)o.p; Bytes iv = t.bytes(12), a = t.bytes(t.below(30)), ct, tag; Buf ivb(iv), ab(a), tb(16);
      CHECK(WBCRYPTO_wbaes_wbgcm_mask_setiv(g, ivb.p(), 12) == 1, "wbgcm-mask"); WBCRYPTO_wbaes_wbgcm_mask_aad(g, ab.p(), a.size());
      WBCRYPTO_wbaes_wbgcm_mask_finish(g, tb.p(), 16); gcm_encrypt(*o.mask->ref, iv, a, {}, ct, tag);
      CHECK_EQ_BYTES(tb.get(), tag, "wbgcm-mask tag after other contexts were freed"); return true;
    }
    Num x(2 + t.below(12)); for (auto &d : x) d = (unsigned)t.below(o.radix);
    std::string s = num_to_str(x); Bytes ib(s.begin(), s.end()); ib.push_back(0); Buf b(ib), ob(ib.size());
    int r = o.k == L_FPE ? WBCRYPTO_ff1_encrypt((WBCRYPTO_fpe_context *)o.p, b.c(), ob.c()) : WBCRYPTO_ff1_cmac_encrypt((WBCRYPTO_fpe_mac_context *)o.p, b.c(), ob.c());
    CHECK(r == 1 && num_to_str(ff1(*L[o.parent]->ref, o.radix, o.tw, x, true)) == ob.c(), "FF1 after other contexts were freed: '%s' -> '%s'", s.c_str(), ob.c());
    return true;
  };
  for (size_t n = 0; n < nops; n++) {
    unsigned op = (unsigned)t.below(8);
    std::vector<int> alive; for (size_t i = 0; i < L.size(); i++) if (L[i]->alive) alive.push_back((int)i);
    if (alive.empty() || op <= 2) {   // a new context
      std::unique_ptr<Obj> o(new Obj());
      std::vector<int> keys; for (int i : alive) if (L[i]->k < L_SE && L[i]->keyed && (L[i]->k != L_WBSM4 || L[i]->enc)) keys.push_back(i);
      if (!keys.empty() && t.chance(3, 5)) {
        o->k = (LK)(L_GCM + t.below(6));
        if (o->k == L_EE) { o->ee = draw_ee(t); o->p = WBCRYPTO_wbaes_wbgcm_ee_init(o->ee->ctx); }
        else if (o->k == L_MASK) { o->mask = draw_mask(t); o->p = WBCRYPTO_wbaes_wbgcm_mask_init(o->mask->enc); }
        else {
          o->parent = keys[t.below(keys.size())]; Obj &k = *L[o->parent]; k.users++;
          static const block128_f blk[] = {(block128_f)WBCRYPTO_aes_encrypt, (block128_f)WBCRYPTO_sm4_encrypt, (block128_f)WBCRYPTO_wbaes_encrypt, (block128_f)WBCRYPTO_wbsm4_encrypt};
          o->radix = 2 + (unsigned)t.below(35); o->tw = t.bytes(t.below(20)); Buf tb(o->tw);
          switch (o->k) {
            case L_GCM: o->p = WBCRYPTO_gcm_init(k.p, blk[k.k]); break;
            case L_FILE: o->p = WBCRYPTO_gcmfile_init(k.p, blk[k.k]); break;
            case L_FPE: o->p = WBCRYPTO_fpe_init(tb.p(), o->tw.size(), o->radix, k.p, blk[k.k]); break;
            default: o->p = WBCRYPTO_fpe_mac_init(tb.p(), o->tw.size(), o->radix, k.p, blk[k.k]);
          }
        }
      } else {
        // tables are expensive: at most one white-box context per case, seldom
        o->k = big ? (LK)t.below(2) : (LK)t.pick<int>({L_AES, L_SM4, L_AES, L_SM4, L_AES, L_SM4, L_WBAES, L_WBSM4, L_SE});
        big |= o->k >= L_WBAES; o->enc = o->k < L_WBSM4 || t.coin();
        switch (o->k) {
          case L_AES: o->p = WBCRYPTO_aes_context_init(); break;
          case L_SM4: o->p = WBCRYPTO_sm4_context_init(); break;
          case L_WBAES: o->p = WBCRYPTO_wbaes_context_init(); break;
          case L_WBSM4: o->p = WBCRYPTO_wbsm4_context_init(o->enc ? 1 : 0, draw_dummy(t)); break;
          default: o->p = WBCRYPTO_se_wbsm4_context_init(o->enc ? 1 : 0);
        }
        if (o->p && t.chance(7, 8)) key_it(*o);
      }
      CHECK(o->p, "%s: initialisation failed", lk_name[o->k]);
      hist += fmt("%s%s ", o->keyed || o->k >= L_KEYS ? "" : "unkeyed ", lk_name[o->k]); t.label(lk_name[o->k]);
      L.push_back(std::move(o));
    } else if (op <= 4) { if (use(*L[alive[t.below(alive.size())]]) && frees) after++; }
    else if (op == 5) {   // a context may be keyed again if nothing refers to it
      Obj &o = *L[alive[t.below(alive.size())]]; if (o.k < L_WBAES && !o.users) key_it(o);
    } else if (op == 6 && t.chance(1, 4)) { LK k = (LK)t.below(L_N); lib_free(k, nullptr); t.label("freeing NULL"); }
    else {
      Obj &o = *L[alive[t.below(alive.size())]]; if (o.users) continue;
      Observe ob; add_regions(ob, o);
      if (!o.key.empty()) ob.o.secrets = secrets_of(o.key);
      ob.begin(); lib_free(o.k, o.p); ob.stop(); o.alive = false; ob.end(fmt("freeing a %s context", lk_name[o.k]).c_str());
      if (o.parent >= 0) L[o.parent]->users--;
      hist += fmt("free:%s ", lk_name[o.k]); frees++; t.label(fmt("freed %s", lk_name[o.k]));
    }
  }
  for (auto &o : L) if (o->alive && use(*o) && frees) after++;
  // everything that is left, dependants first
  for (int pass = 0; pass < 2; pass++) for (auto &o : L) if (o->alive && (o->k >= L_KEYS) == !pass) {
    Observe ob; add_regions(ob, *o); ob.begin(); lib_free(o->k, o->p); ob.stop(); o->alive = false; ob.end(fmt("freeing a %s context", lk_name[o->k]).c_str()); frees++; t.label(fmt("freed %s", lk_name[o->k]));
  }
  t.describe(hist); t.nontrivial(frees > 1);
}
PROPERTY("P34", "freeing erases and releases", p34, "at least two contexts were freed", 500, 100);

// ---------------------------------------------------------------- P35
static void p35(Tape &t) {
  static const char *skip[] = {"P07", "P12", "P22", "P32", "P33", "P34", "P35", "P37"};
  std::vector<const Prop *> c;
  for (auto &p : all_props()) {
    bool s = false; for (auto x : skip) s |= !strcmp(p.id, x);
    if (!s) c.push_back(&p);
  }
  std::sort(c.begin(), c.end(), [](const Prop *a, const Prop *b) { return strcmp(a->id, b->id) < 0; });
  const Prop *p = c[t.below(c.size())];
  t.label(p->name);
  size_t p0 = *t.count; t.nested = true;
  try { p->fn(t); } catch (Fail &) { t.nontrivial(false); return; }
  size_t p1 = *t.count; if (p1 >= t.cap) discard();
  std::vector<uint64_t> tape(t.buf + p0, t.buf + p1);
  t.nontrivial(true);
  auto again = [&](int n) {
    for (int i = 0; i < n; i++) {
      Tape r; size_t cnt = 0; r.cap = 0; r.count = &cnt; r.replay = true; r.rp = tape.data(); r.rn = tape.size(); r.nested = true;
      try { p->fn(r); } catch (Fail &) {} catch (Discard &) {}
    }
  };
  again(2);
  const int K = 4;
  size_t m0 = in_use(); int f0 = open_files();
  again(K); size_t m1 = in_use(); int f1 = open_files();
  if (m1 < m0 + 16 * K && f1 < f0 + K) return;
  // grows: is it by something every time?
  const int L = 24;
  again(K); m0 = in_use(); f0 = open_files();
  again(L); m1 = in_use(); f1 = open_files();
  if (f1 >= f0 + L) fail("%s: every repetition of the same operations leaves files open: %d more after %d repetitions", p->name, f1 - f0, L);
  if (m1 >= m0 + 8 * L) fail("%s: every repetition of the same operations leaves memory allocated: %zu bytes more after %d repetitions", p->name, m1 - m0, L);
}
PROPERTY("P35", "repeated use accumulates nothing", p35, "every case runs one generated operation sequence of the other properties at least seven times", 100, 30);
long heap_blocks() { return blocks; }   // how many blocks are allocated; the size of a block may vary between runs, their number not
