#include "gcm_common.h"
#include <algorithm>
#include <sys/mman.h>

Bytes draw_iv(Tape &t, const Ref &r) {
  unsigned how = (unsigned)t.below(8);
  if (how > 5 && r.twisted() && r.E(Blk{}) == Blk{}) how = 3;   // with a hash key of zero no IV reaches a chosen counter
  switch (how) {
    case 0: case 1: case 2: t.label("iv 12"); return t.bytes(12);
    case 3: t.label("iv 16"); return t.bytes(16);
    case 4: t.label("iv 1..40"); return t.bytes(1 + t.below(40));
    case 5: if (t.chance(1, 12)) { t.label("iv above 500 bytes"); return t.bytes(t.log_length(9, asan_build() ? 14 : 17)); } t.label("iv long"); return t.bytes(1 + t.below(400));
    case 6: {  // the 32-bit counter wraps within the message
      t.label("iv counter wrap");
      Blk j; Bytes b = t.bytes(16); memcpy(j.data(), b.data(), 16);
      uint32_t c = 0xffffffffu - (uint32_t)t.below(20);
      j[12] = (uint8_t)(c >> 24); j[13] = (uint8_t)(c >> 16); j[14] = (uint8_t)(c >> 8); j[15] = (uint8_t)c;
      return gcm_iv_for_j0(r, j, t.bytes(16 * t.below(2)));
    }
    default: {  // a carry into the upper counter bytes
      t.label("iv counter carry");
      Blk j; Bytes b = t.bytes(16); memcpy(j.data(), b.data(), 16);
      int k = (int)t.below(3);
      uint32_t c = (k == 0 ? 0xffu : k == 1 ? 0xffffu : 0xffffffu) - (uint32_t)t.below(8);
      if (t.coin()) c |= 0x5a000000u;
      j[12] = (uint8_t)(c >> 24); j[13] = (uint8_t)(c >> 16); j[14] = (uint8_t)(c >> 8); j[15] = (uint8_t)c;
      return gcm_iv_for_j0(r, j, t.bytes(16 * t.below(2)));
    }
  }
}
Bytes draw_aad(Tape &t) {
  if (!t.coin()) return t.bytes(0);
  if (t.chance(1, 60)) { t.label("aad above 500 bytes"); return t.bytes(t.log_length(9, asan_build() ? 14 : 17)); }
  return t.bytes(t.length(300));
}

const MaskTable *identity_mask() {
  static MaskTable *m = nullptr;
  if (!m) { m = new MaskTable; for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) m->fwd[i][v] = m->inv[i][v] = (uint8_t)v; }
  return m;
}
static Bytes make_tag(const Ref &r, const Blk &j0, const Bytes &aad, const Bytes &ct) {
  Blk h = r.E(Blk{}), s = ghash(h, aad, ct), e = r.E(j0);
  Bytes tag(16); for (int i = 0; i < 16; i++) tag[i] = s[i] ^ e[i];
  return tag;
}
void model_encrypt(const Ref &r, const MaskTable *m, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag) {
  Blk j0 = gcm_j0(r, iv);
  ct = gcm_ctr(r, j0, pt);
  for (size_t i = 0; i < ct.size(); i++) ct[i] = m->fwd[i % 16][ct[i]];
  tag = make_tag(r, j0, aad, ct);
}
void model_decrypt(const Ref &r, const MaskTable *m, const Bytes &iv, const Bytes &aad, const Bytes &ct, Bytes &pt, Bytes &tag) {
  Blk j0 = gcm_j0(r, iv);
  Bytes u = ct;
  for (size_t i = 0; i < u.size(); i++) u[i] = m->inv[i % 16][u[i]];
  pt = gcm_ctr(r, j0, u);
  tag = make_tag(r, j0, aad, ct);
}

struct Live {
  GcmDev *d; int state = 0;   // 0 = needs an IV, 1 = before the data, 2 = in the data, 3 = last partial block done
  bool enc = true; Bytes iv, aad, in, want, tag; size_t off = 0;
};
void gcm_history(Tape &t, const Ref &r, const MaskTable *m, const std::vector<GcmDev *> &devs, size_t messages, size_t maxlen) {
  std::vector<Live> L; for (auto *d : devs) { Live l; l.d = d; L.push_back(l); }
  size_t finished = 0, started = 0, steps = 0;
  size_t longer = 0;   // one message of the history is long
  for (int w = 0; w < 5; w++) if (!asan_build() && t.once(w, 6)) longer = 17 + w;
  if (!longer && t.chance(1, thorough() ? 60 : 200)) longer = asan_build() ? 12 : 10 + t.below(thorough() ? 13 : 8);
  std::string trace;
  auto tr = [&](const std::string &s) { if (trace.size() < 400) trace += s + " "; };
  while (finished < messages && steps++ < 400) {
    size_t w = t.below(L.size());
    Live &l = L[w];
    if (l.state == 0) {
      l.enc = !t.coin();
      if (!l.d->can(l.enc)) l.enc = !l.enc;
      l.iv = draw_iv(t, r); l.aad = draw_aad(t);
      l.in = t.bytes(longer ? t.log_length((unsigned)longer, (unsigned)longer) : t.length(maxlen)); l.off = 0;
      if (longer) { t.label(fmt("a message of about 2^%zu bytes", longer)); longer = 0; }
      if (l.enc) model_encrypt(r, m, l.iv, l.aad, l.in, l.want, l.tag);
      else model_decrypt(r, m, l.iv, l.aad, l.in, l.want, l.tag);
      Buf ib(l.iv);
      int rc = l.d->setiv(ib.p(), l.iv.size());
      CHECK(rc == 1, "setiv of %zu bytes returned %d", l.iv.size(), rc);
      CHECK_EQ_BYTES(ib.get(), l.iv, "the caller's IV was modified");
      if (!l.aad.empty() || t.coin()) {
        Buf ab(l.aad); rc = l.d->aad(ab.p(), l.aad.size()); CHECK(rc == 1, "aad returned %d", rc);
        CHECK_EQ_BYTES(ab.get(), l.aad, "the caller's AAD was modified");
      }
      tr(fmt("[%zu:%s iv%zu aad%zu len%zu]", w, l.enc ? "E" : "D", l.iv.size(), l.aad.size(), l.in.size()));
      l.state = 1; started++;
      continue;
    }
    size_t left = l.in.size() - l.off;
    unsigned act = (unsigned)t.below(12);
    if (act == 11 && finished + 1 < messages) { l.state = 0; tr(fmt("%zu:abandon", w)); t.label("message abandoned"); continue; }
    if (act == 10 && left > 0) {  // too small an output: refused, and the message goes on as if not asked
      size_t n = 1 + t.below(left), cap = t.below(n);
      bool par = l.d->has_par() && t.coin();
      Buf ib(Bytes(l.in.begin() + l.off, l.in.begin() + l.off + n)), ob(cap, 0x3c);
      int rc = l.d->crypt(l.enc, par, ib.p(), n, ob.p(), cap);
      CHECK(rc == 0, "%s of %zu bytes into %zu bytes returned %d", l.enc ? "encrypt" : "decrypt", n, cap, rc);
      ob.check("refused call");
      t.label("refused call in the middle"); tr(fmt("%zu:refused", w));
      continue;
    }
    if (left == 0 && act < 8) {
      size_t tl = t.chance(1, 3) ? t.below(17) : 16;
      Buf tb(tl, 0x11);
      int rc = l.d->finish(tb.p(), tl);
      CHECK(rc == 1, "finish returned %d", rc);
      tb.check("tag");
      Bytes want(l.tag.begin(), l.tag.begin() + tl);
      if (tb.get() != want) fail("tag of message %zu (%s, iv %s, aad %s, %zu bytes): got %s, want %s; history %s", finished, l.enc ? "encrypt" : "decrypt",
                                 hex(l.iv, 20).c_str(), hex(l.aad, 20).c_str(), l.in.size(), hex(tb.get()).c_str(), hex(want).c_str(), trace.c_str());
      finished++; l.state = 0; tr(fmt("%zu:tag%zu", w, tl));
      continue;
    }
    // next chunk: whole blocks, only the last one may be short
    size_t n;
    switch (t.below(4)) {
      case 0: n = 16; break;
      case 1: n = 16 * (1 + t.below(8)); break;
      case 2: n = 0; break;
      default: n = left;
    }
    if (n > left) n = left;
    if (n % 16 && n != left) n = left;
    bool par = l.d->has_par() && t.coin(), inplace = t.coin();
    size_t mis = t.chance(1, 4) ? t.below(8) : 0, extra = t.chance(1, 4) ? t.below(40) : 0;
    Bytes in(l.in.begin() + l.off, l.in.begin() + l.off + n), want(l.want.begin() + l.off, l.want.begin() + l.off + n);
    Buf ib(in, mis), ob(n + extra, 0x3c, mis);
    int rc = l.d->crypt(l.enc, par, ib.p(), n, inplace ? ib.p() : ob.p(), inplace ? n : n + extra);
    CHECK(rc == 1, "%s%s of %zu bytes returned %d", par ? "parallel " : "", l.enc ? "encrypt" : "decrypt", n, rc);
    ib.check("input"); ob.check("output");
    Bytes got = inplace ? ib.get() : ob.get(n);
    if (got != want) fail("%s%s%s at offset %zu, %zu bytes: got %s, want %s (iv %s); history %s", par ? "parallel " : "", l.enc ? "encrypt" : "decrypt", inplace ? " in place" : "", l.off, n,
                          hex(got, 64).c_str(), hex(want, 64).c_str(), hex(l.iv, 40).c_str(), trace.c_str());
    if (!inplace) {
      CHECK_EQ_BYTES(ib.get(), in, "the input was modified");
      Bytes all = ob.get(); for (size_t i = n; i < all.size(); i++) CHECK(all[i] == 0x3c, "wrote %zu bytes past the message into the output", i - n + 1);
    }
    tr(fmt("%zu:%s%zu%s", w, par ? "p" : "s", n, inplace ? "i" : ""));
    l.off += n; l.state = 2;
  }
  t.label(fmt("messages %zu", std::min<size_t>(finished, 6)));
  t.describe(trace);
  t.nontrivial(finished > 0);
}

// An IV, or associated data, of more than 2^32 bits: zeros with a generated end, so that the reference needs only that end.
void huge_field(Tape &t, const Ref &r, const MaskTable *m, GcmDev &d, bool iv_) {
  size_t tail = 16 + t.below(33), n = (1ull << 29) + 16 * t.below(3) + tail;
  uint8_t *p = (uint8_t *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { t.label("huge skipped"); return; }
  Bytes e = t.bytes(tail), in = t.bytes(t.length(100)), want, tag, got(in.size()), gt(16), iv = t.bytes(12); e[0] |= 1;
  memcpy(p + n - tail, e.data(), tail);
  Blk h = r.E(Blk{}), y{}, len{};
  for (size_t i = (n - tail) / 16 * 16; i < n; i += 16) { for (size_t k = 0; k < 16 && i + k < n; k++) y[k] ^= p[i + k]; y = gf_mul(y, h); }
  for (int i = 0; i < 8; i++) len[15 - i] = (uint8_t)((uint64_t)n * 8 >> 8 * i);
  if (iv_) {
    for (int i = 0; i < 16; i++) y[i] ^= len[i];
    Bytes same = gcm_iv_for_j0(r, gf_mul(y, h), {});   // a short IV with the same first counter
    model_encrypt(r, m, same, {}, in, want, tag);
    CHECK(d.setiv(p, n) == 1, "setiv");
  } else {
    model_encrypt(r, m, iv, {}, in, want, tag);
    for (size_t i = 0; i < want.size(); i += 16) { for (size_t k = 0; k < 16 && i + k < want.size(); k++) y[k] ^= want[i + k]; y = gf_mul(y, h); }
    for (int i = 0; i < 8; i++) { y[i] ^= len[8 + i]; y[15 - i] ^= (uint8_t)((uint64_t)want.size() * 8 >> 8 * i); }
    y = gf_mul(y, h); Blk b = r.E(gcm_j0(r, iv)); for (int i = 0; i < 16; i++) tag[i] = y[i] ^ b[i];
    CHECK(d.setiv(iv.data(), 12) == 1 && d.aad(p, n) == 1, "setiv, aad");
  }
  munmap(p, n);
  CHECK(d.crypt(true, false, in.data(), in.size(), got.data(), got.size()) == 1, "encrypt");
  CHECK(d.finish(gt.data(), 16) == 1, "finish");
  t.label(iv_ ? "iv longer than 2^32 bits" : "aad longer than 2^32 bits");
  CHECK_EQ_BYTES(got, want, fmt("ciphertext with %zu bytes of %s", n, iv_ ? "iv" : "aad"));
  CHECK_EQ_BYTES(gt, tag, fmt("tag with %zu bytes of %s", n, iv_ ? "iv" : "aad"));
}
