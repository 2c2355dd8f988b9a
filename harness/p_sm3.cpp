// P03 SM3
#include "lib.h"
#include <sys/mman.h>
static void p03(Tape &t) {
  size_t n;
  switch (t.below(5)) {
    case 0: n = t.below(200); break;
    case 1: n = 64 * t.below(20) + 54 + t.below(12); break;   // around the length field of the last block
    case 2: n = t.chance(1, 40) ? t.log_length(14, asan_build() ? 16 : 21) : t.length(thorough() ? 200000 : 20000); break;
    default: n = t.below(1500);
  }
  Bytes m = t.bytes(n), want = ref_sm3(m);
  size_t mis = t.chance(1, 4) ? t.below(8) : 0;
  Buf mb(m, mis);
  t.label(n < 64 ? "<64" : n < 1500 ? "<1500" : "long");
  { Buf d(32); int r = WBCRYPTO_sm3(mb.p(), n, d.p());
    CHECK(r == 1, "one-shot SM3 returned %d", r); d.check("sm3");
    CHECK_EQ_BYTES(d.get(), want, fmt("one-shot SM3 of %zu bytes", n)); }
  // chunked, two contexts interleaved, context used again
  WBCRYPTO_sm3_context c[2]; Bytes m2 = t.bytes(t.below(300)); Buf mb2(m2);
  memset(c, (int)t.below(256), sizeof c);
  int rounds = 1 + (int)t.below(2);
  std::string cuts;
  for (int k = 0; k < rounds; k++) {
    CHECK(WBCRYPTO_sm3_init(&c[0]) == 1 && WBCRYPTO_sm3_init(&c[1]) == 1, "sm3_init");
    size_t off = 0, off2 = 0; int chunks = 0;
    while (off < n || chunks < 2) {
      size_t k2 = 0;
      switch (t.below(5)) { case 0: k2 = t.below(4); break; case 1: k2 = 64 - off % 64; break; case 2: k2 = 64 * t.below(4); break; case 3: k2 = t.below(130); break; default: k2 = n - off; }
      if (chunks > 40) k2 = n - off;
      k2 = std::min(k2, n - off);
      CHECK(WBCRYPTO_sm3_update(&c[0], mb.p() + off, k2) == 1, "sm3_update");
      off += k2; chunks++; if (chunks < 12) cuts += fmt("%zu ", k2);
      size_t k3 = std::min<size_t>(t.below(70), m2.size() - off2);
      CHECK(WBCRYPTO_sm3_update(&c[1], mb2.p() + off2, k3) == 1, "sm3_update");
      off2 += k3;
    }
    CHECK(WBCRYPTO_sm3_update(&c[1], mb2.p() + off2, m2.size() - off2) == 1, "sm3_update");
    Buf d(32), d2(32);
    CHECK(WBCRYPTO_sm3_final(&c[0], d.p()) == 1, "sm3_final"); d.check("sm3_final");
    CHECK(WBCRYPTO_sm3_final(&c[1], d2.p()) == 1, "sm3_final");
    CHECK_EQ_BYTES(d.get(), want, fmt("SM3 of %zu bytes in chunks %s", n, cuts.c_str()));
    CHECK_EQ_BYTES(d2.get(), ref_sm3(m2), "SM3 of an interleaved second message");
  }
  CHECK_EQ_BYTES(mb.get(), m, "the message was modified");
  t.describe(fmt("len=%zu chunks=%s", n, cuts.c_str()));
  for (int one = 0; one < 2; one++) if (!asan_build() && t.once(1 + one, 2)) {   // as many bytes in one call
    size_t n = (1ull << 29) + t.below(200), head = t.below(130);
    uint8_t *p = (uint8_t *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { t.label("huge skipped"); break; }
    Bytes e = t.bytes(300), d(32); memcpy(p, e.data(), 150); memcpy(p + n - 150, e.data() + 150, 150);
    void *r = ref_sm3_new(); if (!one) ref_sm3_update(r, e.data(), head); ref_sm3_update(r, p, n);
    if (one) CHECK(WBCRYPTO_sm3(p, n, d.data()) == 1, "sm3");
    else { WBCRYPTO_sm3_context h; CHECK(WBCRYPTO_sm3_init(&h) == 1 && WBCRYPTO_sm3_update(&h, e.data(), head) == 1 && WBCRYPTO_sm3_update(&h, p, n) == 1 && WBCRYPTO_sm3_final(&h, d.data()) == 1, "sm3"); }
    munmap(p, n);
    t.label("longer than 2^32 bits in one call");
    CHECK_EQ_BYTES(d, ref_sm3_final(r), fmt("SM3 of %zu bytes given in one call", n));
  }
  // messages beyond 2^32 bits need the upper length word
  if (!asan_build() && (t.once(0, 2) || (t.chance(1, 60000u) && !t.nested))) {
    t.label("longer than 2^32 bits");
    Bytes chunk = t.bytes(1 << 20); size_t reps = 512 + t.below(4), tail = t.below(200);
    WBCRYPTO_sm3_context h; WBCRYPTO_sm3_init(&h); void *r = ref_sm3_new();
    for (size_t i = 0; i < reps; i++) { WBCRYPTO_sm3_update(&h, chunk.data(), chunk.size()); ref_sm3_update(r, chunk.data(), chunk.size()); }
    WBCRYPTO_sm3_update(&h, chunk.data(), tail); ref_sm3_update(r, chunk.data(), tail);
    Bytes d(32); WBCRYPTO_sm3_final(&h, d.data());
    CHECK_EQ_BYTES(d, ref_sm3_final(r), fmt("SM3 of %zu MiB + %zu bytes", reps, tail));
  }
}
PROPERTY("P03", "SM3", p03, "every case hashes a message in one call and in generated chunks with a second context interleaved", 10000, 1500, false, 120);
