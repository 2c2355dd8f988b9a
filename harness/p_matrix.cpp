// P29 GF(2) matrix algebra against a naive bit matrix, P30 random invertible pairs and permutations
#include "lib.h"
#include <algorithm>
#include <bitset>
#include <cmath>
#include <set>

typedef std::bitset<128> Row;
struct Mx { int n; std::vector<Row> r; explicit Mx(int k) : n(k), r(k) {} bool operator==(const Mx &o) const { return n == o.n && r == o.r; } };
static Mx ident(int n) { Mx m(n); for (int i = 0; i < n; i++) m.r[i][i] = 1; return m; }
static Mx mx_mul(const Mx &a, const Mx &b) { Mx o(a.n); for (int i = 0; i < a.n; i++) for (int k = 0; k < a.n; k++) if (a.r[i][k]) o.r[i] ^= b.r[k]; return o; }
static Row mx_apply(const Mx &a, const Row &x) { Row y; for (int i = 0; i < a.n; i++) y[i] = (a.r[i] & x).count() & 1; return y; }
static int rank_of(Mx a) { int rk = 0; for (int c = 0; c < a.n; c++) { int p = rk; while (p < a.n && !a.r[p][c]) p++; if (p == a.n) continue; std::swap(a.r[p], a.r[rk]); for (int i = 0; i < a.n; i++) if (i != rk && a.r[i][c]) a.r[i] ^= a.r[rk]; rk++; } return rk; }
static std::string show(const Mx &a) { std::string s; for (int i = 0; i < a.n && i < 8; i++) { for (int j = 0; j < a.n && j < 16; j++) s += a.r[i][j] ? '1' : '0'; s += a.n > 16 ? ".. " : " "; } return s; }

// column j of a row is the bit of weight n-1-j
template <class U> static Row row_of(U v, int n) { Row r; for (int j = 0; j < n; j++) r[j] = v >> (n - 1 - j) & 1; return r; }
template <class U> static U val_of(const Row &r, int n) { U v = 0; for (int j = 0; j < n; j++) if (r[j]) v |= (U)1 << (n - 1 - j); return v; }

#define COMMON(N) \
  typedef M##N M; typedef V##N V; typedef Aff##N A; enum { n = N }; \
  static void init(M *m) { initM##N(m); } static void identity(M *m) { identityM##N(m); } static void copy(M a, M *b) { copyM##N(a, b); } \
  static void randm(M *m) { randM##N(m); } static void randv(V *v) { randV##N(v); } static void initv(V *v) { initV##N(v); } \
  static int eq(M a, M b) { return isequalM##N(a, b); } static int eqv(V a, V b) { return isequalV##N(a, b); } static int inv_ok(M a) { return isinvertM##N(a); } \
  static void invs(M a, M *b) { invsM##N(a, b); } static int rd(M a, int i, int j) { return readbitM##N(a, i, j); } static void flip(M *a, int i, int j) { flipbitM##N(a, i, j); } \
  static void setb(M *a, int i, int j, int b) { setbitM##N(a, i, j, b); } static void addv(V a, V b, V *c) { VecAddVecV##N(a, b, c); } static void mulv(M a, V x, V *y) { MatMulVecM##N(a, x, y); } \
  static void mulm(M a, M b, M *c) { MatMulMatM##N(a, b, c); } static void addm(M a, M b, M *c) { MatAddMatM##N(a, b, c); } static void trans(M a, M *b) { MattransM##N(a, b); } \
  static void pair(M *a, M *b) { genMatpairM##N(a, b); } static void affpair(A *a, A *b) { genaffinepairM##N(a, b); } static void mix(A a, A b, A *c) { affinemixM##N(a, b, c); }
#define SMALL(N, T) struct S##N { COMMON(N) typedef T U; \
  static Mx from(const M &m) { Mx o(N); for (int i = 0; i < N; i++) o.r[i] = row_of<uint64_t>(m.M[i], N); return o; } \
  static M to(const Mx &x) { M m; memset(&m, 0, sizeof m); for (int i = 0; i < N; i++) m.M[i] = (U)val_of<uint64_t>(x.r[i], N); return m; } \
  static Row fromv(const V &v) { return row_of<uint64_t>(v.V, N); } static V tov(const Row &r) { V v; v.V = (U)val_of<uint64_t>(r, N); return v; } \
  static Row aff(A a, const Row &x) { return row_of<uint64_t>(affineU##N(a, (U)val_of<uint64_t>(x, N)), N); } \
  static int xo(const Row &x) { return xorU##N((U)val_of<uint64_t>(x, N)); } static int hw(const Row &x) { return HWU##N((U)val_of<uint64_t>(x, N)); } \
  static Row num(M m, const Row &x) { return row_of<uint64_t>(MatMulNumM##N(m, (U)val_of<uint64_t>(x, N)), N); } \
  static bool clean(const M &m) { for (int i = 0; i < N; i++) if (N < 8 && (m.M[i] >> N)) return false; return true; } };
SMALL(4, uint8_t) SMALL(8, uint8_t) SMALL(16, uint16_t) SMALL(32, uint32_t) SMALL(64, uint64_t)
struct S128 { COMMON(128)
  static void w(const Row &r, uint64_t *o) { o[0] = o[1] = 0; for (int j = 0; j < 128; j++) if (r[j]) o[j / 64] |= 1ull << (63 - j % 64); }
  static Row rr(const uint64_t *v) { Row r; for (int j = 0; j < 128; j++) r[j] = v[j / 64] >> (63 - j % 64) & 1; return r; }
  static Mx from(const M &m) { Mx o(128); for (int i = 0; i < 128; i++) o.r[i] = rr(m.M[i]); return o; }
  static M to(const Mx &x) { M m; for (int i = 0; i < 128; i++) w(x.r[i], m.M[i]); return m; }
  static Row fromv(const V &v) { return rr(v.V); } static V tov(const Row &r) { V v; w(r, v.V); return v; }
  static Row aff(A a, const Row &x) { uint64_t i[2], o[2]; w(x, i); affineU128(a, i, o); return rr(o); }
  static int xo(const Row &x) { uint64_t i[2]; w(x, i); return xorU128(i); } static int hw(const Row &x) { uint64_t i[2]; w(x, i); return HWU128(i); }
  static Row num(M m, const Row &x) { V y; MatMulVecM128(m, tov(x), &y); return fromv(y); }
  static bool clean(const M &) { return true; } };

static Row draw_row(Tape &t, Rng &g, int n) { Row r; unsigned m = (unsigned)t.below(4); for (int j = 0; j < n; j++) r[j] = m == 0 ? g.below(2) : m == 1 ? 0 : m == 2 ? 1 : g.below(n) == 0; return r; }
static Mx draw_mx(Tape &t, int n, const char **kind) {
  Rng g(t.u64()); Mx m(n); unsigned k = (unsigned)t.below(8);
  static const char *names[] = {"random", "invertible", "rank-deficient", "sparse", "permutation", "triangular", "identity with one flip", "extreme"}; if (kind) *kind = names[k];
  auto rnd = [&](Mx &x) { for (auto &r : x.r) for (int j = 0; j < n; j++) r[j] = g.below(2); };
  switch (k) {
    case 1: m = ident(n); for (int s = 0; s < 4 * n; s++) { int i = (int)g.below(n), j = (int)g.below(n); if (i != j) m.r[i] ^= m.r[j]; } for (int i = n - 1; i > 0; i--) std::swap(m.r[i], m.r[g.below(i + 1)]); break;
    case 2: { rnd(m); int d = (int)g.below(n); m.r[d] = Row(); for (int i = 0; i < n; i++) if (i != d && g.below(2)) m.r[d] ^= m.r[i]; break; }
    case 3: for (auto &r : m.r) for (int j = 0; j < n; j++) r[j] = g.below(n) < 2; break;
    case 4: m = ident(n); for (int i = n - 1; i > 0; i--) std::swap(m.r[i], m.r[g.below(i + 1)]); break;
    case 5: { bool up = g.below(2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m.r[i][j] = i == j ? 1 : (up ? j > i : j < i) && g.below(2); break; }
    case 6: m = ident(n); { int i = (int)g.below(n), j = (int)g.below(n); m.r[i].flip(j); } break;
    case 7: if (g.below(2)) for (auto &r : m.r) for (int j = 0; j < n; j++) r[j] = 1; break;
    default: rnd(m);
  }
  return m;
}
template <class S> static void algebra(Tape &t) {
  const int n = S::n; typedef typename S::M M; typedef typename S::V V; typedef typename S::A A;
  const char *ka, *kb; Mx a = draw_mx(t, n, &ka), b = draw_mx(t, n, &kb); Rng g(t.u64()); Row x = draw_row(t, g, n), y = draw_row(t, g, n);
  t.label(fmt("%d bits", n)); t.label(ka); t.describe(fmt("%dx%d %s and %s", n, n, ka, kb));
  M am = S::to(a), bm = S::to(b), o; V xv = S::tov(x), yv = S::tov(y), v;
  memset(&o, 0xee, sizeof o); memset(&v, 0xee, sizeof v);
  auto want = [&](const char *op, const M &got, const Mx &w) { CHECK(S::from(got) == w && S::clean(got), "%s on %dx%d matrices (%s, %s): got %s want %s (first rows)", op, n, n, ka, kb, show(S::from(got)).c_str(), show(w).c_str()); };
  auto wantv = [&](const char *op, const Row &got, const Row &w) { CHECK(got == w, "%s on %d bits (%s matrix): got %s, want %s", op, n, ka, got.to_string().substr(128 - n).c_str(), w.to_string().substr(128 - n).c_str()); };
  Mx sum(n), tr(n); for (int i = 0; i < n; i++) { sum.r[i] = a.r[i] ^ b.r[i]; for (int j = 0; j < n; j++) tr.r[j][i] = a.r[i][j]; }
  S::init(&o); want("zero", o, Mx(n)); S::identity(&o); want("identity", o, ident(n)); memset(&o, 0xee, sizeof o); S::copy(am, &o); want("copy", o, a);
  S::initv(&v); wantv("zero vector", S::fromv(v), Row());
  memset(&o, 0xee, sizeof o); S::addm(am, bm, &o); want("sum", o, sum); memset(&o, 0xee, sizeof o); S::trans(am, &o); want("transpose", o, tr);
  Mx p = mx_mul(a, b); memset(&o, 0xee, sizeof o); S::mulm(am, bm, &o); want("product", o, p);
  { M z = am; S::mulm(z, bm, &z); want("product stored over its left operand", z, p); z = bm; S::mulm(am, z, &z); want("product stored over its right operand", z, p); }
  memset(&v, 0xee, sizeof v); S::mulv(am, xv, &v); wantv("matrix times vector", S::fromv(v), mx_apply(a, x)); { V z = xv; S::mulv(am, z, &z); wantv("matrix times vector in place", S::fromv(z), mx_apply(a, x)); }
  wantv("matrix times number", S::num(am, x), mx_apply(a, x));
  memset(&v, 0xee, sizeof v); S::addv(xv, yv, &v); wantv("vector sum", S::fromv(v), x ^ y);
  CHECK(S::eqv(xv, yv) == (x == y) && S::eqv(xv, xv) == 1, "vector equality on %d bits", n);
  CHECK(S::xo(x) == (int)(x.count() & 1), "parity of a %d-bit value with %zu ones is %d", n, x.count(), S::xo(x)); CHECK(S::hw(x) == (int)x.count(), "weight of a %d-bit value with %zu ones is %d", n, x.count(), S::hw(x));
  CHECK(S::eq(am, am) == 1 && S::eq(am, bm) == (a == b), "matrix equality on %dx%d", n, n);
  int i = (int)t.below(n), j = (int)t.below(n); Mx f = a; f.r[i].flip(j);
  CHECK(S::rd(am, i, j) == (int)a.r[i][j], "reading bit (%d,%d) of a %dx%d matrix", i, j, n, n);
  M z = am; S::flip(&z, i, j); want("flipping one bit", z, f); CHECK(S::eq(am, z) == 0, "matrices that differ in bit (%d,%d) compare equal", i, j);
  { V q = xv; Row xr = x; xr.flip(i); q = S::tov(xr); CHECK(S::eqv(xv, q) == 0, "vectors that differ in bit %d compare equal", i); }
  int bit = (int)t.below(2); z = am; S::setb(&z, i, j, bit); f = a; f.r[i][j] = bit; want("setting one bit", z, f);
  bool inv = rank_of(a) == n; CHECK(S::inv_ok(am) == (inv ? 1 : 0), "a %dx%d %s matrix of rank %d is reported %s: %s", n, n, ka, rank_of(a), S::inv_ok(am) ? "invertible" : "singular", show(a).c_str());
  if (inv) { memset(&o, 0xee, sizeof o); S::invs(am, &o); Mx q = S::from(o); CHECK(mx_mul(a, q) == ident(n) && S::clean(o), "the inverse of an invertible %dx%d %s matrix is wrong: %s", n, n, ka, show(a).c_str()); z = am; S::invs(z, &z); want("inverse in place", z, q); t.label("inverted"); }
  A fa, fb, fm; fa.Mat = am; fa.Vec = xv; fb.Mat = bm; fb.Vec = yv; memset(&fm, 0xee, sizeof fm); Row u = draw_row(t, g, n);
  wantv("affine map", S::aff(fa, u), mx_apply(a, u) ^ x);
  S::mix(fa, fb, &fm); wantv("composition of affine maps", S::aff(fm, u), mx_apply(a, mx_apply(b, u) ^ y) ^ x); want("matrix of the composition", fm.Mat, p);
}
// block-diagonal concatenation: k blocks of SB into SN
template <class SB, class SN, class F> static void concat(Tape &t, F f) {
  const int nb = SB::n, n = SN::n, k = n / nb; std::vector<typename SB::A> a(k); Mx w(n); Row wv; Rng g(t.u64());
  for (int q = 0; q < k; q++) { Mx m = draw_mx(t, nb, nullptr); Row v = draw_row(t, g, nb); a[q].Mat = SB::to(m); a[q].Vec = SB::tov(v); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) { w.r[q * nb + i][q * nb + j] = m.r[i][j]; } for (int i = 0; i < nb; i++) wv[q * nb + i] = v[i]; }
  typename SN::M m; typename SN::V v; typename SN::A aff; memset(&m, 0xee, sizeof m); memset(&v, 0xee, sizeof v); memset(&aff, 0xee, sizeof aff);
  f(a, m, v, aff); t.label(fmt("%d blocks of %d", k, nb)); t.describe(fmt("%d blocks of %d bits joined", k, nb));
  CHECK(SN::from(m) == w, "joining %d %dx%d matrices does not give their block-diagonal matrix", k, nb, nb);
  CHECK(SN::fromv(v) == wv, "joining %d %d-bit vectors gives another vector", k, nb);
  CHECK(SN::from(aff.Mat) == w && SN::fromv(aff.Vec) == wv, "joining %d %d-bit affine maps gives another map", k, nb);
}
static void p29(Tape &t) {
  switch (t.below(9)) {
    case 0: algebra<S4>(t); break; case 1: algebra<S8>(t); break; case 2: algebra<S16>(t); break; case 3: algebra<S32>(t); break; case 4: algebra<S64>(t); break;
    case 5: if (asan_build() && !t.chance(1, 3)) algebra<S32>(t); else algebra<S128>(t); break;
    case 6: concat<S8, S32>(t, [](auto &a, M32 &m, V32 &v, Aff32 &f) { MatrixcomM8to32(a[0].Mat, a[1].Mat, a[2].Mat, a[3].Mat, &m); VectorcomV8to32(a[0].Vec, a[1].Vec, a[2].Vec, a[3].Vec, &v); affinecomM8to32(a[0], a[1], a[2], a[3], &f); }); break;
    case 7:
      if (t.coin()) concat<S16, S64>(t, [](auto &a, M64 &m, V64 &v, Aff64 &f) { MatrixcomM16to64(a[0].Mat, a[1].Mat, a[2].Mat, a[3].Mat, &m); VectorcomV16to64(a[0].Vec, a[1].Vec, a[2].Vec, a[3].Vec, &v); affinecomM16to64(a[0], a[1], a[2], a[3], &f); });
      else concat<S8, S64>(t, [](auto &a, M64 &m, V64 &v, Aff64 &f) { MatrixcomM8to64(a[0].Mat, a[1].Mat, a[2].Mat, a[3].Mat, a[4].Mat, a[5].Mat, a[6].Mat, a[7].Mat, &m); VectorcomV8to64(a[0].Vec, a[1].Vec, a[2].Vec, a[3].Vec, a[4].Vec, a[5].Vec, a[6].Vec, a[7].Vec, &v); affinecomM8to64(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], &f); });
      break;
    default:
      switch (t.below(4)) {
        case 0: concat<S32, S128>(t, [](auto &a, M128 &m, V128 &v, Aff128 &f) { MatrixcomM32to128(a[0].Mat, a[1].Mat, a[2].Mat, a[3].Mat, &m); VectorcomV32to128(a[0].Vec, a[1].Vec, a[2].Vec, a[3].Vec, &v); affinecomM32to128(a[0], a[1], a[2], a[3], &f); }); break;
        case 1: concat<S16, S128>(t, [](auto &a, M128 &m, V128 &v, Aff128 &f) { MatrixcomM16to128(a[0].Mat, a[1].Mat, a[2].Mat, a[3].Mat, a[4].Mat, a[5].Mat, a[6].Mat, a[7].Mat, &m); VectorcomV16to128(a[0].Vec, a[1].Vec, a[2].Vec, a[3].Vec, a[4].Vec, a[5].Vec, a[6].Vec, a[7].Vec, &v); affinecomM16to128(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], &f); }); break;
        case 2: concat<S8, S128>(t, [](auto &a, M128 &m, V128 &v, Aff128 &f) {
            MatrixcomM8to128(a[0].Mat, a[1].Mat, a[2].Mat, a[3].Mat, a[4].Mat, a[5].Mat, a[6].Mat, a[7].Mat, a[8].Mat, a[9].Mat, a[10].Mat, a[11].Mat, a[12].Mat, a[13].Mat, a[14].Mat, a[15].Mat, &m);
            VectorcomV8to128(a[0].Vec, a[1].Vec, a[2].Vec, a[3].Vec, a[4].Vec, a[5].Vec, a[6].Vec, a[7].Vec, a[8].Vec, a[9].Vec, a[10].Vec, a[11].Vec, a[12].Vec, a[13].Vec, a[14].Vec, a[15].Vec, &v);
            affinecomM8to128(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], &f); }); break;
        default: { Mx w(8); M4 q[2]; for (int k = 0; k < 2; k++) { Mx m = draw_mx(t, 4, nullptr); q[k] = S4::to(m); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) w.r[4 * k + i][4 * k + j] = m.r[i][j]; } M8 o; memset(&o, 0xee, sizeof o); MatrixcomM4to8(q[0], q[1], &o); t.label("2 blocks of 4"); t.describe("2 blocks of 4 bits joined"); CHECK(S8::from(o) == w, "joining two 4x4 matrices does not give their block-diagonal matrix"); }
      }
  }
}
PROPERTY("P29", "GF(2) matrix algebra", p29, "every case runs all operations of one size on drawn matrices, or one block concatenation", 3000, 600);

// ---------------------------------------------------------------- P30
static uint64_t fnv(const void *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull; return h; }
template <class S> static void pairs(Tape &t, int count, bool still_clock) {
  const int n = S::n; t.label(fmt("%d bits", n)); std::vector<uint64_t> seen;
  for (int c = 0; c < count; c++) {
    typename S::M m, q; memset(&m, 0xee, sizeof m); memset(&q, 0xee, sizeof q); S::pair(&m, &q); Mx a = S::from(m), b = S::from(q); seen.push_back(fnv(&m, sizeof m));
    CHECK(S::clean(m) && S::clean(q), "a generated %dx%d matrix has bits outside its columns", n, n);
    CHECK(mx_mul(a, b) == ident(n) && mx_mul(b, a) == ident(n), "generated %dx%d pair: the product is not the identity (first rows %s)", n, n, show(a).c_str());
    typename S::A f, g; memset(&f, 0xee, sizeof f); memset(&g, 0xee, sizeof g); S::affpair(&f, &g); Mx fm = S::from(f.Mat), gm = S::from(g.Mat); Row fv = S::fromv(f.Vec), gv = S::fromv(g.Vec);
    CHECK(mx_mul(fm, gm) == ident(n), "generated %d-bit affine pair: the matrices are not inverse", n);
    Rng r(t.u64()); Row x; for (int j = 0; j < n; j++) x[j] = r.below(2);
    CHECK((mx_apply(gm, mx_apply(fm, x) ^ fv) ^ gv) == x && (mx_apply(fm, mx_apply(gm, x) ^ gv) ^ fv) == x, "generated %d-bit affine pair does not invert", n);
    CHECK(S::aff(g, S::aff(f, x)) == x, "generated %d-bit affine pair does not invert under the library's own evaluation", n);
    typename S::M rm; memset(&rm, 0xee, sizeof rm); S::randm(&rm); CHECK(S::clean(rm), "a random %dx%d matrix has bits outside its columns", n, n);
  }
  std::sort(seen.begin(), seen.end());
  // with a clock that moves in step with the call counter the library's seed (counter ^ clock) may repeat; with a still clock it may not
  if (still_clock && n >= 8 && count >= 2) CHECK(std::unique(seen.begin(), seen.end()) - seen.begin() > 1, "%d successive %dx%d pairs are all the same", count, n, n);
}
static void p30(Tape &t) {
  uint32_t seed = (uint32_t)t.u64(), tm = (uint32_t)t.u64(), init = (uint32_t)t.u64(); uint32_t step = t.coin() ? 0 : (uint32_t)t.below(5);
  switch (t.below(4)) { case 0: seed = (uint32_t)t.below(100); break; case 1: init = 0xffffffffu - (uint32_t)t.below(12); break; default:; }
  if (t.chance(1, 4)) tm = seed ^ (0xfffffff0u + (uint32_t)t.below(16));   // seeds at the edge of the generator's domain
  set_time(tm, step); SetRandSeed(seed); InitRandom(init);
  t.describe(fmt("seed %u, clock %u step %u", seed, tm, step));
  switch (t.below(9)) {
    case 0: pairs<S4>(t, 24, step == 0); break; case 1: pairs<S8>(t, 16, step == 0); break; case 2: pairs<S16>(t, 8, step == 0); break; case 3: pairs<S32>(t, 4, step == 0); break; case 4: pairs<S64>(t, 2, step == 0); break;
    case 5: pairs<S128>(t, 1, step == 0); break;
    case 6: case 7: {
      bool big = t.coin(); size_t n = big ? 256 : 16; t.label(big ? "permutation of 256" : "permutation of 16"); std::vector<Bytes> all;
      for (int c = 0; c < 6; c++) {
        Buf p(n), q(n); if (big) genPermutation8(p.p(), q.p()); else genPermutation4(p.p(), q.p());
        p.check("permutation"); q.check("inverse permutation"); std::vector<int> hit(n);
        for (size_t i = 0; i < n; i++) { CHECK(p.p()[i] < n && !hit[p.p()[i]]++, "not a permutation of %zu: value %u at %zu", n, p.p()[i], i); }
        for (size_t i = 0; i < n; i++) CHECK(q.p()[p.p()[i]] == i && p.p()[q.p()[i] % n] == i, "the second table does not invert the permutation of %zu at %zu", n, i);
        all.push_back(p.get());
      }
      if (step == 0) CHECK(!std::all_of(all.begin(), all.end(), [&](const Bytes &b) { return b == all[0]; }), "six successive permutations of %zu are all the same", n);
      break;
    }
    default: {
      size_t n = t.coin() ? t.below(20) : t.below(700); Bytes b = t.bytes(n); Buf l(b); t.label("shuffle");
      CHECK(wRandomShuffleU8(l.p(), (int)n) == 0, "shuffle of %zu bytes failed", n); l.check("shuffled list"); Bytes o = l.get(), s = b; std::sort(o.begin(), o.end()); std::sort(s.begin(), s.end());
      CHECK(o == s, "shuffling %zu bytes changed which bytes there are", n);
    }
  }
}
PROPERTY("P30", "random invertible pairs and permutations", p30, "every case seeds the generator and checks generated pairs, permutations or a shuffle", 1500, 300);

// ---------------------------------------------------------------- P39 the seeded generator
// each bit over many draws; refused only about nine standard deviations from an even chance (short series: only if it never varies)
static void balanced(const std::vector<int> &ones, int draws, const char *what) {
  double dev = draws < 150 ? draws / 2.0 - 0.5 : 4.5 * std::sqrt(draws) + 0.04 * draws;
  for (size_t i = 0; i < ones.size(); i++) CHECK(std::fabs(ones[i] - draws / 2.0) <= dev, "%s: bit %zu is set in %d of %d draws", what, i, ones[i], draws);
}
template <class X> static void tally(std::vector<int> &ones, const X &x, int row_bits) {   // row_bits of every element count
  const uint8_t *p = (const uint8_t *)&x; size_t k = 0;
  for (size_t i = 0; i < sizeof x; i++) for (int b = 0; b < (row_bits < 8 ? row_bits : 8); b++, k++) { if (k >= ones.size()) ones.resize(k + 1); ones[k] += p[i] >> b & 1; }
}
template <class S> static void seeded(Tape &t, uint32_t seed, uint32_t tm) {
  const int n = S::n, K = 400; int what = (int)t.below(4), total = n >= 64 ? (asan_build() ? 100 : 200) : K;
  static const char *nm[] = {"random matrix", "random vector", "matrix pair", "affine pair"};
  t.label(fmt("%d-bit %s", n, nm[what])); t.describe(fmt("%d draws of a %d-bit %s from seed %u at %u", total, n, nm[what], seed, tm));
  int again = (int)t.below((uint64_t)total);   // draws repeated from the same seed
  if (what >= 2 && n == 128) { total = asan_build() ? 60 : 120; again %= 20; }
  std::vector<uint64_t> first; std::vector<int> ones, ones2;
  for (int pass = 0; pass < 2; pass++) {
    set_time(tm, 0); SetRandSeed(seed); InitRandom(seed ^ 77);
    for (int c = 0; c < (pass ? std::min(again + 1, 60) : total); c++) {
      typename S::M m, q; typename S::V v; typename S::A f, g; memset(&m, 0xee, sizeof m); memset(&q, 0xee, sizeof q); memset(&v, 0xee, sizeof v); memset(&f, 0, sizeof f); memset(&g, 0, sizeof g);
      uint64_t h = 0;
      switch (what) {
        case 0: S::randm(&m); h = fnv(&m, sizeof m); if (!pass) tally(ones, m, n); break;
        case 1: S::randv(&v); h = fnv(&v, sizeof v); if (!pass) tally(ones, v, n); break;
        case 2: S::pair(&m, &q); h = fnv(&m, sizeof m) ^ 3 * fnv(&q, sizeof q); if (!pass) { tally(ones, m, n); tally(ones2, q, n); } break;
        default: S::affpair(&f, &g); h = fnv(&f.Mat, sizeof f.Mat) ^ 3 * fnv(&g.Mat, sizeof g.Mat) ^ 5 * fnv(&f.Vec, sizeof f.Vec) ^ 7 * fnv(&g.Vec, sizeof g.Vec);
          if (!pass) { tally(ones, f.Mat, n); tally(ones2, f.Vec, n); }
      }
      if (!pass) first.push_back(h); else CHECK(h == first[c], "draw %d of a %d-bit %s differs from the same draw with the same seed and clock", c, n, nm[what]);
    }
  }
  balanced(ones, total, fmt("%d-bit %s", n, nm[what]).c_str()); if (ones2.size()) balanced(ones2, total, fmt("%d-bit %s, second part", n, nm[what]).c_str());
}
static void p39(Tape &t) {
  uint32_t seed = t.chance(1, 4) ? (uint32_t)t.below(20) : t.chance(1, 4) ? 0xffffffffu - (uint32_t)t.below(20) : (uint32_t)t.u64(), tm = (uint32_t)t.u64();
  switch (t.below(9)) {
    case 0: seeded<S4>(t, seed, tm); break; case 1: seeded<S8>(t, seed, tm); break; case 2: seeded<S16>(t, seed, tm); break; case 3: seeded<S32>(t, seed, tm); break;
    case 4: if (t.coin()) seeded<S64>(t, seed, tm); else seeded<S128>(t, seed, tm); break;
    case 5: case 6: {   // the sequence of one seed
      size_t n = (size_t)1 << (asan_build() ? 14 + t.below(3) : 16 + t.below(4)); t.label("sequence"); t.describe(fmt("%zu numbers from seed %u", n, seed));
      InitRandom(seed); std::vector<uint32_t> a(n); std::vector<int> ones(32); for (auto &x : a) x = cus_random();
      for (size_t i = 0; i < 400; i++) for (int b = 0; b < 32; b++) ones[b] += a[i] >> b & 1;
      uint32_t other = t.coin() ? seed + 1 : seed ^ (1u << t.below(32)); InitRandom(other); size_t same = 0; for (int i = 0; i < 64; i++) same += cus_random() == a[i];
      CHECK(same < 8, "seeds %u and %u give the same numbers (%zu of 64)", seed, other, same);
      InitRandom(seed); for (size_t i = 0; i < n && i < 5000; i++) { uint32_t x = cus_random(); CHECK(x == a[i], "number %zu of seed %u is %u the first time and %u the second", i, seed, a[i], x); }
      balanced(ones, 400, fmt("numbers from seed %u", seed).c_str());
      std::sort(a.begin(), a.end()); auto d = std::adjacent_find(a.begin(), a.end()); CHECK(d == a.end(), "%u occurs twice in %zu numbers from seed %u", *d, n, seed);
      break;
    }
    case 7: case 8: {   // permutations: every value everywhere equally often
      bool big = t.chance(1, 4); int n = big ? 256 : 16, N = big ? 2560 : 800; t.label(big ? "permutations of 256" : "permutations of 16"); t.describe(fmt("%d permutations of %d from seed %u", N, n, seed));
      InitRandom(seed); std::vector<int> cnt((size_t)n * n); std::vector<Bytes> head; Bytes p(n), q(n);
      for (int c = 0; c < N; c++) { if (big) genPermutation8(p.data(), q.data()); else genPermutation4(p.data(), q.data()); if (c < 20) head.push_back(p); for (int i = 0; i < n; i++) cnt[(size_t)i * n + p[i] % n]++; }
      double e = (double)N / n, df = n - 1, limit = df + 8 * std::sqrt(2 * df) + 40;
      for (int i = 0; i < n; i++) { double chi = 0; for (int j = 0; j < n; j++) { double d = cnt[(size_t)i * n + j] - e; chi += d * d / e; } CHECK(chi < limit, "%d permutations of %d: the values at position %d are not equally frequent (chi-square %.0f, at most %.0f)", N, n, i, chi, limit); }
      InitRandom(seed); for (size_t c = 0; c < head.size(); c++) { if (big) genPermutation8(p.data(), q.data()); else genPermutation4(p.data(), q.data()); CHECK(p == head[c], "permutation %zu of %d differs from the same one with the same seed", c, n); }
      break;
    }
  }
  t.nontrivial();
}
PROPERTY("P39", "seeded generation", p39, "every case draws at least 60 values of one kind from a seed and tallies their bits", 100, 20);
