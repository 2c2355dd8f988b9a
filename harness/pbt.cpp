#include "pbt.h"
#include <atomic>
#include <set>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define IS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define IS_ASAN 1
#endif
#endif
#ifndef IS_ASAN
#define IS_ASAN 0
#endif

#if IS_ASAN
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=1048576:"
         "detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:quarantine_size_mb=32";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
#endif

// ---------------------------------------------------------------- library randomness
static std::atomic<uint32_t> g_time{1}, g_step{0};
static std::atomic<uint64_t> g_rand{1};
static std::atomic<bool> g_seeded{false}, g_unseeded{false};
bool used_unseeded_rand() { return g_unseeded; }
extern "C" {
time_t __wrap_time(time_t *t) {
  uint32_t v = g_time.fetch_add(g_step.load());
  if (t) *t = v;
  return v;
}
void __wrap_srand(unsigned s) { (void)s; g_seeded = true; }
int __wrap_rand(void) {
  if (!g_seeded) g_unseeded = true;
  uint64_t v = g_rand.fetch_add(0x9e3779b97f4a7c15ull);
  Rng r(v);
  return (int)(r.next() & 0x7fffffff);
}
void SetRandSeed(unsigned int seed);
void InitRandom(unsigned int seedBase);
}
void set_time(uint32_t base, uint32_t step) { g_time = base; g_step = step; }

// ---------------------------------------------------------------- globals
static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void register_prop(const Prop &p) { props().push_back(p); }

static bool g_thorough = false, g_cov = false;
static std::string g_scratch, g_base_scratch;
static std::set<std::string> g_known_ids;
static uint64_t g_case_index = 0;
static int g_worker = -1;
int worker_index() { return g_worker; }
const std::vector<Prop> &all_props() { return props(); }
bool thorough() { return g_thorough; }
bool asan_build() { return IS_ASAN; }
const std::string &scratch_dir() { return g_scratch; }
uint64_t case_index() { return g_case_index; }

static const size_t TAPE_CAP = 1 << 16;
static const size_t HASH_CAP = 1 << 22;
struct LabelSlot { std::atomic<int> state; char name[56]; std::atomic<uint64_t> n; };
struct KnownSlot { std::atomic<uint64_t> n; char id[32]; char what[400]; };
struct WorkerShm {
  volatile size_t ntape;
  std::atomic<uint64_t> case_idx;
  std::atomic<uint64_t> start_idx;  // first case of this process
  std::atomic<double> case_start;
  char msg[2000];
  uint64_t tape[TAPE_CAP];
};
struct Shared {
  std::atomic<uint64_t> evals, nontriv, distinct, discards;
  std::atomic<int> lock;
  std::atomic<int> stop;
  LabelSlot labels[400];
  KnownSlot known[8];
  std::atomic<int> nsamples;
  char samples[24][640];
  WorkerShm w[32];
  std::atomic<uint64_t> hashes[HASH_CAP];
};
static Shared *S;
static WorkerShm *W;

// ---------------------------------------------------------------- coverage guidance
// In the "cov" build the library's code is compiled with -fsanitize-coverage=trace-pc,trace-cmp. A case that reaches something new
// (a basic block, how often it is run, how near the two sides of a comparison are) leaves its tape in a corpus the workers share;
// every other case is a mutation of such a tape.
static const size_t CMAP = 1 << 16, CORPUS = 4096, CTAPE = 2048;
struct Corpus {
  std::atomic<uint32_t> n, blocks;   // tapes kept; places in the code reached
  std::atomic<uint8_t> seen[CMAP * 8];
  struct { uint32_t len; uint64_t v[CTAPE]; } tape[CORPUS];
};
static Corpus *C;
alignas(64) static uint8_t g_hits[CMAP];
static bool g_cov_on = false;
static uint64_t g_dict[256];
static inline __attribute__((always_inline)) void reached(uint32_t h) { uint8_t &c = g_hits[h & (CMAP - 1)]; if (c != 255) c++; }
static inline __attribute__((always_inline)) void compared(uintptr_t pc, uint64_t a, uint64_t b, bool constant) {
  if (!g_cov_on) return;
  reached((uint32_t)pc * 0x9e3779b1u >> 13 ^ (uint32_t)__builtin_popcountll(a ^ b));
  if (constant && a != b) g_dict[((uint32_t)pc * 0x9e3779b1u >> 24)] = a;   // one per place, so that loops do not crowd out the rest
}
// pauses (Interleave)
static std::atomic<bool> g_pausing{false};
static std::atomic<uint64_t> g_pseed{0}, g_pthreads{0}; static std::atomic<uint32_t> g_pgen{0}, g_pmean{1}, g_plong{1};
static __attribute__((noinline)) void pause_here() {
  static thread_local uint32_t gen = 0, left = 0, budget = 0; static thread_local Rng r(0);
  if (gen != g_pgen) { gen = g_pgen; r = Rng(mix64(g_pseed, g_pthreads++)); left = 1 + (uint32_t)r.below(2 * g_pmean); budget = 80; }
  if (--left) return;
  left = 1 + (uint32_t)r.below(2 * g_pmean);
  uint64_t z = r.next();
  if (!budget) { left *= 100; sched_yield(); return; }
  budget--;
  if (z % 4 == 0) { sched_yield(); return; }
  usleep((useconds_t)(1 + (z >> 8) % g_plong));
}
Interleave::Interleave(Tape &t) {
  uint64_t seed = t.u64(); uint32_t mean = t.pick<uint32_t>({20, 100, 500, 3000, 20000}), lng = t.pick<uint32_t>({20, 100, 300});
  if (!g_cov) return;
  g_pseed = seed; g_pthreads = 0; g_pmean = mean; g_plong = lng; g_pgen++; g_pausing = true;
}
Interleave::~Interleave() { g_pausing = false; }
#define PC_ ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __sanitizer_cov_trace_pc() { if (g_pausing.load(std::memory_order_relaxed)) pause_here(); if (g_cov_on) reached((uint32_t)PC_ * 0x9e3779b1u >> 9); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { compared(PC_, a, b, false); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { compared(PC_, a, b, false); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { compared(PC_, a, b, false); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { compared(PC_, a, b, false); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { compared(PC_, a, b, true); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { compared(PC_, a, b, true); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { compared(PC_, a, b, true); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { compared(PC_, a, b, true); }
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0] && i < 32; i++) compared(PC_ + i, c[2 + i], v, true); }
}
static std::vector<uint64_t> mutated_tape(Rng &r) {
  uint32_t n = std::min<uint32_t>(C->n, CORPUS);
  auto pick = [&] { return r.below(2) && n > 8 ? n - 1 - r.below(n / 4) : r.below(n); };
  auto &c = C->tape[pick()];
  std::vector<uint64_t> v(c.v, c.v + c.len);
  static const uint64_t special[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 64, 127, 128, 255, 256, 65535, 65536, ~0ull, ~0ull >> 1};
  for (uint64_t k = 1 + r.below(r.below(3) ? 2 : 8); k && !v.empty(); k--) {
    uint64_t &x = v[r.below(r.below(4) ? v.size() : std::min<size_t>(v.size(), 40))];
    switch (r.below(10)) {
      case 0: case 1: x = r.next(); break;
      case 2: x = special[r.below(sizeof special / sizeof *special)]; break;
      case 3: x ^= 1ull << r.below(64); break;
      case 4: x += r.below(2) ? 1 : -1ull; break;
      case 5: { uint64_t sh = 8 * r.below(8); x = (x & ~(0xffull << sh)) | r.below(256) << sh; break; }
      case 6: if (uint64_t d = g_dict[r.below(256)]) x = d; break;
      case 7: if (uint64_t d = g_dict[r.below(256)] & 0xff) { uint64_t sh = 8 * r.below(8); x = (x & ~(0xffull << sh)) | d << sh; } break;
      case 8: { auto &o = C->tape[pick()]; size_t at = r.below(std::min<size_t>(v.size(), o.len ? o.len : 1)); v.resize(at); v.insert(v.end(), o.v + std::min<size_t>(at, o.len), o.v + o.len); break; }
      default: { size_t at = r.below(v.size()), len = 1 + r.below(std::min<size_t>(v.size() - at, 8)); if (r.below(2)) v.erase(v.begin() + at, v.begin() + at + len); else { std::vector<uint64_t> d(v.begin() + at, v.begin() + at + len); v.insert(v.begin() + at, d.begin(), d.end()); } }
    }
  }
  return v;
}
static void learn(const uint64_t *tape, size_t len) {
  bool fresh = false;
  for (size_t w = 0; w < CMAP; w += 8) {
    if (!*(uint64_t *)(g_hits + w)) continue;
    for (size_t i = w; i < w + 8; i++) if (uint32_t n = g_hits[i]) {
      uint32_t b = n < 4 ? n - 1 : n < 8 ? 3 : n < 16 ? 4 : n < 64 ? 5 : n < 255 ? 6 : 7;
      auto &x = C->seen[i * 8 + b];
      if (!x.load(std::memory_order_relaxed) && !x.exchange(1)) fresh = true;
    }
  }
  if (!fresh || len > CTAPE) return;
  uint32_t i = C->n++;
  if (i >= CORPUS) { C->n = CORPUS; return; }
  C->tape[i].len = 0; memcpy(C->tape[i].v, tape, len * 8); C->tape[i].len = (uint32_t)len;
}

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void slock() { while (S->lock.exchange(1)) usleep(10); }
static void sunlock() { S->lock = 0; }

void fail(const char *f, ...) {
  char b[1900];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  throw Fail{b};
}
std::string fmt(const char *f, ...) {
  char b[1900];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}
void known(const char *id, const char *f, ...) {
  char b[390];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (!g_known_ids.count(id)) fail("[%s] %s", id, b);
  slock();
  for (auto &k : S->known) {
    if (k.id[0] == 0) { snprintf(k.id, sizeof k.id, "%s", id); snprintf(k.what, sizeof k.what, "%s", b); }
    if (strcmp(k.id, id) == 0) { k.n++; break; }
  }
  sunlock();
}
std::string hex(const uint8_t *p, size_t n, size_t max) {
  std::string s; char t[4];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(t, sizeof t, "%02x", p[i]); s += t; }
  if (n > max) s += fmt("..(%zu bytes)", n);
  return s;
}

uint64_t Tape::below(uint64_t n) {
  uint64_t v;
  if (replay && (pos < rn || !guided)) v = pos < rn ? rp[pos] : 0; else v = rng.next();
  if (n) v %= n;
  pos++;
  if (*count < cap) { buf[*count] = v; *count = *count + 1; }
  return v;
}
bool Tape::once(int worker, uint64_t index) {
  uint64_t v = g_cov ? 0 : replay ? (pos < rn ? rp[pos] & 1 : 0) : (!nested && g_worker == worker && g_case_index == index);
  pos++;
  if (*count < cap) { buf[*count] = v; *count = *count + 1; }
  return v;
}
uint64_t Tape::u64() { return below(0); }
Bytes Tape::bytes(size_t n) {
  uint64_t mode = below(14), seed = u64();
  Bytes b(n, 0);
  if (n == 0) return b;
  if (seed == 0) return b;
  if (mode >= (g_cov ? 5 : 12) && n <= 64) {   // word by word: what coverage-guided mutation and shrinking can change alone
    for (size_t i = 0; i < n; i += 8) { uint64_t v = u64(); for (size_t k = i; k < n && k < i + 8; k++, v >>= 8) b[k] = (uint8_t)v; }
    return b;
  }
  switch (mode) {
    case 8: memset(b.data(), 0xff, n); break;
    case 9: memset(b.data(), (int)(seed & 0xff), n); break;
    case 10: for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(seed + i); break;
    case 11: b[seed % n] = (uint8_t)(1u << ((seed >> 32) % 8)); break;
    default: { Rng r(seed); size_t i = 0;
      while (i < n) { uint64_t v = r.next(); for (int k = 0; k < 8 && i < n; k++, v >>= 8) b[i++] = (uint8_t)v; } }
  }
  return b;
}
size_t Tape::length(size_t max) {
  switch (below(6)) {
    case 0: { size_t k = below(66); return k > max ? max : k; }
    case 1: { size_t k = 16 * below(40) + 15 + below(3); return k > max ? max : k; }   // around multiples of 16
    case 2: { size_t k = 64 * below(20) + below(3); return k > max ? max : k; }
    case 3: { size_t k = 16 * below(max / 16 + 1); return k > max ? max : k; }
    default: return below(max + 1);
  }
}
size_t Tape::log_length(unsigned lo, unsigned hi) {
  size_t p = (size_t)1 << (lo + below(hi - lo + 1));
  switch (below(3)) { case 0: return p + below(p); case 1: return p + below(40); default: return p - below(std::min<size_t>(p, 20)); }
}
void Tape::label(const std::string &s) {
  for (auto &l : S->labels) {
    if (l.state.load() == 0) {
      slock();
      if (l.state.load() == 0) { snprintf(l.name, sizeof l.name, "%s", s.c_str()); l.state = 1; }
      sunlock();
    }
    if (strncmp(l.name, s.c_str(), sizeof(l.name) - 1) == 0) { l.n++; return; }
  }
}

static const size_t RZ = 64;
static uint8_t rz_byte(size_t i) { return (uint8_t)(0xC3 ^ (i * 29)); }
static std::atomic<int> g_sfill{0};
static __attribute__((noinline)) void dirty_stack(int b) {
  volatile uint8_t a[192 * 1024];
  for (size_t i = 0; i < sizeof a; i++) a[i] = (uint8_t)b;
  g_sfill = b;
}
// the part of the stack that the next library call will use
static __attribute__((noinline)) void dirty_top() {
  uint8_t a[24 * 1024]; memset(a, g_sfill.load(std::memory_order_relaxed), sizeof a); asm volatile("" : : "r"(a) : "memory");
}
Buf::Buf(size_t n, int fill, size_t misalign) : n_(n), mis_(misalign) {
  if (IS_ASAN) {
    base_ = (uint8_t *)::operator new(misalign + n);  // the end is exact
    p_ = base_ + misalign;
  } else {
    base_ = (uint8_t *)::operator new(RZ + misalign + n + RZ);
    p_ = base_ + RZ + misalign;
    for (size_t i = 0; i < RZ + misalign; i++) base_[i] = rz_byte(i);
    for (size_t i = 0; i < RZ; i++) p_[n + i] = rz_byte(i);
  }
  if (n) memset(p_, fill, n);
  dirty_top();
}
Buf::Buf(const Bytes &b, size_t misalign) : Buf(b.size(), 0, misalign) { if (n_) memcpy(p_, b.data(), n_); }
Buf::~Buf() { ::operator delete(base_); }
void Buf::check(const char *what) {
  if (IS_ASAN) return;
  for (size_t i = 0; i < RZ + mis_; i++) if (base_[i] != rz_byte(i)) fail("%s: wrote before the start of a %zu-byte buffer", what, n_);
  for (size_t i = 0; i < RZ; i++) if (p_[n_ + i] != rz_byte(i)) fail("%s: wrote past the end of a %zu-byte buffer", what, n_);
}

// ---------------------------------------------------------------- running one case
void fix_random(uint32_t base, uint32_t step) {
  set_time(base, step);
  g_rand = base * 77ull + 1;
  SetRandSeed(base ^ 0x5a5a);
  InitRandom(base + 17);
}
void fill_memory(int heap, int stack) {
#if !IS_ASAN
  mallopt(M_PERTURB, heap ? heap : 0x5a);
#endif
  dirty_stack(stack);
}
// returns 0 ok, 1 fail, 2 discard
static int run_case(const Prop &p, Tape &t, std::string &msg) {
  *t.count = 0; t.pos = 0; t.nontriv_ = true; t.desc_.clear();
  uint32_t base = (uint32_t)t.u64();
  uint32_t step = t.pick<uint32_t>({0, 1, 7919});
  int mfill = (int)t.below(256), sfill = (int)t.below(256);
  fix_random(base, step); fill_memory(mfill, sfill);
  try { p.fn(t); }
  catch (Fail &f) { msg = f.msg; return 1; }
  catch (Discard &) { return 2; }
  return 0;
}
static uint64_t tape_hash(const uint64_t *b, size_t n) {
  uint64_t h = 0x1234567;
  for (size_t i = 0; i < n; i++) h = mix64(h, b[i]);
  return h ? h : 1;
}
static const Prop *g_prop;
static uint64_t g_seed;

static Tape make_tape() {
  Tape t; t.buf = W->tape; t.cap = TAPE_CAP; t.count = &W->ntape;
  return t;
}
static int nth_case(int worker, uint64_t idx, std::string &msg, Tape &t) {
  t.replay = t.guided = false;
  t.rng = Rng(mix64(mix64(g_seed * 2 + IS_ASAN + 77 * g_cov, (uint64_t)(g_prop->id[1] * 1000 + g_prop->id[2])), worker * 1000003ull + idx));
  g_case_index = idx; g_worker = worker;
  W->case_idx = idx;
  W->case_start = now();
  if (!g_cov) return run_case(*g_prop, t, msg);
  std::vector<uint64_t> tape;
  Rng r(t.rng.next() ^ 0x5bd1e995);
  if (C->n > 0 && r.below(3)) { tape = mutated_tape(r); t.replay = t.guided = true; t.rp = tape.data(); t.rn = tape.size(); }
  memset(g_hits, 0, sizeof g_hits); g_cov_on = true;
  int res = run_case(*g_prop, t, msg);
  g_cov_on = false;
  if (res == 0) learn(W->tape, W->ntape);
  t.replay = t.guided = false;
  return res;
}
static size_t rss_mb() {
  FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0;
  long a = 0, b = 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f);
  return (size_t)b * 4096 / (1 << 20);
}
static void rm_rf(const std::string &d) {
  // only below our own scratch directory, one level
  DIR *h = opendir(d.c_str()); if (!h) return;
  while (struct dirent *e = readdir(h)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string f = d + "/" + n;
    struct stat st;
    if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(f.c_str(), 0700); rm_rf(f); } else unlink(f.c_str());
  }
  closedir(h); rmdir(d.c_str());
}
static void child_setup(int slot, const char *errfile) {
  W = &S->w[slot];
  g_scratch = g_base_scratch + fmt("/w%d", slot);
  rm_rf(g_scratch); mkdir(g_scratch.c_str(), 0700);
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0); dup2(n, 1);
  int e = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (e >= 0) dup2(e, 2);
  // a runaway stays inside the sandbox
#if !IS_ASAN
  struct rlimit rl = {12ull << 30, 12ull << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
  struct rlimit rf = {256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &rf);
}
static std::string errfile(int slot) { return g_base_scratch + fmt("/err%d", slot); }

// worker process: exit 0 = restart me, 3 = finished, 1 = failing case in W->tape/msg, else crash
static void worker_main(int slot, uint64_t start, double deadline, uint64_t min_total, double hard) {
  child_setup(slot, errfile(slot).c_str());
  W->start_idx = start; W->msg[0] = 0;
  Tape t = make_tape();
  std::string msg;
  size_t base = rss_mb();
  for (uint64_t i = start;; i++) {
    double n = now();
    if (S->stop || n > hard || (n > deadline && S->evals >= min_total)) _exit(3);
    int r = nth_case(slot, i, msg, t);
    if (r == 1) { snprintf(W->msg, sizeof W->msg, "%s", msg.c_str()); _exit(1); }
    if (r == 2) { S->discards++; continue; }
    S->evals++;
    if (t.nontriv_) {
      S->nontriv++;
      uint64_t h = tape_hash(W->tape + 4, W->ntape > 4 ? W->ntape - 4 : 0);
      for (size_t k = 0; k < 64; k++) {
        auto &c = S->hashes[(h + k) % HASH_CAP];
        uint64_t z = 0;
        if (c.load() == h) break;
        if (c.compare_exchange_strong(z, h)) { S->distinct++; break; }
        if (z == h) break;
      }
      if (!t.desc_.empty() && S->nsamples < 24 && (i % 7) == 3) {
        int k = S->nsamples++;
        if (k < 24) snprintf(S->samples[k], 640, "%s", t.desc_.c_str());
      }
    }
    if ((i & 15) == 0 && rss_mb() > base + 700) { W->start_idx = i + 1; W->case_idx = i + 1; _exit(0); }
  }
}

struct Outcome { bool failed; std::string kind, msg; };
// run a function in a child; interpret its end
static Outcome in_child(double timeout, const std::function<int(std::string &)> &f) {
  const int slot = 30;
  S->w[slot].msg[0] = 0; S->w[slot].ntape = 0;
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    child_setup(slot, errfile(slot).c_str());
    std::string m;
    int r = f(m);
    if (r == 1) snprintf(W->msg, sizeof W->msg, "%s", m.c_str());
    _exit(r == 1 ? 1 : 0);
  }
  double t0 = now(); int st = 0; bool to = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); to = true; break; }
    usleep(300);
  }
  if (to) return {true, "hang", "the case did not end within its time limit"};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {false, "", ""};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return {true, "mismatch", S->w[slot].msg};
  std::string m;
  FILE *e = fopen(errfile(slot).c_str(), "r");
  if (e) { char b[3000]; size_t n = fread(b, 1, sizeof b - 1, e); b[n] = 0; m = b; fclose(e); }
  if (m.size() > 1500) m.resize(1500);
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL) return {false, "", "killed"};
    return {true, "crash", fmt("killed by signal %d\n", WTERMSIG(st)) + m};
  }
  return {true, "crash", fmt("exit status %d\n", WEXITSTATUS(st)) + m};
}
static Outcome run_tape(const std::vector<uint64_t> &tp, double timeout) {
  return in_child(timeout, [&](std::string &m) {
    Tape t = make_tape();
    t.replay = true; t.rp = tp.data(); t.rn = tp.size();
    int r = run_case(*g_prop, t, m);
    return r == 2 ? 0 : r;
  });
}
static Outcome run_history(int slot, uint64_t from, uint64_t to, double timeout) {
  return in_child(timeout, [&](std::string &m) {
    Tape t = make_tape();
    for (uint64_t i = from; i <= to; i++) { int r = nth_case(slot, i, m, t); if (r == 1) return 1; }
    return 0;
  });
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> tp, const std::string &kind, double budget, double tmo) {
  double end = now() + budget;
  auto still = [&](const std::vector<uint64_t> &c) {
    if (now() > end) return false;
    Outcome o = run_tape(c, tmo);
    return o.failed && o.kind == kind;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // drop the tail, then blocks
    for (size_t blk = std::max<size_t>(1, tp.size() / 2); blk >= 1 && now() < end; blk /= 2) {
      for (size_t i = tp.size(); i > 0 && now() < end;) {
        size_t s = i > blk ? i - blk : 0;
        std::vector<uint64_t> c(tp.begin(), tp.begin() + s);
        c.insert(c.end(), tp.begin() + i, tp.end());
        if (c.size() < tp.size() && still(c)) { tp = c; progress = true; }
        i = s;
      }
      if (blk == 1) break;
    }
    // lower the values
    for (size_t i = 0; i < tp.size() && now() < end; i++) {
      if (!tp[i]) continue;
      std::vector<uint64_t> c = tp; c[i] = 0;
      if (still(c)) { tp = c; progress = true; continue; }
      uint64_t lo = 0, hi = tp[i];
      int steps = 0;
      while (lo + 1 < hi && now() < end && steps++ < 20) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = tp; c[i] = mid;
        if (still(c)) { tp = c; hi = mid; progress = true; } else lo = mid;
      }
    }
    while (!tp.empty() && tp.back() == 0) tp.pop_back();
  }
  return tp;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c > 0x7e) o += fmt("\\u%04x", c);
    else o += (char)c;
  }
  return o + "\"";
}

struct Violation { std::string kind, msg, note; std::vector<uint64_t> tape; bool hist = false; int worker = 0; uint64_t from = 0, to = 0; };

static int do_run(int workers, double secs, uint64_t min_cases, double hard_secs, const char *out, int slot0) {
  double t0 = now(), deadline = t0 + secs, hard = t0 + hard_secs;
  std::vector<pid_t> pid(workers, 0);
  std::vector<uint64_t> crashes(workers, 0);
  std::vector<Violation> viol;
  std::vector<std::string> flaky;
  int active = 0;
  auto spawn = [&](int w, uint64_t start) {
    S->w[w].case_start = now();
    pid_t p = fork();
    if (p == 0) { setpgid(0, 0); worker_main(w, start, deadline, min_cases, hard); _exit(3); }
    pid[w] = p;
  };
  (void)slot0;
  for (int w = 0; w < workers; w++) { spawn(w, 0); active++; }
  while (active > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(2000);
      for (int w = 0; w < workers; w++)
        if (pid[w] && now() - S->w[w].case_start > g_prop->case_timeout * (thorough() ? 4 : 1) * (g_cov ? 3 : 1)) kill(-pid[w], SIGKILL);
      continue;
    }
    int w = -1;
    for (int i = 0; i < workers; i++) if (pid[i] == p) w = i;
    if (w < 0) continue;
    pid[w] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { active--; continue; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { spawn(w, S->w[w].start_idx); continue; }
    // failing, crashing or hanging case
    WorkerShm &ws = S->w[w];
    std::vector<uint64_t> tp(ws.tape, ws.tape + ws.ntape);
    uint64_t idx = ws.case_idx, from = ws.start_idx;
    double took = now() - ws.case_start;
    bool by_oracle = WIFEXITED(st) && WEXITSTATUS(st) == 1;
    std::string msg = by_oracle ? ws.msg : "";
    double tmo = std::max(10.0, std::min(g_prop->case_timeout * 2, took * 4 + 5));
    int rep = 0; Outcome o{false, "", ""}, last{false, "", ""};
    for (int k = 0; k < 3; k++) { o = run_tape(tp, tmo); if (o.failed) { rep++; last = o; } }
    if (rep == 0 && g_prop->threads) for (int k = 0; k < 40 && rep == 0; k++) { o = run_tape(tp, tmo); if (o.failed) { rep++; last = o; } }
    Violation v;
    if (rep > 0 && rep < 3 && last.kind == "hang") rep = 0;  // a slow machine is not a hang
    if (rep > 0) {
      v.kind = last.kind; v.msg = last.msg; v.tape = tp;
      v.note = rep == 3 ? "reproduced 3/3" : fmt("reproduced %d times (depends on the schedule)", rep);
      // stop the other workers while shrinking
      S->stop = 1;
      if (rep == 3 && last.kind != "hang") v.tape = shrink(tp, last.kind, g_prop->threads ? 15 : 30, tmo);
      Outcome f = run_tape(v.tape, tmo);
      if (f.failed) v.msg = f.msg;
      viol.push_back(v);
    } else {
      Outcome h = g_cov ? Outcome{false, "", ""} : run_history(w, from, idx, 120 + 10 * tmo);   // a guided history is not repeatable
      if (h.failed) {
        v.kind = h.kind; v.msg = h.msg; v.hist = true; v.worker = w; v.from = from; v.to = idx; v.tape = tp;
        v.note = "reproduced by replaying the worker's history";
        S->stop = 1; viol.push_back(v);
      } else if (by_oracle && g_prop->threads) {
        v.kind = "mismatch"; v.msg = msg; v.tape = tp; v.note = "observed once; depends on the schedule";
        S->stop = 1; viol.push_back(v);
      } else {
        flaky.push_back((by_oracle ? "oracle: " + msg : fmt(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "killed: status %d" : "crash: status %d", st)) + fmt(" (case %llu)", (unsigned long long)idx));
      }
    }
    if (!viol.empty()) {  // one shrunk violation is enough: end the other workers
      for (int i = 0; i < workers; i++) if (pid[i]) { kill(-pid[i], SIGKILL); kill(pid[i], SIGKILL); int s2; waitpid(pid[i], &s2, 0); pid[i] = 0; }
      break;
    }
    if (++crashes[w] > 5) { active--; continue; }
    spawn(w, idx + 1);
  }
  // an oracle mismatch that shows repeatedly although no replay repeats it is still a violation
  int fo = 0; for (auto &s : flaky) if (s.compare(0, 7, "oracle:") == 0 || s.compare(0, 6, "crash:") == 0) fo++;
  if (viol.empty() && fo >= 2) { Violation v; v.kind = "mismatch"; v.msg = flaky[0]; v.note = "seen in several cases, not repeated by replay"; viol.push_back(v); }

  FILE *f = fopen(out, "w"); if (!f) return 2;
  fprintf(f, "{\"build\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"discarded\":%llu,\"wall\":%.2f,\n",
          IS_ASAN ? "asan" : g_cov ? "cov" : "rel", (unsigned long long)S->evals, (unsigned long long)S->nontriv,
          (unsigned long long)S->distinct, (unsigned long long)S->discards, now() - t0);
  if (g_cov) {
    uint64_t n = 0; for (auto &x : C->seen) n += x.load(std::memory_order_relaxed);
    fprintf(f, "\"guided\":{\"tapes_kept\":%u,\"coverage_features\":%llu},\n", (unsigned)std::min<uint32_t>(C->n, CORPUS), (unsigned long long)n);
  }
  fprintf(f, "\"rule\":%s,\n\"labels\":{", jstr(g_prop->rule).c_str());
  bool first = true;
  for (auto &l : S->labels) if (l.state) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(l.name).c_str(), (unsigned long long)l.n); first = false; }
  fprintf(f, "},\n\"samples\":[");
  int ns = S->nsamples; if (ns > 24) ns = 24;
  for (int i = 0; i < ns; i++) fprintf(f, "%s%s", i ? "," : "", jstr(S->samples[i]).c_str());
  fprintf(f, "],\n\"known\":[");
  first = true;
  for (auto &k : S->known) if (k.id[0]) { fprintf(f, "%s{\"id\":%s,\"n\":%llu,\"what\":%s}", first ? "" : ",", jstr(k.id).c_str(), (unsigned long long)k.n, jstr(k.what).c_str()); first = false; }
  fprintf(f, "],\n\"flaky\":[");
  for (size_t i = 0; i < flaky.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(flaky[i]).c_str());
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < viol.size(); i++) {
    auto &v = viol[i];
    fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"note\":%s,\"history\":%s,\"seed\":%llu,\"worker\":%d,\"from\":%llu,\"to\":%llu,\"tape\":[", i ? "," : "",
            jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.note).c_str(), v.hist ? "true" : "false", (unsigned long long)g_seed, v.worker,
            (unsigned long long)v.from, (unsigned long long)v.to);
    for (size_t k = 0; k < v.tape.size(); k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)v.tape[k]);
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  fclose(f);
  return viol.empty() ? 0 : 1;
}

void oracle_selftest();
#ifndef PBT_NO_MAIN
int main(int argc, char **argv) {
  std::string prop, out = "/dev/stdout", tapefile, hist; int workers = 4; double secs = 10, hard = 600; long minc = 0; g_seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--seed") g_seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--secs") secs = atof(val().c_str());
    else if (a == "--hard") hard = atof(val().c_str());
    else if (a == "--min") minc = atol(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--tape") tapefile = val();
    else if (a == "--history") hist = val();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--cov") g_cov = true;
    else if (a == "--scratch") g_base_scratch = val();
    else if (a == "--known") { std::string s = val(), c; for (char ch : s + ",") if (ch == ',') { if (!c.empty()) g_known_ids.insert(c); c.clear(); } else c += ch; }
    else if (a == "--list") { for (auto &p : props()) printf("%s %s\n", p.id, p.name); return 0; }
  }
  for (auto &p : props()) if (prop == p.id) g_prop = &p;
  if (!g_prop) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  if (g_base_scratch.empty()) { char d[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(d)) return 2; g_base_scratch = d; }
  else mkdir(g_base_scratch.c_str(), 0700);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 2;
  if (g_cov) { C = (Corpus *)mmap(0, sizeof(Corpus), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (C == MAP_FAILED) return 2; }
  W = &S->w[31];
  signal(SIGPIPE, SIG_IGN);
  oracle_selftest();
  int rc;
  if (!tapefile.empty()) {
    std::vector<uint64_t> tp;
    FILE *f = fopen(tapefile.c_str(), "r"); if (!f) return 2;
    unsigned long long v; while (fscanf(f, " %llu", &v) == 1) { tp.push_back(v); int c = fgetc(f); if (c == EOF) break; }
    fclose(f);
    Outcome o{false, "", ""};
    for (int k = 0; k < (g_prop->threads ? 40 : 3) && !o.failed; k++) o = run_tape(tp, 300);
    printf("%s %s\n%s\n", o.failed ? "FAILS" : "HOLDS", o.kind.c_str(), o.msg.c_str());
    rc = o.failed ? 1 : 0;
  } else if (!hist.empty()) {
    unsigned long long a, b; int w; if (sscanf(hist.c_str(), "%d:%llu:%llu", &w, &a, &b) != 3) return 2;
    Outcome o = run_history(w, a, b, 900);
    printf("%s %s\n%s\n", o.failed ? "FAILS" : "HOLDS", o.kind.c_str(), o.msg.c_str());
    rc = o.failed ? 1 : 0;
  } else {
    if (g_prop->threads && workers > 2) workers = std::max(1, workers / 3);
    if (!minc) minc = g_cov ? 1 : IS_ASAN ? g_prop->min_asan : g_prop->min_rel;
    rc = do_run(workers, secs, minc, hard, out.c_str(), 0);
  }
  rm_rf(g_base_scratch);
  return rc;
}
#endif
