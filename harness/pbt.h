// Small property-based testing engine: every random choice is drawn from a recorded "tape",
// so a failing case can be replayed and shrunk by editing the tape.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <memory>

typedef std::vector<uint8_t> Bytes;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

inline uint64_t mix64(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15));
  r.next();
  return r.next() ^ b;
}

struct Fail { std::string msg; };
// the property does not hold for this case
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// the generated case is outside the property's precondition (not counted)
struct Discard {};
[[noreturn]] inline void discard() { throw Discard(); }

// a defect that is listed in known_findings.txt showed; fails when the id is not listed
void known(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

std::string hex(const uint8_t *p, size_t n, size_t max = 48);
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

class Tape {
 public:
  // [0, n)
  uint64_t below(uint64_t n);
  // [lo, hi]
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) {  // tape value 0 means false: shrinks to "no"
    return below(den) >= den - num;
  }
  bool coin() { return below(2) == 1; }
  uint64_t u64();
  // true exactly once per run: in the given case of the given worker (the choice is recorded on the tape)
  bool once(int worker, uint64_t index);
  bool nested = false;   // set where a property runs the cases of another, perhaps many times: never the exceptionally long ones
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // data bytes: one pattern choice and one seed (or, for short data, the words themselves); shrinks to zeros
  Bytes bytes(size_t n);
  // length with mass on the edges of 16/64/128-byte blocks, at most max
  size_t length(size_t max);
  // 2^lo .. 2^(hi+1), every power of two about as often, mass next to it
  size_t log_length(unsigned lo, unsigned hi);
  // statistics
  void label(const std::string &s);
  void nontrivial(bool b = true) { nontriv_ = b; }
  void describe(const std::string &s) { if (desc_.size() < 600) { if (!desc_.empty()) desc_ += "; "; desc_ += s; } }

  // engine internals
  uint64_t *buf = nullptr; size_t cap = 0; volatile size_t *count = nullptr;
  const uint64_t *rp = nullptr; size_t rn = 0, pos = 0; bool replay = false;
  bool guided = false;   // a mutated tape: drawn at random where it ends
  Rng rng;
  bool nontriv_ = true; std::string desc_;
};

// Caller-side buffer of exactly n bytes: red zones catch writes outside it (and ASan reads too).
class Buf {
 public:
  explicit Buf(size_t n, int fill = 0xA5, size_t misalign = 0);
  explicit Buf(const Bytes &b, size_t misalign = 0);
  ~Buf();
  Buf(const Buf &) = delete;
  uint8_t *p() { return p_; }
  char *c() { return (char *)p_; }
  size_t size() const { return n_; }
  Bytes get() const { return Bytes(p_, p_ + n_); }
  Bytes get(size_t k) const { return Bytes(p_, p_ + (k < n_ ? k : n_)); }
  void check(const char *what);  // fails when a red zone was written
 private:
  uint8_t *base_, *p_; size_t n_, mis_;
};

typedef void (*CaseFn)(Tape &);
struct Prop {
  const char *id;
  const char *name;
  CaseFn fn;
  const char *rule;       // non-triviality rule
  int min_rel, min_asan;  // minimal number of cases in the quick tier per build
  bool threads = false;   // the cases start threads of their own: fewer workers
  double case_timeout = 60;
};
void register_prop(const Prop &p);
struct RegProp { RegProp(const Prop &p) { register_prop(p); } };
#define PROPERTY(...) static RegProp CAT_(reg_, __LINE__)(Prop{__VA_ARGS__})
#define CAT_(a, b) CAT2_(a, b)
#define CAT2_(a, b) a##b

bool thorough();
const std::vector<Prop> &all_props();
int worker_index();
bool asan_build();
const std::string &scratch_dir();   // private directory of this worker
uint64_t case_index();              // index of the case within the worker (0 = first)
void fix_random(uint32_t base, uint32_t step);   // restarts time() and all random generators
void fill_memory(int heap, int stack);          // what fresh memory holds from now on
bool used_unseeded_rand();                      // did the library call rand() without ever calling srand()
void set_time(uint32_t base, uint32_t step);  // what time() returns to the library
// While one exists (in the cov build), every thread pauses at basic blocks of the library drawn at random, so that the threads
// overtake each other inside its functions.
struct Interleave { explicit Interleave(Tape &t); ~Interleave(); };
