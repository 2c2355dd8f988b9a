// P38 random placement: the shuffle helper and the dummy rounds of white-box SM4
#include "lib.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
extern "C" {
#include <wbcrypto/utils.h>
}
// counts of k equally likely outcomes in n trials; refused only far beyond chance (below 1e-11)
static void uniform(const std::vector<double> &count, double n, const std::function<std::string(size_t)> &name, const char *what) {
  double k = (double)count.size(), e = n / k, chi = 0; size_t worst = 0;
  for (size_t i = 0; i < count.size(); i++) { double d = count[i] - e; chi += d * d / e; if (fabs(d) > fabs(count[worst] - e)) worst = i; }
  double df = k - 1, limit = df + 8 * sqrt(2 * df) + 40;
  CHECK(chi < limit, "%s: %s came out %.0f times of %.0f, about %.0f expected (chi-square %.0f, at most %.0f)", what, name(worst).c_str(), count[worst], n, e, chi, limit);
}
static void shuffle_once(Bytes &l, const char *what) {
  Buf b(l); Bytes before = l;
  int r = wRandomShuffleU8(b.p(), (int)l.size());
  CHECK(r == 0, "shuffling %zu bytes returned %d", before.size(), r); b.check(what);
  l = b.get(); Bytes x = l, y = before; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  CHECK(x == y, "shuffling %s gave %s, which is no rearrangement", hex(before).c_str(), hex(l).c_str());
}
static void p38(Tape &t) {
  switch (t.below(4)) {
    case 0: {   // arbitrary lists
      t.label("arbitrary list"); t.nontrivial(false);
      int reps = 1 + (int)t.below(20);
      for (int i = 0; i < reps; i++) { Bytes l = t.bytes(t.length(300)); if (l.size() > 1) t.nontrivial(); shuffle_once(l, "shuffled list"); }
      t.describe(fmt("%d arbitrary lists", reps)); break;
    }
    case 1: {   // all arrangements of a short list
      size_t n = 2 + t.below(4); Bytes l(n); for (size_t i = 0; i < n; i++) l[i] = (uint8_t)(17 * i + 3);
      t.label("arrangements of a short list"); t.describe(fmt("all arrangements of %zu elements", n));
      std::map<Bytes, size_t> idx; std::vector<Bytes> all; Bytes q = l; do { idx[q] = all.size(); all.push_back(q); } while (std::next_permutation(q.begin(), q.end()));
      std::vector<double> cnt(all.size()); double N = 60.0 * (double)all.size() + 200;
      for (int i = 0; i < (int)N; i++) { Bytes x = l; shuffle_once(x, "shuffled list"); cnt[idx[x]]++; }
      uniform(cnt, (int)N, [&](size_t i) { return "the arrangement " + hex(all[i]); }, fmt("shuffles of %zu different bytes", n).c_str());
      break;
    }
    case 2: {   // where an element goes
      if (t.chance(1, 4)) {   // a long list: in which sixteenth of it
        size_t n = t.log_length(6, 9), from = t.pick<size_t>({0, n - 1, n - 1, t.below(n)}); n -= n % 16; if (from >= n) from = n - 1; Bytes l(n, 0); l[from] = 1;
        t.label("destination in a long list"); t.describe(fmt("destination of element %zu of %zu", from, n));
        int N = 1200; std::vector<double> cnt(16);
        for (int i = 0; i < N; i++) { Bytes x = l; shuffle_once(x, "shuffled list"); cnt[(size_t)(std::find(x.begin(), x.end(), 1) - x.begin()) / (n / 16)]++; }
        uniform(cnt, N, [](size_t i) { return fmt("sixteenth %zu", i); }, fmt("shuffles of %zu bytes, destination of element %zu", n, from).c_str());
        break;
      }
      size_t n = 6 + t.below(60), from = t.pick<size_t>({0, n - 1, t.below(n)}); Bytes l(n); for (size_t i = 0; i < n; i++) l[i] = (uint8_t)i;
      t.label("destination of one element"); t.describe(fmt("destination of element %zu of %zu", from, n));
      int N = 30 * (int)n; std::vector<double> cnt(n);
      for (int i = 0; i < N; i++) { Bytes x = l; shuffle_once(x, "shuffled list"); cnt[(size_t)(std::find(x.begin(), x.end(), (uint8_t)from) - x.begin())]++; }
      uniform(cnt, N, [](size_t i) { return fmt("position %zu", i); }, fmt("shuffles of %zu bytes, destination of element %zu", n, from).c_str());
      break;
    }
    default: {   // the dummy rounds of a generated key
      int d = 1 + (int)t.below(3), reps = 10; bool enc = t.coin(); Bytes key = draw_key(t); Buf kb(key); uint32_t base = (uint32_t)t.u64();
      t.label("dummy rounds"); t.describe(fmt("%d generations with %d dummy rounds", reps, d));
      std::set<std::vector<int>> seen;
      for (int r = 0; r < reps; r++) {
        set_time(base + 7919u * (uint32_t)r, 1);   // at another time each
        WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(enc, d); CHECK(c, "context_init");
        struct Free { WBCRYPTO_wbsm4_context *c; ~Free() { drop(c); } } fr{c};
        CHECK(c->rounds == 32 + 4 * d, "a context with %d dummy rounds has %d rounds", d, c->rounds);
        CHECK(WBCRYPTO_wbsm4_gen_table(c, kb.p(), key.size()) == 1, "gen_table");
        // a round is a dummy if what it adds to the state does not depend on its inputs
        std::vector<int> at;
        for (int i = 0; i < c->rounds; i++) {
          bool con = true; for (int j = 0; j < 4 && con; j++) for (int x = 1; x < 256; x++) if (c->DD[i][j][x] != c->DD[i][j][0]) { con = false; break; }
          if (con) at.push_back(i);
        }
        CHECK((int)at.size() == 4 * d, "%d of %d rounds have no effect, %d dummy rounds were asked for", (int)at.size(), c->rounds, 4 * d);
        for (size_t i = 0; i < at.size(); i += 4) for (int j = 1; j < 4; j++) CHECK(at[i + j] == at[i] + j, "dummy rounds do not come in groups of four (round %d)", at[i]);
        seen.insert(at);
      }
      CHECK(seen.size() > 1, "%d generations put the dummy rounds at the same place each time", reps);
    }
  }
  CHECK(!used_unseeded_rand(), "rand() is used without ever being seeded: every process draws the same numbers");
}
PROPERTY("P38", "random placement", p38, "the list has at least two elements or tables with dummy rounds were generated", 100, 20);
