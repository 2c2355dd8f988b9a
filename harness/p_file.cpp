// P14 file round trip, P15 file authenticity, P16 I/O failures, P19 white-box GCM files
#include "file_common.h"
#include <algorithm>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

bool read_file(const std::string &p, Bytes &b) {
  b.clear(); FILE *f = fopen(p.c_str(), "rb"); if (!f) return false;
  uint8_t k[4096]; size_t n; while ((n = fread(k, 1, sizeof k, f)) > 0) b.insert(b.end(), k, k + n);
  fclose(f); return true;
}
void write_file(const std::string &p, const Bytes &b) {
  FILE *f = fopen(p.c_str(), "wb"); if (!f) { fprintf(stderr, "harness: cannot write %s\n", p.c_str()); abort(); }
  if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) abort();
  if (fclose(f)) abort();
}
bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
std::vector<std::string> list_dir(const std::string &d) {
  std::vector<std::string> v; DIR *h = opendir(d.c_str()); if (!h) return v;
  while (struct dirent *e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(h); std::sort(v.begin(), v.end()); return v;
}
void clear_dir(const std::string &d) {
  for (auto &n : list_dir(d)) { std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { clear_dir(f); rmdir(f.c_str()); } else unlink(f.c_str()); }
}
std::string fresh_dir() {
  std::string d = scratch_dir() + "/case"; mkdir(d.c_str(), 0700); clear_dir(d); return d;
}
struct PlainFile : FileDev {
  CipherP c; WBCRYPTO_gcmfile_context *g;
  explicit PlainFile(CipherP x) : c(x), g(x->gcmfile()) { ref = c->ref.get(); name = kind_name[c->kind]; }
  ~PlainFile() override { free(g->gcm); free(g); }
  int begin(bool, const Bytes &iv, const Bytes &aad) override {
    Buf vb(iv), ab(aad); if (WBCRYPTO_gcmfile_setiv(g, vb.p(), iv.size()) != 1) return 0;
    return aad.empty() ? 1 : WBCRYPTO_gcmfile_aad(g, ab.p(), aad.size());
  }
  int run(bool e, const std::string &in, const std::string &out) override {
    return e ? WBCRYPTO_gcmfile_encrypt(g, (char *)in.c_str(), (char *)out.c_str()) : WBCRYPTO_gcmfile_decrypt(g, (char *)in.c_str(), (char *)out.c_str());
  }
};
struct EEFile : FileDev {
  EEDev d; explicit EEFile(EE *e) : d(e) { ref = e->ref.get(); name = "wbgcm-ee"; }
  int begin(bool, const Bytes &iv, const Bytes &aad) override { Buf vb(iv), ab(aad); if (d.setiv(vb.p(), iv.size()) != 1) return 0; return aad.empty() ? 1 : d.aad(ab.p(), aad.size()); }
  int run(bool e, const std::string &in, const std::string &out) override {
    return e ? WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(d.g, (char *)in.c_str(), (char *)out.c_str()) : WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(d.g, (char *)in.c_str(), (char *)out.c_str());
  }
};
struct MaskFile : FileDev {
  MaskDev e, d; explicit MaskFile(Mask *m) : e(m, true), d(m, false) { ref = m->ref.get(); mask = learn_mask(m); name = "wbgcm-mask"; }
  int begin(bool enc, const Bytes &iv, const Bytes &aad) override { MaskDev &x = enc ? e : d; Buf vb(iv), ab(aad); if (x.setiv(vb.p(), iv.size()) != 1) return 0; return aad.empty() ? 1 : x.aad(ab.p(), aad.size()); }
  int run(bool enc, const std::string &in, const std::string &out) override {
    return enc ? WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(e.g, (char *)in.c_str(), (char *)out.c_str()) : WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(d.g, (char *)in.c_str(), (char *)out.c_str());
  }
};
std::unique_ptr<FileDev> draw_filedev(Tape &t, bool wbgcm, bool fast) {
  std::unique_ptr<FileDev> f;
  if (fast && !wbgcm) f.reset(new PlainFile(draw_cipher(t, {K_AES, K_SM4})));
  else if (!wbgcm) f.reset(new PlainFile(draw_cipher(t, {K_AES, K_SM4, K_WBAES, K_WBSM4})));
  else if (t.coin()) f.reset(new EEFile(draw_ee(t)));
  else f.reset(new MaskFile(draw_mask(t)));
  t.label(f->name);
  return f;
}
size_t file_length(Tape &t, size_t max) {
  switch (t.below(5)) {
    case 0: return t.below(40);
    case 1: { size_t k = 128 * t.below(40) + 127 + t.below(3); return std::min(k, max); }
    case 2: { size_t k = 4096 * (1 + t.below(3)) - 30 + t.below(60); return std::min(k, max); }
    case 3: return t.length(max);
    default: return t.below(max + 1);
  }
}
static Bytes sealed(const FileDev &f, const Bytes &iv, const Bytes &aad, const Bytes &pt) {
  Bytes ct, tag; model_encrypt(*f.ref, f.mask, iv, aad, pt, ct, tag);
  Bytes o = tag; uint64_t n = pt.size(); for (int i = 0; i < 8; i++) { o.push_back((uint8_t)n); n >>= 8; }
  o.insert(o.end(), ct.begin(), ct.end()); return o;
}
static std::string draw_name(Tape &t, const char *base) {
  switch (t.below(4)) { case 0: return base; case 1: return std::string(base) + ".tmp"; case 2: return std::string("a b") + base + ".x"; default: return std::string(base) + std::string(1 + t.below(60), 'n'); }
}
// sizes whose upper length bytes matter: 2^15..2^17, 2^19..2^21, 2^23..2^25
static size_t big_length(Tape &t) {
  static const size_t base[] = {1u << 16, 1u << 20, 1u << 23, 1u << 24};
  size_t b = base[t.below(4)];
  switch (t.below(3)) { case 0: return b - 3 + t.below(7); case 1: return b / 2 + t.below(b); default: return b - 200 + t.below(400); }
}
static void round_trip(Tape &t, bool wbgcm) {
  // a few large files per run
  bool big = false;
  for (int w = 0; w < 5; w++) for (int i = 0; i < (thorough() ? 16 : 4); i++) if (!asan_build() && t.once(w, 5 + 40 * i)) big = true;
  auto f = draw_filedev(t, wbgcm, big);
  std::string d = fresh_dir(), in = d + "/" + draw_name(t, "in"), enc = d + "/" + draw_name(t, "enc"), dec = d + "/" + draw_name(t, "dec");
  // names that are related to each other, and files that have nothing to do with the operation
  if (t.chance(1, 6)) { (t.coin() ? in : dec) = enc + t.pick<const char *>({".tmp", ".tmp", ".temp", ".bak", "~", ".1"}); t.label("input or result named after the encrypted file"); }
  std::vector<std::pair<std::string, Bytes>> others;
  for (unsigned k = (unsigned)t.below(3); k-- > 0;) {
    std::string p = t.pick<std::string>({enc, enc, enc, in, dec}) + t.pick<const char *>({".tmp", ".tmp", ".temp", ".bak", "~", ".1"}); bool used = p == in || p == enc || p == dec;
    for (auto &o : others) used |= o.first == p;
    if (!used) { others.push_back({p, t.bytes(t.below(9000))}); t.label("unrelated files present"); }
  }
  bool onto = t.chance(1, 8); if (onto) t.label("file encrypted onto itself");
  int files = big ? 1 : 1 + (int)t.below(3);   // the same context serves several files
  for (int k = 0; k < files; k++) {
    size_t n = file_length(t, 14000);
    if (asan_build() || f->name == "wbsm4") n = std::min<size_t>(n, 5000);
    if (big) { n = big_length(t); if (wbgcm) n = std::min<size_t>(n, thorough() ? 1100000 : 200000); t.label(n > (1u << 22) ? "file above 4 MB" : n > (1u << 18) ? "file above 256 kB" : "file above 32 kB"); }
    Bytes m = t.bytes(n), iv = draw_iv(t, *f->ref), aad = draw_aad(t), got;
    t.describe(fmt("%s file of %zu bytes iv=%s aad=%zu", f->name.c_str(), n, hex(iv, 16).c_str(), aad.size()));
    t.label(n == 0 ? "empty file" : n % 128 == 0 ? "multiple of 128" : "other length");
    write_file(in, m);
    if (t.chance(1, 3)) { write_file(enc, t.bytes(t.below(20000))); t.label("old output file present"); }
    for (auto &o : others) write_file(o.first, o.second);
    CHECK(f->begin(true, iv, aad) == 1, "setiv/aad");
    int link_kind = onto ? (int)t.below(3) : 0;   // the same name, a symbolic or a hard link
    if (onto) { write_file(enc, m); unlink(in.c_str()); if (link_kind == 1 ? symlink(enc.c_str(), in.c_str()) : link_kind == 2 ? link(enc.c_str(), in.c_str()) : 0) discard(); }
    int r = f->run(true, onto && !link_kind ? enc : in, enc);
    if (onto) { unlink(in.c_str()); write_file(in, m); }
    CHECK(r == 1, "%s: encrypting a file of %zu bytes returned %d", f->name.c_str(), n, r);
    CHECK(read_file(in, got) && got == m, "%s: encrypting changed the input file", f->name.c_str());
    Bytes want = sealed(*f, iv, aad, m);
    CHECK(read_file(enc, got), "no output file");
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; fail("%s: encrypted file of %zu bytes is %zu bytes long (want %zu) and differs from tag|length|ciphertext at offset %zu: got %s, want %s", f->name.c_str(), n, got.size(), want.size(), i, hex(Bytes(got.begin() + std::min(i, got.size()), got.end()), 24).c_str(), hex(Bytes(want.begin() + std::min(i, want.size()), want.end()), 24).c_str()); }
    if (t.chance(1, 3)) write_file(dec, t.bytes(t.below(20000)));
    CHECK(f->begin(false, iv, aad) == 1, "setiv/aad");
    r = f->run(false, enc, dec);
    CHECK(r == 1, "%s: decrypting an untouched file of %zu bytes returned %d", f->name.c_str(), n, r);
    CHECK(read_file(dec, got), "no decrypted file");
    CHECK(got == m, "%s: a file of %zu bytes came back as %zu bytes, different contents", f->name.c_str(), n, got.size());
    Bytes e2; CHECK(read_file(enc, e2) && e2 == want, "%s: decrypting changed the encrypted file", f->name.c_str());
    std::vector<std::string> l = list_dir(d);
    std::vector<std::string> w = {in.substr(d.size() + 1), enc.substr(d.size() + 1), dec.substr(d.size() + 1)};
    for (auto &o : others) { CHECK(read_file(o.first, got) && got == o.second, "%s: the file %s, which is neither input nor output (%s), was changed or removed", f->name.c_str(), o.first.c_str() + d.size() + 1, enc.c_str() + d.size() + 1); w.push_back(o.first.substr(d.size() + 1)); }
    std::sort(w.begin(), w.end());
    CHECK(l == w, "%s: unexpected files in the directory (%zu instead of %zu)", f->name.c_str(), l.size(), w.size());
    t.nontrivial(n > 0);
  }
  clear_dir(d);
}
static void authenticity(Tape &t, bool wbgcm) {
  auto f = draw_filedev(t, wbgcm);
  std::string d = fresh_dir(), in = d + "/in", enc = d + "/enc", bad = d + "/bad", dec = d + "/dec";
  size_t n = t.coin() ? t.below(300) : file_length(t, 3000);
  Bytes m = t.bytes(n), iv = draw_iv(t, *f->ref), aad = draw_aad(t), good;
  write_file(in, m);
  CHECK(f->begin(true, iv, aad) == 1, "setiv/aad");
  CHECK(f->run(true, in, enc) == 1, "encrypt");
  read_file(enc, good);
  for (int k = 0; k < 4; k++) {
    Bytes b = good, iv2 = iv, aad2 = aad; std::string what;
    switch (t.below(11)) {
      case 0: { size_t i = t.below(16); b[i] ^= (uint8_t)(1 << t.below(8)); what = fmt("tag byte %zu altered", i); break; }
      case 1: { size_t i = 16 + t.below(8); b[i] ^= (uint8_t)(1 << t.below(8)); what = fmt("length byte %zu altered", i - 16); break; }
      case 2: case 3: if (!n) continue; { size_t i = 24 + t.below(n); b[i] ^= (uint8_t)(1 << t.below(8)); what = fmt("ciphertext byte %zu of %zu altered", i - 24, n); } break;
      case 4: { size_t c = t.below(b.size()); b.resize(c); what = fmt("file cut from %zu to %zu bytes", good.size(), c); break; }
      case 5: { size_t c = 1 + t.below(200); b.resize(b.size() + c, 0); what = fmt("%zu bytes appended", c); break; }
      case 6: { // cut or extended with the recorded length adjusted
        size_t n2 = t.coin() && n ? t.below(n) : n + 1 + t.below(200); if (n2 == n) continue;
        b.resize(24 + n2, 0); for (int i = 0; i < 4; i++) b[16 + i] = (uint8_t)(n2 >> (8 * i)); what = fmt("length changed from %zu to %zu consistently", n, n2); break; }
      case 7: if (n < 32) continue; { size_t i = t.below(n / 16), j = t.below(n / 16); std::swap_ranges(b.begin() + 24 + 16 * i, b.begin() + 40 + 16 * i, b.begin() + 24 + 16 * j); what = "blocks swapped"; } break;
      case 8: { size_t i = t.below(iv2.size()); iv2[i] ^= (uint8_t)(1 << t.below(8)); what = "other IV"; break; }
      case 9: { aad2 = t.bytes(1 + t.below(20)); what = "other AAD"; break; }
      default: { b = t.bytes(t.below(200)); what = "arbitrary file"; }
    }
    if (b == good && iv2 == iv && aad2 == aad) continue;
    write_file(bad, b);
    CHECK(f->begin(false, iv2, aad2) == 1, "setiv/aad");
    int r = f->run(false, bad, dec);
    { std::string l; for (char ch : what) if (ch < '0' || ch > '9') l += ch; t.label(l); }
    t.describe(fmt("%s %zu bytes: %s", f->name.c_str(), n, what.c_str()));
    CHECK(r == 0, "%s: %s (plaintext %zu bytes, aad %zu bytes), yet decryption returned %d", f->name.c_str(), what.c_str(), n, aad.size(), r);
    Bytes now; CHECK(read_file(bad, now) && now == b, "decrypting changed the input file");
  }
  // and the untouched file is still accepted by the same context
  CHECK(f->begin(false, iv, aad) == 1, "setiv/aad");
  CHECK(f->run(false, enc, dec) == 1, "%s: the untouched file of %zu bytes is refused after altered ones", f->name.c_str(), n);
  Bytes got; CHECK(read_file(dec, got) && got == m, "%s: contents differ after altered files were refused", f->name.c_str());
  clear_dir(d);
}
static void p14(Tape &t) { round_trip(t, false); }
PROPERTY("P14", "file encryption round trip", p14, "the last file of the case is not empty", 400, 60);
static void p15(Tape &t) { authenticity(t, false); }
PROPERTY("P15", "file authenticity", p15, "every case seals a file and offers up to four altered versions", 400, 60);
static void p19(Tape &t) { if (t.coin()) round_trip(t, true); else authenticity(t, true); }
PROPERTY("P19", "white-box GCM files", p19, "the case encrypted a non-empty file or offered altered files", 300, 40);

// ---------------------------------------------------------------- P16
struct SizeLimit {   // every write beyond `lim` bytes of a file fails while this lives
  struct rlimit old; void (*h)(int);
  explicit SizeLimit(rlim_t lim) { h = signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); struct rlimit n = {lim, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &n); }
  ~SizeLimit() { setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, h); }
};
static void p16(Tape &t) {
  std::string d = fresh_dir();
  unsigned fam = (unsigned)t.below(5);  // gcmfile, wbgcm file, wbsm4 export, keystore, wbsm4 import / keystore import
  if (fam < 2) {
    auto f = draw_filedev(t, fam == 1);
    bool enc = t.coin(); size_t n = t.coin() ? file_length(t, 3000) : file_length(t, 12000);
    Bytes m = t.bytes(n), iv = draw_iv(t, *f->ref), aad = draw_aad(t);
    std::string in = d + "/in", out = d + "/out";
    Bytes src = enc ? m : sealed(*f, iv, aad, m);
    size_t outsize = enc ? n + 24 : n;
    write_file(in, src);
    CHECK(f->begin(enc, iv, aad) == 1, "setiv/aad");
    int r, want = 0; std::string what;
    switch (t.below(9)) {
      case 8: { // the output is a pipe, which no limit applies to; only intermediate files can fail
        if (mkfifo(out.c_str(), 0600)) discard();
        int fd = open(out.c_str(), O_RDONLY | O_NONBLOCK); if (fd < 0) discard();
        size_t lim = t.below(n + 1); what = fmt("%zu of %zu bytes can be written to files, output to a pipe", lim, outsize);
        { SizeLimit L(lim); r = f->run(enc, in, out); }
        Bytes got(outsize + 100); ssize_t k, all = 0; while (all < (ssize_t)got.size() && (k = read(fd, got.data() + all, got.size() - all)) > 0) all += k;
        close(fd); got.resize(all); want = r;
        if (r) CHECK(got == (enc ? sealed(*f, iv, aad, m) : m), "%s: %s a file of %zu bytes returned %d although %s and what it wrote is wrong (%zd bytes)", f->name.c_str(), enc ? "encrypting" : "decrypting", n, r, what.c_str(), all);
        break; }
      case 0: what = "input file missing"; r = f->run(enc, d + "/absent", out); break;
      case 1: what = "input directory missing"; r = f->run(enc, d + "/absent/in", out); break;
      case 2: what = "output directory missing"; r = f->run(enc, in, d + "/absent/out"); break;
      case 3: what = "output path is a directory"; mkdir(out.c_str(), 0700); r = f->run(enc, in, out); break;
      case 4: what = "input path is a directory"; mkdir((d + "/dir").c_str(), 0700); r = f->run(enc, d + "/dir", out); break;
      case 5: // no space at all on the output device
        if (symlink("/dev/full", out.c_str())) discard();   // (never the temporary file: reading /dev/full back yields endless zeros)
        what = "device full"; if (outsize == 0) want = 1;
        r = f->run(enc, in, out); break;
      default: {
        size_t lim = t.coin() ? t.below(outsize + 1) : outsize - std::min<size_t>(outsize, t.below(40));
        what = fmt("%zu of %zu bytes can be written", lim, outsize); want = lim >= outsize;
        SizeLimit L(lim); r = f->run(enc, in, out);
      }
    }
    t.label(what.substr(0, what.find_first_of("0123456789")).empty() ? "size limit" : what);
    t.describe(fmt("%s %s %zu bytes: %s", f->name.c_str(), enc ? "encrypt" : "decrypt", n, what.c_str()));
    CHECK(r == want, "%s: %s of a file of %zu bytes returned %d although %s", f->name.c_str(), enc ? "encryption" : "decryption", n, r, what.c_str());
    for (auto &x : list_dir(d)) CHECK(x == "in" || x == "out" || x == "dir", "%s: a file %s is left behind (%s)", f->name.c_str(), x.c_str(), what.c_str());
    // the fault leaves the context usable
    if (exists(out)) { struct stat st; lstat(out.c_str(), &st); if (S_ISDIR(st.st_mode)) rmdir(out.c_str()); else unlink(out.c_str()); }
    CHECK(f->begin(enc, iv, aad) == 1, "setiv/aad");
    r = f->run(enc, in, out);
    Bytes got; CHECK(r == 1 && read_file(out, got) && got == (enc ? sealed(*f, iv, aad, m) : m), "%s: after a failed attempt (%s) the same file cannot be processed", f->name.c_str(), what.c_str());
  } else {
    std::string p = d + "/key"; int r, want = 0; std::string what, who;
    bool ex = t.coin();
    CipherP c; size_t size; Bytes blob;
    if (fam == 2 || fam == 4) { c = draw_cipher(t, {K_WBSM4}); who = "white-box SM4 key"; size = 16 + 8 + (32 + 4 * c->dummy) * (6 * 4096u) + 32768; }
    else { size = 1 + t.below(20000); blob = t.bytes(size); who = "key store"; }
    if (fam == 4) ex = false;
    auto exp = [&](const std::string &path) { return c ? WBCRYPTO_wbsm4_key2file((WBCRYPTO_wbsm4_context *)c->ctx, (char *)path.c_str()) : WBCRYPTO_keystore_key_to_file(blob.data(), size, (char *)path.c_str()); };
    WBCRYPTO_wbsm4_context *ic = nullptr; Bytes ib(size);
    auto imp = [&](const std::string &path) {
      if (c) { if (!ic) ic = WBCRYPTO_wbsm4_context_init(1, c->dummy); return WBCRYPTO_wbsm4_file2key(ic, (char *)path.c_str()); }
      return WBCRYPTO_keystore_file_to_key(ib.data(), size, (char *)path.c_str()); };
    if (ex) switch (t.below(4)) {
      case 0: what = "directory missing"; r = exp(d + "/absent/key"); break;
      case 1: what = "path is a directory"; mkdir(p.c_str(), 0700); r = exp(p); rmdir(p.c_str()); break;
      case 2: what = "device full"; if (symlink("/dev/full", p.c_str())) discard(); r = exp(p); unlink(p.c_str()); break;
      default: { size_t lim = t.coin() ? t.below(size + 1) : size - std::min<size_t>(size, t.below(5000)); what = fmt("%zu of %zu bytes can be written", lim, size); want = lim >= size; SizeLimit L(lim); r = exp(p); }
    } else {
      CHECK(exp(p) == 1, "%s: export failed", who.c_str());
      Bytes all; read_file(p, all);
      if (c) CHECK(all.size() == size, "harness: key file is %zu bytes, expected %zu", all.size(), size);
      switch (t.below(4)) {
        case 0: what = "file missing"; r = imp(d + "/absent"); break;
        case 1: what = "path is a directory"; mkdir((d + "/dir").c_str(), 0700); r = imp(d + "/dir"); break;
        case 2: what = "empty file"; write_file(d + "/short", {}); r = imp(d + "/short"); break;
        default: { size_t k = t.coin() ? t.below(size) : size - 1 - t.below(std::min<size_t>(size, 40)); what = fmt("file cut to %zu of %zu bytes", k, size); all.resize(k); write_file(d + "/short", all); r = imp(d + "/short"); }
      }
    }
    t.label(who + (ex ? " export" : " import"));
    t.describe(fmt("%s %s: %s", who.c_str(), ex ? "export" : "import", what.c_str()));
    CHECK(r == want, "%s: %s returned %d although %s", who.c_str(), ex ? "export" : "import", r, what.c_str());
    // without the fault it works
    CHECK(exp(p) == 1 && imp(p) == 1, "%s: export and import fail after an earlier fault (%s)", who.c_str(), what.c_str());
    if (!c) CHECK(ib == blob, "key store: contents differ");
    drop(ic);
  }
  clear_dir(d);
}
PROPERTY("P16", "I/O failures are reported", p16, "every case injects one fault (or a size limit at the boundary) into a file operation", 500, 60);
