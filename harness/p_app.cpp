// P24 phone and identity-card numbers, P25 Chinese text, P31 MySQL function
#include "lib.h"
#include <mysql.h>
#include <algorithm>

extern "C" {
bool fpe_init(UDF_INIT *, UDF_ARGS *, char *);
void fpe_deinit(UDF_INIT *);
char *fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);
// the variant for MySQL 5, compiled with its entry points renamed
bool fpe5_init(UDF_INIT *, UDF_ARGS *, char *);
void fpe5_deinit(UDF_INIT *);
char *fpe5(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *);
}
typedef std::string Str;
struct App {   // an application context and its model
  Bytes key; int cipher; bool ff3_; std::unique_ptr<Ref> ref; WBCRYPTO_fpe_app_context c; Str cn, fn;
};
static App *make_app(const Bytes &key, const char *cipher, const char *ffx) {
  App *a = new App(); a->key = key; a->cn = cipher; a->fn = ffx;
  a->ff3_ = a->fn != "ff1"; bool sm4 = a->cn == "sm4" || a->cn == "wbsm4";
  a->ref.reset(new Ref(sm4 ? REF_SM4 : REF_AES, ref_key(key)));
  memset(&a->c, 0x5a, sizeof a->c); Buf kb(key);
  Bytes n1(a->cn.begin(), a->cn.end()), n2(a->fn.begin(), a->fn.end()); n1.push_back(0); n2.push_back(0); Buf cb(n1), fb(n2);   // the names are gone afterwards, like the key
  int r = WBCRYPTO_fpe_app_init(&a->c, kb.p(), key.size(), cb.c(), fb.c());
  CHECK(cb.get() == n1 && fb.get() == n2, "fpe_app_init changed the names it was given"); memset(cb.p(), 'w', n1.size()); memset(fb.p(), 'f', n2.size());
  CHECK(r == 1, "fpe_app_init(%s, %s) returned %d", cipher, ffx, r); kb.check("application key");
  return a;
}
static App *draw_app(Tape &t) {
  static std::map<unsigned, App *> pool;
  const char *ci = t.pick<const char *>({"sm4", "aes", "wbaes", "wbsm4", "des"}), *ff = t.pick<const char *>({"ff1", "ff3", "ff1", "ff2"});
  bool wb = ci[0] == 'w';
  t.label(Str(ci) + "/" + ff);
  if (!wb || t.chance(1, 60)) {   // fresh key (white-box tables are expensive: mostly pooled)
    static App *last; if (last) { if (last->cn == "wbsm4") drop((WBCRYPTO_wbsm4_context *)last->c.cipher_ctx); else free(last->c.cipher_ctx); delete last; last = nullptr; }
    Bytes k = draw_key(t); return last = make_app(k, ci, ff);
  }
  unsigned id = (unsigned)t.below(3); auto &e = pool[(ci[2] == 'a' ? 0 : 100) + (ff[2] - '0') * 10 + id];
  if (!e) { Rng r(mix64(31, id)); Bytes k(id == 1 ? 9 : 16); for (auto &b : k) b = (uint8_t)r.next(); set_time(77 + id, 0); e = make_app(k, ci, ff); }
  return e;
}
static Num app_fpe(const App &a, unsigned radix, Str tweak, const Num &x, bool enc) {
  Bytes tw(tweak.begin(), tweak.end()); tw.push_back(0);
  return a.ff3_ ? ff3(*a.ref, radix, tw, x, enc) : ff1(*a.ref, radix, tw, x, enc);
}
// ---------------------------------------------------------------- digits
static Str model_digits(const App &a, const Str &s, const Str &sample, bool enc) {
  size_t len = s.size(); if (len && s[len - 1] == 'X') len--;
  Str in, tw; for (size_t i = 0; i < len; i++) if (!sample.empty() && sample[i] != '*') tw += s[i]; else in += s[i];
  Str y = num_to_str(app_fpe(a, 10, tw, str_to_num(in), enc)), o = s;
  for (size_t i = 0, j = 0; i < len; i++) if (sample.empty() || sample[i] == '*') o[i] = y[j++];
  return o;
}
static int call_digits(App &a, bool phone, bool enc, bool use_plain_api, const Str &s, const Str &sample, Str &out) {
  Bytes ib(s.begin(), s.end()), sb(sample.begin(), sample.end()); ib.push_back(0); sb.push_back(0);
  Buf b(ib), sm(sb), o(s.size(), 0);     // the text exactly fills the output buffer
  auto c = &a.c; int r;
  if (use_plain_api) r = phone ? (enc ? WBCRYPTO_fpe_encrypt_phone(c, b.c(), o.c()) : WBCRYPTO_fpe_decrypt_phone(c, b.c(), o.c()))
                               : (enc ? WBCRYPTO_fpe_encrypt_idcard(c, b.c(), o.c()) : WBCRYPTO_fpe_decrypt_idcard(c, b.c(), o.c()));
  else r = phone ? (enc ? WBCRYPTO_fpe_encrypt_phone_with_sample(c, b.c(), o.c(), sm.c()) : WBCRYPTO_fpe_decrypt_phone_with_sample(c, b.c(), o.c(), sm.c()))
                 : (enc ? WBCRYPTO_fpe_encrypt_idcard_with_sample(c, b.c(), o.c(), sm.c()) : WBCRYPTO_fpe_decrypt_idcard_with_sample(c, b.c(), o.c(), sm.c()));
  b.check("number"); sm.check("sample"); o.check("result");
  CHECK(b.get() == ib && sm.get() == sb, "the number or the sample was changed by the call");
  Bytes g = o.get(); out.assign(g.begin(), g.end()); return r;
}
static Str draw_digits(Tape &t, size_t n) { Rng g(t.u64()); unsigned mode = (unsigned)t.below(4); Str s; for (size_t i = 0; i < n; i++) s += mode == 1 ? '0' : mode == 2 ? '9' : (char)('0' + g.below(10)); return s; }
static Str draw_sample(Tape &t, size_t n, size_t digits) {   // mostly at least two of the first `digits` positions are starred
  Str s(n, '*'); Rng g(t.u64()); unsigned mode = (unsigned)t.below(4);
  const char keep[] = "0123456789X-a";
  for (size_t i = 0; i < n; i++) {
    bool k = mode == 0 ? g.below(2) : mode == 1 ? (i < n / 3 || i + 4 >= n) : mode == 2 ? g.below(8) == 0 : g.below(8) != 0;
    if (k) s[i] = keep[g.below(13)];
  }
  size_t st = (size_t)std::count(s.begin(), s.begin() + digits, '*');
  if (t.chance(1, 16)) {   // nothing to encrypt, or a single digit
    for (auto &c : s) if (c == '*') c = '7';
    if (t.coin()) s[t.below(digits)] = '*';
    return s;
  }
  while (st < std::min<size_t>(2, digits)) { size_t i = t.below(digits); if (s[i] != '*') { s[i] = '*'; st++; } else { i = 0; while (s[i] == '*') i++; s[i] = '*'; st++; } }
  return s;
}
static void p24(Tape &t) {
  App *a = draw_app(t); bool phone = t.coin();
  size_t n = t.coin() ? (phone ? 11 : 18) : t.chance(1, 10) ? t.below(3) : 3 + t.below(40); bool x = !phone && n && t.chance(1, 3);
  size_t dig = x ? n - 1 : n;
  if (!a->ff3_ && t.chance(1, 120)) { n = t.log_length(6, asan_build() ? 9 : 12); dig = x ? n - 1 : n; t.label("number of 45 digits and more"); }
  if (a->ff3_) { n = std::min<size_t>(n, 50); dig = x ? n - 1 : n; }
  Str s = draw_digits(t, dig) + (x ? "X" : ""), sample, enc, dec;
  bool sampled = t.chance(3, 4) && dig, plainapi = false;
  if (sampled) { sample = draw_sample(t, n, dig); if (x && t.coin()) sample.resize(n - 1); else if (t.chance(1, 6)) sample += draw_digits(t, 1 + t.below(5)); }
  else plainapi = t.coin();
  t.label(phone ? "phone" : x ? "idcard X" : "idcard"); t.label(sampled ? "with sample" : "no sample");
  t.describe(fmt("%s/%s %s '%s' sample '%s'", a->cn.c_str(), a->fn.c_str(), phone ? "phone" : "idcard", s.c_str(), sample.c_str()));
  t.nontrivial(dig >= 3);
  if (sampled && dig > 1 && t.chance(1, 8)) {   // a sample that does not cover the number is refused
    Str sh = sample.substr(0, 1 + t.below(dig - 1)); Str o;
    int r = call_digits(*a, phone, t.coin(), false, s, sh, o);
    CHECK(r == 0, "a sample of %zu characters was accepted for '%s' (returned %d)", sh.size(), s.c_str(), r); t.label("short sample refused");
    CHECK(o == Str(s.size(), '\0'), "a refused call wrote to the result");
  }
  if (t.chance(1, 6)) {   // something other than a digit where a digit is to be encrypted
    std::vector<size_t> pos; for (size_t i = 0; i < dig; i++) if (!sampled || sample[i] == '*') pos.push_back(i);
    if (!pos.empty()) {
      Str q = s, o; char c; switch (t.below(4)) { case 0: c = t.pick<char>({' ', '-', '+', '/', ':', '*', 'X', 'x'}); break; case 1: c = (char)('a' + t.below(26)); break; case 2: c = (char)('A' + t.below(26)); break; default: c = (char)(128 + t.below(128)); }
      size_t at = pos[t.below(pos.size())]; q[at] = c;
      if (phone || at + 1 < q.size() || c != 'X') {
        int r = call_digits(*a, phone, t.coin(), plainapi, q, sample, o);
        CHECK(r == 0, "%s '%s' with sample '%s' was accepted: returned %d, result '%s'", phone ? "phone" : "idcard", q.c_str(), sample.c_str(), r, o.c_str());
        CHECK(o == Str(q.size(), '\0'), "a refused call wrote to the result"); t.label("non-digit refused");
      }
    }
  }
  int r = call_digits(*a, phone, true, plainapi, s, sample, enc);
  CHECK(r == 1, "encrypting '%s' with sample '%s' returned %d", s.c_str(), sample.c_str(), r);
  size_t chosen = sampled ? (size_t)std::count(sample.begin(), sample.begin() + dig, '*') : dig;
  if (chosen < 2) t.label("fewer than two digits to encrypt");
  Str want = chosen < 2 ? enc : model_digits(*a, s, sample, true);   // the standards start at two digits: below, only form and way back count
  CHECK(enc == want, "%s/%s, key %s: '%s' with sample '%s' encrypts to '%s', want '%s'", a->cn.c_str(), a->fn.c_str(), hex(a->key).c_str(), s.c_str(), sample.c_str(), enc.c_str(), want.c_str());
  for (size_t i = 0; i < n; i++) {
    if ((i < dig && sampled && sample[i] != '*') || i >= dig) CHECK(enc[i] == s[i], "kept position %zu of '%s' (sample '%s') became '%c'", i, s.c_str(), sample.c_str(), enc[i]);
    else CHECK(enc[i] >= '0' && enc[i] <= '9', "position %zu of the result is not a digit", i);
  }
  r = call_digits(*a, phone, false, plainapi, enc, sample, dec);
  CHECK(r == 1 && dec == s, "'%s' with sample '%s' -> '%s' -> '%s' (returned %d)", s.c_str(), sample.c_str(), enc.c_str(), dec.c_str(), r);
}
PROPERTY("P24", "phone and identity-card numbers", p24, "the number has at least 3 digits", 2500, 300);

// ---------------------------------------------------------------- Chinese text
static Str utf8(unsigned u) { Str s; s += (char)(0xe0 | u >> 12); s += (char)(0x80 | (u >> 6 & 0x3f)); s += (char)(0x80 | (u & 0x3f)); return s; }
static std::vector<unsigned> draw_cn(Tape &t, size_t n) {
  std::vector<unsigned> v(n); Rng g(t.u64()); unsigned mode = (unsigned)t.below(5);
  for (auto &c : v) switch (mode) { case 1: c = 0x4e00 + (unsigned)g.below(13); break; case 2: c = 0x9eff - (unsigned)g.below(13); break; case 3: c = 0x4e00 + (unsigned)(g.below(12) * 1728 + g.below(2) * 11 + g.below(12) * 144); break; default: c = 0x4e00 + (unsigned)g.below(20736 - 0); }
  for (auto &c : v) if (c > 0x9eff) c = 0x9eff;
  return v;
}
static Str join(const std::vector<unsigned> &v) { Str s; for (unsigned c : v) s += utf8(c); return s; }
static void put12(Num &d, Str &txt, unsigned c) { c -= 0x4e00; for (int i = 0; i < 4; i++) { d.push_back(c % 12); txt += (char)(c % 12 < 10 ? '0' + c % 12 : 'a' + c % 12 - 10); c /= 12; } }
static std::vector<unsigned> model_cn(const App &a, const std::vector<unsigned> &v, const std::vector<bool> &star, bool enc) {
  Num in, dn; Str tw, dummy;
  for (size_t i = 0; i < v.size(); i++) if (star[i]) put12(in, dummy, v[i]); else put12(dn, tw, v[i]);
  if (in.empty()) return v;
  Num y = app_fpe(a, 12, tw, in, enc); auto o = v;
  for (size_t i = 0, j = 0; i < v.size(); i++) if (star[i]) { o[i] = 0x4e00 + y[j] + 12 * y[j + 1] + 144 * y[j + 2] + 1728 * y[j + 3]; j += 4; }
  return o;
}
static int call_cn(App &a, bool enc, bool plain_api, const Str &s, const Str &sample, Str &out) {
  Bytes ib(s.begin(), s.end()), sb(sample.begin(), sample.end()); ib.push_back(0); sb.push_back(0);
  Buf b(ib), sm(sb), o(s.size(), 0); auto c = &a.c; int r;
  if (plain_api) r = enc ? WBCRYPTO_fpe_encrypt_cn_utf8(c, b.c(), o.c()) : WBCRYPTO_fpe_decrypt_cn_utf8(c, b.c(), o.c());
  else r = enc ? WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(c, b.c(), o.c(), sm.c()) : WBCRYPTO_fpe_decrypt_cn_utf8_with_sample(c, b.c(), o.c(), sm.c());
  b.check("text"); sm.check("sample"); o.check("result");
  CHECK(b.get() == ib && sm.get() == sb, "the text or the sample was changed by the call");
  Bytes g = o.get(); out.assign(g.begin(), g.end()); return r;
}
static Str esc(const Str &s) { Str o; for (unsigned char c : s) if (c >= 32 && c < 127) o += (char)c; else o += fmt("\\x%02x", c); return o; }
static void p25(Tape &t) {
  App *a = draw_app(t); size_t n = 1 + t.below(t.chance(1, 6) ? 60 : 12);
  if (!a->ff3_) {
    bool big = t.chance(1, 400);
    for (int w = 0; w < 5; w++) if (!asan_build()) for (int i = 8; i < 14; i++) big |= t.once(w, i);
    if (big) { n = t.log_length(6, asan_build() ? 8 : 11); t.label(n >= 1000 ? "text of 1000 characters and more" : "text of 45 characters and more"); }
  }
  auto v = draw_cn(t, n); Str s = join(v), sample, enc, dec;
  std::vector<bool> star(n, true); bool sampled = t.chance(3, 4), plainapi = false;
  if (sampled) {
    Rng g(t.u64()); unsigned den = t.pick<unsigned>({2, 5, 1000}); bool any = false;
    for (size_t i = 0; i < n; i++) { star[i] = g.below(den) != 0; any |= star[i]; }
    if (!any && t.coin()) star[t.below(n)] = true;
    unsigned keepmode = (unsigned)t.below(3);
    for (size_t i = 0; i < n; i++) sample += star[i] ? Str("*") : keepmode == 0 ? utf8(v[i]) : keepmode == 1 ? utf8(0x4e00 + (unsigned)g.below(20000)) : utf8(0x3001 + (unsigned)g.below(200));
  } else plainapi = t.coin();
  t.label(sampled ? "with sample" : "no sample");
  t.describe(fmt("%s/%s %zu characters from U+%04X, sample '%s'", a->cn.c_str(), a->fn.c_str(), n, v[0], esc(sample).substr(0, 60).c_str()));
  t.nontrivial(true);
  unsigned bad = (unsigned)t.below(8);
  if (bad == 1) {   // a character outside the supported range: refused, not mangled
    Str q = s, ins; size_t at = 3 * t.below(n);
    switch (t.below(8)) {
      case 0: ins = utf8(0x9f00 + (unsigned)t.below(0x100)); break; case 1: ins = utf8(0x4dff - (unsigned)t.below(0x1000)); break; case 2: ins = utf8(0xff01 + (unsigned)t.below(200)); break;
      case 3: ins = utf8(0xac00 + (unsigned)t.below(1000)); break; case 4: ins = draw_digits(t, 3); break; case 5: { Rng g(t.u64()); for (int i = 0; i < 3; i++) ins += (char)('d' + g.below(20)); break; }
      case 6: ins = "\xf0\xa0\x80\x80"; break; default: ins = Str(1 + t.below(2), (char)('a' + t.below(26)));
    }
    if (t.coin() || ins.size() % 3) q.insert(at, ins); else q.replace(at, 3, ins);
    Str o; int r = call_cn(*a, t.coin(), true, q, "", o);
    CHECK(r == 0, "text with an unsupported character ('%s') was accepted: returned %d", esc(q).c_str(), r); t.label("unsupported character refused");
    CHECK(o == Str(q.size(), '\0'), "a refused call wrote to the result");
  }
  if (sampled && bad == 2) {   // a sample for another number of characters
    Str q = sample; switch (t.below(5)) { case 0: q += "*"; break; case 1: q += utf8(0x4e00); break; case 2: q += Str(1 + t.below(2), 'a'); break; case 3: q.resize(q.size() - 1); break; default: q = "a" + q; }
    if (!q.empty()) { Str o; int r = call_cn(*a, t.coin(), false, s, q, o); CHECK(r == 0, "sample '%s' for %zu characters was accepted: returned %d", esc(q).c_str(), n, r); t.label("bad sample refused"); CHECK(o == Str(s.size(), '\0'), "a refused call wrote to the result"); }
  }
  int r = call_cn(*a, true, plainapi, s, sample, enc);
  CHECK(r == 1, "encrypting %zu characters returned %d", n, r);
  // FF3 is standardised up to 52 duodecimal digits; beyond, only the form and the way back are checked
  bool conform = !a->ff3_ || std::count(star.begin(), star.end(), true) <= 13;
  Str want = conform ? join(model_cn(*a, v, star, true)) : enc; if (!conform) t.label("beyond the standard's length");
  for (size_t i = 0; i < n; i++) {
    unsigned u = ((unsigned char)enc[3 * i] & 15) << 12 | ((unsigned char)enc[3 * i + 1] & 63) << 6 | ((unsigned char)enc[3 * i + 2] & 63);
    CHECK(utf8(u) == enc.substr(3 * i, 3) && u >= 0x4e00 && u <= 0x9eff, "character %zu of the result is not in the supported range: %s", i, esc(enc).c_str());
    if (!star[i]) CHECK(u == v[i], "kept character %zu was changed", i);
  }
  CHECK(enc == want, "%s/%s, key %s: %s with sample '%s' encrypts to %s, want %s", a->cn.c_str(), a->fn.c_str(), hex(a->key).c_str(), esc(s).c_str(), esc(sample).c_str(), esc(enc).c_str(), esc(want).c_str());
  r = call_cn(*a, false, plainapi, enc, sample, dec);
  CHECK(r == 1 && dec == s, "%s with sample '%s' does not come back: %s (returned %d)", esc(s).c_str(), esc(sample).c_str(), esc(dec).c_str(), r);
}
PROPERTY("P25", "Chinese text", p25, "every case encrypts and decrypts a text", 2500, 300);

// ---------------------------------------------------------------- MySQL function
struct Arg { Str v; bool null = false; enum Item_result type = STRING_RESULT; unsigned long declared = 0; };
static Str other_mode(Tape &t) {   // no mode, but close to one
  static const char *mn[] = {"phone", "idcard", "address", "name"}; Str s = mn[t.below(4)];
  switch (t.below(8)) {
    case 0: s += (char)('a' + t.below(26)); break;
    case 1: s += t.pick<const char *>({"2", " ", "s", "phone", "\n", "."}); break;
    case 2: s.pop_back(); break;
    case 3: s.erase(0, 1); break;
    case 4: s[t.below(s.size())] ^= 0x20; break;
    case 5: s[t.below(s.size())] = 'q'; break;
    case 6: s = s.substr(0, t.below(3)); break;
    default: s = t.pick<const char *>({"", "PHONE", "email", "adress", " name", "%s"});
  }
  return s;
}
static void p31(Tape &t) {
  bool v5 = t.coin(); t.label(v5 ? "MySQL 5 variant" : "MySQL 8 variant");
  auto f_init = v5 ? fpe5_init : fpe_init; auto f_run = v5 ? fpe5 : fpe; auto f_deinit = v5 ? fpe5_deinit : fpe_deinit;
  static App *model; if (!model) { Bytes k = {0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c}; model = make_app(k, "sm4", "ff1"); }
  // one statement: init once, then several rows
  unsigned nargs = 2 + (unsigned)t.below(2); unsigned badinit = (unsigned)t.below(12);
  if (badinit == 1) nargs = t.pick<unsigned>({0, 1, 4});
  unsigned rows = 1 + (unsigned)t.below(4);
  unsigned long maxlen[4] = {0, 0, 0, 0};
  struct Row { Arg a[3]; int expect; Str want; Str what; }; std::vector<Row> R;   // expect: 0 value, 1 error, 2 NULL
  bool name_mode_fixed = t.coin(); unsigned fixmode = (unsigned)t.below(4);
  for (unsigned i = 0; i < rows; i++) {
    Row r; unsigned mode = name_mode_fixed ? fixmode : (unsigned)t.below(4); static const char *mn[] = {"phone", "idcard", "address", "name"};
    r.a[1].v = mn[mode]; r.expect = 0; Str plain, sample; r.what = mn[mode];
    if (mode < 2) {
      size_t n = mode == 0 ? 11 : 18; bool x = mode == 1 && t.chance(1, 3);
      plain = draw_digits(t, x ? n - 1 : n) + (x ? "X" : ""); sample = nargs == 3 ? draw_sample(t, n, x ? n - 1 : n) : "";
      size_t chosen = nargs == 3 ? (size_t)std::count(sample.begin(), sample.begin() + (x ? n - 1 : n), '*') : n;
      if (chosen < 2) r.want = chosen ? Str() : plain; else r.want = model_digits(*model, plain, sample, true);
      switch (t.below(10)) {
        case 3: { std::vector<size_t> pos; for (size_t k = 0; k + x < n; k++) if (nargs != 3 || sample[k] == '*') pos.push_back(k);
          if (!pos.empty()) { plain[pos[t.below(pos.size())]] = t.pick<char>({'-', 'a', ' ', 'Q', '\xc3', '+'}); r.expect = 1; r.what += " with something other than a digit"; } break; }
        case 4: plain[t.below(plain.size())] = '\0'; r.expect = 1; r.what += " with a NUL character"; break;
        case 1: plain = draw_digits(t, t.coin() ? n - 1 - t.below(4) : n + 1 + t.below(9)); if (nargs == 3) sample.resize(plain.size(), '*'); r.expect = 1; r.what += " of wrong length"; break;
        case 2: if (nargs == 3) { r.expect = 1; if (t.coin()) sample.resize(sample.size() - (v5 ? 2 : 1) - t.below(3)); else { sample += "*"; if (v5) r.expect = 0; } r.what += " with a sample of wrong length"; } break;
      }
    } else {
      size_t n = t.chance(1, 40) ? t.log_length(5, asan_build() ? 7 : 9) : 1 + t.below(20); auto v = draw_cn(t, n); plain = join(v); std::vector<bool> star(n, true);
      if (nargs == 3) {
        if (mode == 2 || v5) { for (size_t k = 0; k < n; k++) { star[k] = k == 0 || t.coin(); sample += star[k] ? Str("*") : utf8(v[k]); } }
        else { r.expect = 1; sample = Str(t.coin() ? n : n + 1, '*'); if (sample.size() == plain.size()) sample += "*"; }   // "name": the sample must be as long as the text
      }
      r.want = join(model_cn(*model, v, star, true));
      switch (t.below(8)) {
        case 3: plain.insert(t.below(plain.size() + 1), 1, '\0'); r.expect = 1; r.what += " with a NUL character"; break;
        case 1: plain += t.coin() ? "x" : "\xef\xbc\x81"; if (nargs == 3) sample += plain.size() % 3 ? "" : "*"; r.expect = 1; r.what += " with an unsupported character"; break;
        case 2: if (nargs == 3 && (mode == 2 || v5)) { sample += "*"; r.expect = 1; r.what += " with a sample of wrong length"; } break;
      }
    }
    if (t.chance(1, 14)) { r.a[1].v = other_mode(t); r.expect = 1; r.what = "unknown mode"; }
    r.a[0].v = plain; r.a[2].v = sample;
    if (t.chance(1, 10)) { r.a[t.below(nargs > 3 ? 3 : std::max(1u, nargs))].null = true; r.expect = 2; r.what = "NULL argument"; }
    for (int k = 0; k < 3; k++) maxlen[k] = std::max<unsigned long>(maxlen[k], r.a[k].v.size());
    R.push_back(r);
  }
  UDF_ARGS A; memset(&A, 0, sizeof A); UDF_INIT I; memset(&I, 0, sizeof I);
  Item_result types[4] = {STRING_RESULT, STRING_RESULT, STRING_RESULT, STRING_RESULT}; char *ptr[4] = {0, 0, 0, 0}; unsigned long len[4]; char maybe[4] = {0, 0, 0, 0}; bool nullable = false;
  for (unsigned k = 0; k < std::min(nargs, 3u); k++) { for (auto &r : R) if (r.a[k].null) maybe[k] = 1; if (t.chance(1, 5)) maybe[k] = 1; nullable |= maybe[k] != 0; }
  if (badinit == 2) types[t.below(std::min(nargs, 3u))] = t.pick<Item_result>({INT_RESULT, REAL_RESULT, DECIMAL_RESULT});
  bool refuse = nargs < 2 || nargs > 3 || badinit == 2;
  memcpy(len, maxlen, sizeof len);
  A.arg_count = nargs; A.arg_type = types; A.args = ptr; A.lengths = len; A.maybe_null = maybe;
  Buf msg(MYSQL_ERRMSG_SIZE, 0);
  bool rc = f_init(&I, &A, msg.c()); msg.check("error message");
  CHECK(rc == refuse, "initialisation with %u arguments%s %s", nargs, badinit == 2 ? ", one of them not a string," : "", rc ? "was refused" : "was accepted");
  t.label(refuse ? "refused statement" : nargs == 3 ? "with sample" : "without sample");
  if (refuse) { CHECK(msg.p()[0] != 0, "refused without a message"); t.describe(fmt("%u arguments refused: %s", nargs, msg.c())); return; }
  CHECK(!nullable || I.maybe_null, "an argument may be NULL, but the function announces that its result never is");
  for (auto &r : R) {
    std::vector<std::unique_ptr<Buf>> keep; // arguments are not terminated: exact buffers
    for (unsigned k = 0; k < nargs; k++) { keep.emplace_back(new Buf(Bytes(r.a[k].v.begin(), r.a[k].v.end()))); ptr[k] = r.a[k].null ? nullptr : keep[k]->c(); len[k] = r.a[k].null ? 0 : r.a[k].v.size(); }
    char isnull = 0, err = 0; unsigned long n = 0xdead; Buf res(256);
    char *o = f_run(&I, &A, res.c(), &n, &isnull, &err);
    res.check("MySQL's result buffer"); t.label(r.what);
    t.describe(fmt("%s '%s' sample '%s'", r.what.c_str(), esc(r.a[0].v).substr(0, 60).c_str(), esc(r.a[2].v).substr(0, 40).c_str()));
    for (unsigned k = 0; k < nargs; k++) { keep[k]->check("argument"); Bytes b = keep[k]->get(); CHECK(Str(b.begin(), b.end()) == r.a[k].v, "argument %u was changed", k); }
    if (r.expect == 2) { CHECK(o == nullptr && isnull && !err, "%s: the result is not NULL (pointer %s, is_null %d, error %d)", r.what.c_str(), o ? "set" : "null", isnull, err); continue; }
    if (r.expect == 1) { CHECK(o == nullptr && err, "%s '%s' (sample '%s'): no error is reported (pointer %s, error %d)", r.what.c_str(), esc(r.a[0].v).c_str(), esc(r.a[2].v).c_str(), o ? "set" : "null", err); continue; }
    CHECK(o && !err && !isnull, "%s '%s' (sample '%s') failed: pointer %s, error %d, null %d", r.what.c_str(), esc(r.a[0].v).c_str(), esc(r.a[2].v).c_str(), o ? "set" : "null", err, isnull);
    CHECK(n <= I.max_length, "%s: a result of %lu bytes, but at most %lu were announced", r.what.c_str(), n, (unsigned long)I.max_length);
    CHECK(n == r.a[0].v.size(), "%s: reported length %lu, want %zu", r.what.c_str(), n, r.a[0].v.size());
    if (r.want.empty()) {   // a single digit: its image is not specified, its form is
      Str got(o, std::min<size_t>(n, r.a[0].v.size()));
      for (size_t k = 0; k < got.size(); k++) CHECK(r.a[2].v[k] != '*' || got[k] == 'X' ? got[k] == r.a[0].v[k] : got[k] >= '0' && got[k] <= '9', "%s '%s' (sample '%s') gives '%s'", r.what.c_str(), esc(r.a[0].v).c_str(), esc(r.a[2].v).c_str(), esc(got).c_str());
      continue;
    }
    CHECK(Str(o, n) == r.want, "%s '%s' (sample '%s') gives '%s', want '%s'", r.what.c_str(), esc(r.a[0].v).c_str(), esc(r.a[2].v).c_str(), esc(Str(o, n)).c_str(), esc(r.want).c_str());
  }
  t.nontrivial(true);
  f_deinit(&I);
}
PROPERTY("P31", "MySQL function", p31, "every case prepares one statement and evaluates up to four rows", 2500, 300);
