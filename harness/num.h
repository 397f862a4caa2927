// Exact arithmetic and the reference model of a binned accumulator.
#pragma once
#include "engine.h"
#include <algorithm>
#include <cfloat>
typedef __int128 i128;
typedef unsigned __int128 u128;

// exact fixed point numbers: multiples of 2^-2304 below 2^3070
struct Big {
  static constexpr int NL = 84, BASE = -2304;
  uint64_t w[NL];
  Big() { memset(w, 0, sizeof w); }
  explicit Big(double x) : Big() { add(x); }
  bool neg() const { return w[NL - 1] >> 63; }
  bool zero() const { for (int i = 0; i < NL; i++) if (w[i]) return false; return true; }
  void addu(u128 m, int pos, bool minus) {      // += +-m * 2^pos
    int b = pos - BASE;
    if (b < 0) throw HarnessError{sfmt("Big: exponent %d out of range", pos)};
    int k = b / 64, s = b % 64;
    uint64_t p[3] = {(uint64_t)m << s, 0, 0};
    p[1] = (uint64_t)((m << s) >> 64);
    p[2] = s ? (uint64_t)((m >> 64) >> (64 - s)) : 0;
    if (k + 3 >= NL) throw HarnessError{"Big: too large"};
    if (!minus) {
      unsigned char cy = 0;
      for (int i = 0; k + i < NL && (i < 3 || cy); i++) {
        u128 t = (u128)w[k + i] + (i < 3 ? p[i] : 0) + cy; w[k + i] = (uint64_t)t; cy = (unsigned char)(t >> 64);
      }
    } else {
      unsigned char bw = 0;
      for (int i = 0; k + i < NL && (i < 3 || bw); i++) {
        u128 t = (u128)w[k + i] - (i < 3 ? p[i] : 0) - bw; w[k + i] = (uint64_t)t; bw = (unsigned char)((t >> 64) & 1);
      }
    }
  }
  void addi(i128 m, int pos) { if (m < 0) addu((u128)(-m), pos, true); else if (m) addu((u128)m, pos, false); }
  static void split(double x, int64_t &m, int &e) { double f = frexp(x, &e); m = (int64_t)ldexp(f, 53); e -= 53; }
  void add(double x, int shift = 0) { if (x == 0) return; int64_t m; int e; split(x, m, e); addi(m, e + shift); }
  void addprod(double x, double y, bool minus = false) {
    if (x == 0 || y == 0) return; int64_t a, b; int ea, eb; split(x, a, ea); split(y, b, eb);
    i128 m = (i128)a * b; addi(minus ? -m : m, ea + eb);
  }
  Big &operator+=(const Big &o) { unsigned char c = 0; for (int i = 0; i < NL; i++) { u128 t = (u128)w[i] + o.w[i] + c; w[i] = (uint64_t)t; c = (unsigned char)(t >> 64); } return *this; }
  void negate() { unsigned char c = 1; for (int i = 0; i < NL; i++) { u128 t = (u128)(~w[i]) + c; w[i] = (uint64_t)t; c = (unsigned char)(t >> 64); } }
  Big &operator-=(const Big &o) { Big t = o; t.negate(); return *this += t; }
  Big abs() const { Big t = *this; if (t.neg()) t.negate(); return t; }
  int sign() const { return neg() ? -1 : zero() ? 0 : 1; }
  bool operator<(const Big &o) const { Big t = *this; t -= o; return t.neg(); }
  bool operator<=(const Big &o) const { return !(o < *this); }
  bool operator==(const Big &o) const { return !memcmp(w, o.w, sizeof w); }
  void shr(int n) {      // nonnegative only
    int k = n / 64, s = n % 64;
    for (int i = 0; i < NL; i++) { uint64_t lo = i + k < NL ? w[i + k] : 0, hi = i + k + 1 < NL ? w[i + k + 1] : 0; w[i] = s ? (lo >> s) | (hi << (64 - s)) : lo; }
  }
  void shl(int n) {
    int k = n / 64, s = n % 64;
    for (int i = NL - 1; i >= 0; i--) { uint64_t lo = i - k >= 0 ? w[i - k] : 0, lo2 = i - k - 1 >= 0 ? w[i - k - 1] : 0; w[i] = s ? (lo << s) | (lo2 >> (64 - s)) : lo; }
  }
  void shift(int n) { if (n >= 0) shl(n); else shr(-n); }
  void mulu(uint64_t f) { uint64_t c = 0; for (int i = 0; i < NL; i++) { u128 t = (u128)w[i] * f + c; w[i] = (uint64_t)t; c = (uint64_t)(t >> 64); } }
  int topbit() const { for (int i = NL - 1; i >= 0; i--) if (w[i]) return i * 64 + 63 - __builtin_clzll(w[i]) + BASE; return INT32_MIN; }  // of a nonnegative value
  std::string str() const {      // value for messages: m*2^e
    if (zero()) return "0"; Big t = abs(); int e = t.topbit(); t.shift(-e); t.shl(60); int b = -BASE; uint64_t m = (t.w[b / 64] >> (b % 64)) | (b % 64 ? t.w[b / 64 + 1] << (64 - b % 64) : 0);
    return sfmt("%s%.17g*2^%d", neg() ? "-" : "", ldexp((double)m, -60), e);
  }
};

template <class T> struct Tr;
template <> struct Tr<double> {
  static constexpr int P = 53, W = 40, EMAX = 1024, EMIN = -1074 /* lowest bit */, MAXIDX = 51, MAXFOLD = 52, ENDUR = 2048, DEFFOLD = 3;
  typedef uint64_t U; static const char *nm() { return "double"; }
  static constexpr double big() { return DBL_MAX; } static constexpr double eps() { return DBL_EPSILON; }
  static constexpr int MINEXP = -1021;
};
template <> struct Tr<float> {
  static constexpr int P = 24, W = 13, EMAX = 128, EMIN = -149, MAXIDX = 20, MAXFOLD = 21, ENDUR = 512, DEFFOLD = 3;
  typedef uint32_t U; static const char *nm() { return "float"; }
  static constexpr float big() { return FLT_MAX; } static constexpr float eps() { return FLT_EPSILON; }
  static constexpr int MINEXP = -125;
};
template <class T> inline int ulpexp(int v) { typedef Tr<T> R; if (v > R::MAXIDX) v = R::MAXIDX; return R::EMAX - R::W + 1 - R::W * v; }
template <class T> inline int idx_of(T x) {
  typedef Tr<T> R; if (x == 0) return R::MAXIDX; int e; std::frexp(x, &e); return std::min((R::EMAX - e) / R::W, (int)R::MAXIDX);
}
template <class T> inline bool same_bits(T a, T b) { return !memcmp(&a, &b, sizeof a); }

// Reference accumulator: integer slice sums per (virtual) bin; positions past the last bin repeat it.
template <class T> struct Model {
  typedef Tr<T> R;
  static constexpr int NV = R::MAXIDX + R::MAXFOLD + 1;
  int fold; bool empty = true; int idx = R::MAXIDX; int spec = 0;   // bit0 +inf bit1 -inf bit2 nan
  std::vector<i128> s;
  explicit Model(int f) : fold(f), s(NV, 0) {}
  void setzero() { empty = true; idx = R::MAXIDX; spec = 0; std::fill(s.begin(), s.end(), 0); }
  void clip() { for (int v = idx + fold; v < NV; v++) s[v] = 0; }
  void update(T x) {
    if (spec) return;
    int i = idx_of(x);
    if (empty) { empty = false; idx = i; } else if (i < idx) { idx = i; clip(); }
  }
  void deposit(T x, int64_t times = 1) {
    if (times == 0) return;
    if (std::isnan(x)) { spec |= 4; empty = false; return; }
    if (std::isinf(x)) { spec |= x > 0 ? 1 : 2; empty = false; return; }
    if (spec || x == 0) return;
    double r = x; int sh = 0;
    if (sizeof(T) == 8 && std::fabs(r) > 0x1p960) { r *= 0x1p-64; sh = 64; }   // n * 2^u may pass the largest double
    for (int v = idx_of(x); v < idx + fold; v++) {
      int u = ulpexp<T>(v) - sh;
      double q = std::ldexp(r, -u);
      double n = q < 0 ? -std::floor(-q + 0.5) : std::floor(q + 0.5);
      if (std::fabs(q) < 0.5) n = 0;
      if (n != 0) { s[v] += (i128)(int64_t)n * times; r -= std::ldexp(n, u); }
      if (r == 0) break;
    }
  }
  void add(T x) { if (std::isfinite(x)) update(x); deposit(x); }
  void merge(const Model &o) {
    if (o.empty && !o.spec) return;
    spec |= o.spec;
    if (spec) { empty = false; return; }
    if (empty) { *this = o; return; }
    idx = std::min(idx, o.idx);
    for (int v = 0; v < NV; v++) s[v] += o.s[v];
    clip();
  }
  void negate() { for (auto &x : s) x = -x; if ((spec & 3) == 1 || (spec & 3) == 2) spec ^= 3; }
  void value(Big &b) const { if (!empty) for (int v = idx; v < idx + fold; v++) b.addi(s[v], ulpexp<T>(v)); }
  // what a special accumulator converts to
  double special() const { if ((spec & 4) || (spec & 3) == 3) return NAN; return spec & 1 ? INFINITY : -INFINITY; }
  static T Mval(int v) { if (v > R::MAXIDX) v = R::MAXIDX; return v == 0 ? (T)std::ldexp(1.5, R::EMAX - 1) : (T)std::ldexp(1.5, ulpexp<T>(v) + R::P - 1); }
  static int pulp(int v) { return v == 0 ? R::EMAX - R::P : ulpexp<T>(v); }   // exponent of the ulp of the stored primary
  // compare an actual normalised accumulator with the model; "" if equal
  std::string check(const T *pri, int ip, const T *car, int ic, bool normal = true) const {
    if (spec) {
      double e = special(), a = pri[0];
      if (std::isnan(e) ? !std::isnan(a) : a != e) return sfmt("accumulator holds %g, expected %g", a, e);
      return "";
    }
    if (empty) {
      if (pri[0] != 0) return sfmt("accumulator should be empty but primary[0] = %a", (double)pri[0]);
      for (int i = 0; i < fold; i++) if (pri[i * ip] != 0 || car[i * ic] != 0) return sfmt("empty accumulator has nonzero entry %d: primary %a carry %a", i, (double)pri[i * ip], (double)car[i * ic]);
      return "";
    }
    for (int i = 0; i < fold; i++) {
      int v = idx + i; T p = pri[i * ip], k = car[i * ic];
      T M = Mval(v); int pu = pulp(v);
      if (!std::isfinite(p) || !std::isfinite(k)) return sfmt("bin %d (index %d): primary %a carry %a not finite", i, v, (double)p, (double)k);
      double n = std::ldexp((double)p - (double)M, -pu), lim = std::ldexp(1.0, R::P - 2);   // M is 1.5*2^(P-1) ulps
      if (n != std::floor(n) || std::fabs(n) >= lim) return sfmt("bin %d: primary %a is not in the range of bin index %d (base %a)", i, (double)p, v, (double)M);
      if (k != std::floor(k)) return sfmt("bin %d: carry %a is not an integer", i, (double)k);
      i128 tot = (i128)(int64_t)k * ((i128)1 << (R::P - 3)) + (i128)(int64_t)n;
      if (tot != s[v]) return sfmt("bin %d (index %d): holds %.20Lg units, expected %.20Lg (primary %a carry %a)", i, v, (long double)tot, (long double)s[v], (double)p, (double)k);
      if (normal && (n < 0 || n >= std::ldexp(1.0, R::P - 3))) return sfmt("bin %d (index %d): not normalised (primary %a, base %a, carry %a)", i, v, (double)p, (double)M, (double)k);
    }
    return "";
  }
  void write(T *pri, int ip, T *car, int ic) const {    // the normalised accumulator
    for (int i = 0; i < fold; i++) {
      if (empty) { pri[i * ip] = 0; car[i * ic] = 0; continue; }
      i128 q = (i128)1 << (R::P - 3); i128 n = s[idx + i] % q; if (n < 0) n += q; i128 k = (s[idx + i] - n) / q;
      pri[i * ip] = (T)((double)Mval(idx + i) + std::ldexp((double)(int64_t)n, pulp(idx + i))); car[i * ic] = (T)(double)(int64_t)k;
    }
  }
  bool operator==(const Model &o) const { return empty == o.empty && idx == o.idx && spec == o.spec && s == o.s; }
};

// |got - exact| <= 7 eps |exact| + quantum, and overflow only when the exact value allows it
template <class T> inline std::string conv_ok(T got, const Big &exact, int units = 7) {
  typedef Tr<T> R;
  Big tol = exact.abs(); tol.mulu(units * 260); tol.shr(R::P - 1 + 8);     // 7 eps / (1 - 6 sqrt(eps) - 7 eps)
  if (std::isnan(got)) return sfmt("conversion gave NaN, exact %s", exact.str().c_str());
  if (std::isinf(got)) {
    Big a = exact.abs(); a += tol; Big m; m.addi(1, R::EMAX); Big h; h.addi(1, R::EMAX - R::P - 1); m -= h;
    if (a < m) return sfmt("conversion overflowed to %g, exact %s", (double)got, exact.str().c_str());
    if ((got < 0) != exact.neg()) return sfmt("conversion overflowed with the wrong sign: %g, exact %s", (double)got, exact.str().c_str());
    return "";
  }
  Big d((double)got); d -= exact; 
  if (tol < d.abs()) return sfmt("value %a (%.17g) is off by %s from %s (allowed %s)", (double)got, (double)got, d.str().c_str(), exact.str().c_str(), tol.str().c_str());
  return "";
}
