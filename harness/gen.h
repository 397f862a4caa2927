// Operand buffers with guard pages and poisoned gaps; generators for floating-point data.
#pragma once
#include "lib.h"
#include "num.h"

#if defined(__SANITIZE_ADDRESS__)
#define USE_ASAN 1
#else
#define USE_ASAN 0
#endif

// Memory for operands: each block sits flush against an unreadable page (after it, or before it).
struct Arena {
  struct Slot { char *base; size_t size; };
  std::vector<Slot> slots; size_t used = 0;
  std::vector<void *> heap;
  static Arena &get() { static Arena a; return a; }
  void reset() { used = 0; for (void *p : heap) free(p); heap.clear(); }
  void *alloc(size_t bytes, bool flush_end) {
    if (USE_ASAN) { void *p = malloc(bytes ? bytes : 1); heap.push_back(p); return bytes ? p : p; }
    size_t pg = 4096, need = (bytes + pg - 1) / pg * pg; if (!need) need = pg;
    if (used < slots.size() && slots[used].size < need) { munmap(slots[used].base, slots[used].size + 2 * pg); make(used, need); }
    if (used >= slots.size()) { slots.push_back({nullptr, 0}); make(used, need); }
    Slot &s = slots[used++];
    return flush_end ? s.base + pg + s.size - bytes : s.base + pg;
  }
  void make(size_t i, size_t need) {
    size_t sz = std::max(need * 2, (size_t)16384);
    char *b = (char *)mmap(nullptr, sz + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) throw HarnessError{"mmap"};
    mprotect(b + 4096, sz, PROT_READ | PROT_WRITE);
    slots[i] = {b, sz};
  }
};

template <class T> inline T poison() { typename Tr<T>::U u = sizeof(T) == 8 ? (typename Tr<T>::U)0x7ff4deadbeef1234ull : (typename Tr<T>::U)0x7fa5dead; T t; memcpy(&t, &u, sizeof t); return t; }

// Far mode: operands spread over more elements than an int can count. The address space is reserved without access and
// only the pages that hold elements are opened, so that a wrong address is a crash.
struct Far {
  static bool &on() { static bool b = false; return b; }
  static std::vector<std::pair<char *, size_t>> &maps() { static std::vector<std::pair<char *, size_t>> v; return v; }
  static char *&last() { static char *l = nullptr; return l; }
  static const size_t margin = (size_t)1 << 35;
  static char *reserve(size_t bytes) {
    size_t n = (bytes + 4095) / 4096 * 4096 + 2 * margin;
    char *b = (char *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) throw HarnessError{"mmap of a far operand"};
    maps().push_back({b, n}); last() = nullptr; return b + margin;
  }
  static void open(void *p, size_t bytes) {
    char *a = (char *)((uintptr_t)p / 4096 * 4096), *e = (char *)(((uintptr_t)p + bytes + 4095) / 4096 * 4096); if (e == last()) { if (a == e - 4096) return; a = e - 4096; }
    if (mprotect(a, e - a, PROT_READ | PROT_WRITE)) throw HarnessError{"mprotect of a far operand"};
    last() = e;
  }
  static void close() { for (auto &m : maps()) munmap(m.first, m.second); maps().clear(); last() = nullptr; on() = false; }
  // distance of n items, so that they extend over 2^28 to 2^33 of them
  static int step(Ctx &c, int n, int least, int most) {
    if (c.chance(1, 5)) return least + (int)c.draw(3);
    int64_t ext = (int64_t)1 << (29 + c.draw(4)); ext += (int64_t)c.draw(1000) * (ext / 1000);
    int64_t s = n > 1 ? ext / (n - 1) : (int64_t)c.draw(most - 1);
    return (int)std::max<int64_t>(least, std::min<int64_t>(most, s));
  }
};
struct FarScope { FarScope() { Far::on() = true; } ~FarScope() { Far::close(); } };

// n elements of w numbers (1 real, 2 complex), inc elements apart; the gaps hold a NaN pattern
template <class T> struct Vec {
  int n = 0, w = 1, inc = 1; size_t cnt = 0; T *p = nullptr; std::vector<T> copy;
  void make(Ctx &c, int n_, int w_, int inc_) {
    n = n_; w = w_; inc = inc_;
    if (Far::on()) {
      inc = Far::step(c, n, 1, 1 << 25); cnt = 0; p = (T *)Far::reserve(((size_t)std::max(0, n - 1) * inc + 1) * w * sizeof(T)) + c.draw(7); copy.clear();
      for (int i = 0; i < n; i++) Far::open(&at(i), w * sizeof(T));
      return;
    }
    cnt = n == 0 ? 0 : ((size_t)(n - 1) * inc + 1) * w;
    p = (T *)Arena::get().alloc(cnt * sizeof(T), !c.chance(1, 4));
    T z = poison<T>(); for (size_t i = 0; i < cnt; i++) p[i] = z;
  }
  T &at(int i, int k = 0) { return p[((size_t)i * inc) * w + k]; }
  void load(const std::vector<T> &v) { for (int i = 0; i < n; i++) for (int k = 0; k < w; k++) at(i, k) = v[(size_t)i * w + k]; snap(); }
  void snap() { copy.assign(p, p + cnt); }
  void unchanged(const char *what) { if (cnt && memcmp(copy.data(), p, cnt * sizeof(T))) for (size_t i = 0; i < cnt; i++) if (!same_bits(copy[i], p[i])) FAIL("%s was modified at element %zu: %a became %a", what, i, (double)copy[i], (double)p[i]); }
};

template <class T> inline std::string show(const std::vector<T> &v, size_t max = 24) {
  std::string s = sfmt("[%zu]{", v.size());
  for (size_t i = 0; i < v.size() && i < max; i++) s += sfmt("%s%a", i ? ", " : "", (double)v[i]);
  if (v.size() > max) s += ", ...";
  return s + "}";
}

// source of element-level decisions: the case itself for short arrays, a drawn seed for long ones
struct Source {
  Ctx *c; bool own; Rng r;
  uint64_t operator()(uint64_t max) { return own ? c->draw(max) : r.upto(max); }
};

template <class T> struct Profile {
  typedef Tr<T> R;
  int kind = 0, lo = 1, hi = 1, sign = 0, mant = 0, zero = 0, style = 0;
  static constexpr int MINE = R::EMIN + 1;      // frexp exponent of the smallest number
  std::string str() const { return sfmt("kind=%d exponents[%d,%d] sign=%d mant=%d zero=%d style=%d", kind, lo, hi, sign, mant, zero, style); }
  // emin/emax: allowed frexp exponents
  void draw(Ctx &c, int emin = MINE, int emax = R::EMAX) {
    kind = c.weighted({6, 10, 10, 10, 6, 6, 8, 6, 4});
    sign = c.weighted({3, 8, 2, 3});
    mant = c.weighted({4, 8, 3, 2});
    zero = c.weighted({8, 1, 1, 1});
    style = c.weighted({10, 4, 4, 2});
    int mid = emin <= 1 && emax >= 1 ? 1 : (emin + emax) / 2;
    int span = emax - emin;
    auto pt = [&](int lo_, int hi_) { return (int)c.range(lo_, std::max(lo_, hi_)); };
    switch (kind) {
      case 0: lo = hi = mid; break;
      case 1: { int e = pt(std::max(emin, mid - 60), std::min(emax, mid + 60)); lo = e; hi = std::min(emax, e + (int)c.draw(4)); break; }
      case 2: { int e = pt(emin, emax); lo = e; hi = std::min(emax, e + (int)c.draw(R::W)); break; }
      case 3: { int e = pt(emin, emax); lo = e; hi = std::min(emax, e + (int)c.draw(3 * R::W)); break; }
      case 4: lo = emin; hi = emax; break;
      case 5: { hi = std::min(emax, MINE + R::P + 2 * R::W); hi = std::max(hi, emin); hi = pt(emin, hi); lo = std::max(emin, hi - (int)c.draw(2 * R::W)); break; }   // bottom
      case 6: { hi = emax - (int)c.draw(std::min(span, 2 * R::W)); lo = std::max(emin, hi - (int)c.draw(2 * R::W)); break; }   // top
      case 7: { int v = pt(0, R::MAXIDX); int e = R::EMAX - R::W * v; if (e < emin) e = emin; if (e > emax) e = emax; lo = hi = e; mant = c.weighted({1, 2, 6, 1}); break; }   // top of a bin
      case 8: lo = hi = pt(emin, emax); break;
    }
  }
  T elem(Source &s, int i, int emin = MINE, int emax = R::EMAX) const {
    if (zero && s(zero == 1 ? 15 : zero == 2 ? 3 : 1) == 1) return s(3) == 3 ? -(T)0 : (T)0;
    int e = lo + (int)s(hi - lo);
    int st = style == 3 ? 1 + (int)s(2) : style && s(3) == 3 ? style : 0;
    bool neg = sign == 1 ? s(1) : sign == 2 ? true : sign == 3 ? (i & 1) : false;
    double x;
    if (st == 0) {
      double m;
      switch (mant) {
        case 0: m = std::ldexp(1.0 + (double)s(7) / 8, -1); break;
        case 1: m = std::ldexp((double)(((uint64_t)1 << (R::P - 1)) + s(((uint64_t)1 << (R::P - 1)) - 1)), -R::P); break;
        case 2: m = 1.0 - std::ldexp((double)(1 + s(3)), -R::P); break;
        default: m = 0.5;
      }
      x = std::ldexp(m, e);
    } else if (st == 1) {     // around the edge of a bin
      int v = std::min((R::EMAX - e) / R::W, (int)R::MAXIDX); int d = (int)s(4) - 2;
      x = std::ldexp(1.0, R::EMAX - R::W * v - (int)(s(1) ? 0 : R::W));
      x += d * std::ldexp(1.0, std::max(std::ilogb(x) - R::P + (d < 0 ? 0 : 1), (int)R::EMIN));
    } else {                  // ties: odd multiples of half a bin unit, perhaps with a disturbance below
      int v = std::min((R::EMAX - e) / R::W, (int)R::MAXIDX); int u = ulpexp<T>(v);
      double a = (double)(2 * s(st == 2 ? 3 : ((uint64_t)1 << (R::W - 2)) - 1) + 1);
      x = std::ldexp(a, u - 1);
      switch (s(3)) { case 0: break; case 1: x += std::ldexp(1.0, std::max(std::ilogb(x) - R::P + 1, (int)R::EMIN)); break;
        case 2: x -= std::ldexp(1.0, std::max(std::ilogb(x) - R::P + 1, (int)R::EMIN)); break;
        case 3: x += std::ldexp(1.0, std::max(u - R::W - 1, (int)R::EMIN)); break; }
    }
    T t = (T)x; int ee;
    double top = std::ldexp(1.0, emax - 1) + (std::ldexp(1.0, emax - 1) - std::ldexp(1.0, std::max(emax - R::P, (int)R::EMIN)));   // largest number below 2^emax
    if (!std::isfinite(t) || std::fabs((double)t) > top) t = (T)top;
    if (t != 0) { std::frexp(t, &ee); if (ee < emin) t = (T)std::ldexp(0.5, emin); }
    return neg ? -t : t;
  }
};

inline int draw_n(Ctx &c, int maxn = 20000) {
  switch (c.weighted({30, 30, 20, 14, 5, 1})) {
    case 0: return std::min<int>(maxn, (int)c.draw(8));
    case 1: return std::min<int>(maxn, (int)c.draw(40));
    case 2: return std::min<int>(maxn, (int)c.draw(300));
    case 3: { static const int b[] = {32, 64, 128, 256, 512, 1024, 2048, 4096}; int k = (int)c.draw(7); return std::min<int>(maxn, std::max<int>(0, b[k] + (int)c.draw(70) - 35)); }
    case 4: return std::min<int>(maxn, 1000 + (int)c.draw(5500));
    default: return std::min<int>(maxn, 6000 + (int)c.draw(8000));
  }
}
inline int draw_inc(Ctx &c) { return c.chance(1, 2) ? 1 : 1 + (int)c.draw(c.chance(1, 6) ? 17 : 4); }
template <class T> inline int draw_fold(Ctx &c, int lo = 2) {
  switch (c.weighted({6, 5, 4, 5, 3})) { case 0: return 3; case 1: return 2; case 2: return 4; case 3: return lo + (int)c.draw(7); default: return lo + (int)c.draw(Tr<T>::MAXFOLD - lo); }
}

struct DataOpt { int emin = INT32_MIN, emax = INT32_MAX; };

template <class T> inline std::vector<T> draw_data(Ctx &c, size_t n, int emin = Profile<T>::MINE, int emax = Tr<T>::EMAX) {
  std::vector<T> v(n);
  Profile<T> p; p.draw(c, emin, emax);
  bool two = c.chance(1, 5); Profile<T> p2 = p; if (two) p2.draw(c, emin, emax);
  bool own = n <= 12 || (n <= 40 && c.chance(1, 4));
  Source s{&c, own, Rng(own ? 0 : c.draw(0xffffffff))};
  int pos2 = two ? (int)c.draw(2) : 0; size_t cut = two && n ? c.draw(n) : 0;
  for (size_t i = 0; i < n; i++) {
    const Profile<T> &q = !two ? p : pos2 == 0 ? (i < cut ? p : p2) : pos2 == 1 ? (s(7) == 7 ? p2 : p) : (i == cut ? p2 : p);
    v[i] = q.elem(s, (int)i, emin, emax);
  }
  switch (c.weighted({12, 2, 1, 1})) {
    case 0: break;
    case 1:      // cancellation: second half negates the first
      for (size_t i = 0; i < n / 2; i++) if (!own || !c.chance(1, 8)) v[n - 1 - i] = -v[i];
      c.label("cancelling halves"); break;
    case 2: for (size_t i = 1; i < n; i++) v[i] = v[0]; c.label("all equal"); break;
    case 3: std::sort(v.begin(), v.end(), [](T a, T b) { return std::fabs(a) < std::fabs(b); }); break;
  }
  if (n > 12) for (int k = (int)c.draw(3); k > 0; k--) { Profile<T> q; q.draw(c, emin, emax); Source so{&c, true, Rng()}; size_t at = c.draw(n - 1); v[at] = q.elem(so, (int)at, emin, emax); }
  return v;
}

// permutations of 0..n-1
inline std::vector<int> draw_perm(Ctx &c, int n) {
  std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
  switch (c.weighted({1, 3, 1, 1})) {
    case 0: break;
    case 1: { if (n <= 12) { for (int i = n - 1; i > 0; i--) std::swap(p[i], p[c.draw(i)]); } else { Rng r(c.draw(0xffffffff)); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.upto(i)]); } break; }
    case 2: std::reverse(p.begin(), p.end()); break;
    case 3: if (n) std::rotate(p.begin(), p.begin() + c.draw(n - 1), p.end()); break;
  }
  return p;
}

// A binned accumulator in its own guarded memory: packed, or with explicit strides and poisoned gaps
template <class T> struct Acc {
  int fold, w; int ip, ic; T *pri, *car; size_t np, nc; bool packed;
  void make(Ctx &c, int f, int w_, bool pack = true, int ip_ = 1, int ic_ = 1) {
    fold = f; w = w_; packed = pack; ip = pack ? 1 : ip_; ic = pack ? 1 : ic_;
    np = ((size_t)(f - 1) * ip + 1) * w; nc = ((size_t)(f - 1) * ic + 1) * w;
    if (pack) { pri = (T *)Arena::get().alloc((np + nc) * sizeof(T), !c.chance(1, 4)); car = pri + np; }
    else { pri = (T *)Arena::get().alloc(np * sizeof(T), !c.chance(1, 4)); car = (T *)Arena::get().alloc(nc * sizeof(T), !c.chance(1, 4)); }
    fill();
  }
  void fill() { T z = poison<T>(); for (size_t i = 0; i < np; i++) pri[i] = z; for (size_t i = 0; i < nc; i++) car[i] = z; zero(); }
  void zero() { for (int i = 0; i < fold; i++) for (int k = 0; k < w; k++) { pri[i * ip * w + k] = 0; car[i * ic * w + k] = 0; } }
  std::string gaps() const {
    T z = poison<T>();
    for (size_t i = 0; i < np; i++) if ((i / w) % ip && !same_bits(pri[i], z)) return sfmt("primary gap %zu overwritten with %a", i, (double)pri[i]);
    for (size_t i = 0; i < nc; i++) if ((i / w) % ic && !same_bits(car[i], z)) return sfmt("carry gap %zu overwritten with %a", i, (double)car[i]);
    return "";
  }
  std::string check(const Model<T> &m, int k = 0, bool normal = true) const { return m.check(pri + k, ip * w, car + k, ic * w, normal); }
  bool same(const Acc &o) const {
    for (int i = 0; i < fold; i++) for (int k = 0; k < w; k++) { if (!same_bits(pri[i * ip * w + k], o.pri[i * o.ip * w + k])) return false; if (car[i * ic * w + k] != o.car[i * o.ic * w + k]) return false; }
    return true;
  }
  void load(const Model<T> &m, int k = 0) { m.write(pri + k, ip * w, car + k, ic * w); }
  std::vector<T> dump() const { std::vector<T> v; for (int k = 0; k < w; k++) { for (int i = 0; i < fold; i++) v.push_back(pri[i * ip * w + k]); for (int i = 0; i < fold; i++) v.push_back(car[i * ic * w + k]); } return v; }
};

inline int engine_main(int argc, char **argv, Engine &e) { e.per_case_reset = [] { Arena::get().reset(); }; libs(); return e.main(argc, argv); }
