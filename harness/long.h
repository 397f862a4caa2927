// Long vectors: a short list of terms repeated many times (C01, C03, C04, C05), up to as many as an int can count (C34).
#pragma once
#include "sq.h"

// The list over and over as far as wanted, in the memory of a few copies, read only.
template <class T> struct Tiles {
  T *p = nullptr; size_t len = 0; int fd = -1; std::vector<T> list;
  void make(const std::vector<T> &l, size_t numbers) {
    list = l; size_t b = list.size() * sizeof(T), k = 1; while (b * k % 4096) k *= 2; while (b * k < (1 << 21)) k *= 2;
    size_t tile = b * k; fd = memfd_create("tile", 0); if (fd < 0 || ftruncate(fd, tile)) throw HarnessError{"memfd"};
    T *t = (T *)mmap(nullptr, tile, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (t == MAP_FAILED) throw HarnessError{"mmap of a tile"};
    for (size_t i = 0; i < k; i++) memcpy((char *)t + i * b, list.data(), b);
    munmap(t, tile);
    size_t used = (numbers * sizeof(T) + 4095) / 4096 * 4096; len = used + 4096;
    char *a = (char *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) throw HarnessError{"mmap of a long vector"};
    for (size_t o = 0; o < used; o += tile) if (mmap(a + o, std::min(tile, used - o), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw HarnessError{"mmap of a part of a long vector"};
    p = (T *)a;
  }
  ~Tiles() { if (p) munmap(p, len); if (fd >= 0) close(fd); }
};
// the length, for a list of b elements
inline int long_n(Ctx &c, int b, bool huge, int64_t most = INT32_MAX) {
  if (!huge) { int lg = 13 + (int)c.weighted({12, 8, 4, 4, 2, 1, 1, 1}); int target = (1 << lg) + (int)c.draw(1 << lg); return b * std::max(1, target / b) + (int)c.draw(b - 1); }
  if (c.chance(1, 8)) return (int)std::min<int64_t>(most, INT32_MAX - (int)c.draw(2));
  int lg = 21 + (int)c.draw(9); return (int)std::min<int64_t>(most, (1 << lg) + (int)c.draw((1 << lg) - 1));
}
// keeps huge cases within some ten seconds: the kernels for folds other than the default one are slow
template <class T> static int long_fold(Ctx &c, bool huge, int w, int64_t &most) {
  int fold = huge && !c.chance(1, 4) ? Tr<T>::DEFFOLD : draw_fold<T>(c);
  most = fold == Tr<T>::DEFFOLD ? std::min<int64_t>(INT32_MAX, ((int64_t)1 << 31) / w + (1 << 28)) : (int64_t)2000000000 / (fold * w); return fold;
}
// denormal operands take a hundred times as long
template <class T> static void long_slow(T t, int64_t &most) { if (t != 0 && std::fabs(t) < std::ldexp((T)1, -Tr<T>::EMAX + 2 * Tr<T>::W + 20)) most = std::min<int64_t>(most, 1 << 27); }
inline void long_label(Ctx &c, int n) { c.label(n > 1000000000 ? "N > 10^9" : n > 100000000 ? "10^8 < N <= 10^9" : n > 1000000 ? "10^6 < N <= 10^8" : n > 100000 ? "100000 < N <= 1000000" : "8192 < N <= 100000"); }

// long arrays: a short list of terms repeated many times, in two arrangements
template <class T> static void longred(Ctx &c, Red r, bool huge = false) {
  typedef Tr<T> R; RedOp<T> op{r}; int w = red_w(r), rw = red_rw(r); Fam<T> &f = L<T>();
  int64_t most; int fold = long_fold<T>(c, huge, w, most);
  RedData<T> d = draw_red<T>(c, r, 400); if (!d.n) return;
  for (int i = 0; huge && i < d.n; i++) op.terms(&d.x[(size_t)i * w], red_two(r) ? &d.y[(size_t)i * w] : nullptr, [&](int, T t) { long_slow<T>(t, most); });
  int n = long_n(c, d.n, huge, most), reps = n / d.n, extra = n % d.n;     // the first `extra` terms once more
  NOTE("%s<%s> fold=%d: %d terms %d times and %d of them once more, N=%d x=%s y=%s", redname(r), R::nm(), fold, d.n, reps, extra, n, show(d.x).c_str(), show(d.y).c_str());
  std::vector<Model<T>> m(rw, Model<T>(fold));
  auto each = [&](int i, auto fn) { op.terms(&d.x[(size_t)i * w], red_two(r) ? &d.y[(size_t)i * w] : nullptr, fn); };
  for (int i = 0; i < d.n; i++) each(i, [&](int k, T t) { if (std::isfinite(t)) m[k].update(t); });
  for (int i = 0; i < d.n; i++) each(i, [&](int k, T t) { m[k].deposit(t, reps + (i < extra)); });
  bool nz = false; for (T t : d.x) nz |= t != 0;
  for (int pr = 0; pr < (huge ? 1 : 2); pr++) {
    int ix = n > 300000 ? 1 : draw_inc(c), iy = n > 300000 ? 1 : draw_inc(c); if (ix > 4) ix = 3; if (iy > 4) iy = 3;
    std::vector<T> x(huge ? 0 : (size_t)n * w), y(red_two(r) ? x.size() : 0);
    for (int i = 0, at = 0; !huge && i < (pr ? d.n : n); i++) {
      int b = pr ? i : i % d.n, k = pr ? reps + (i < extra) : 1;
      for (; k > 0; k--, at++) for (int q = 0; q < w; q++) { x[(size_t)at * w + q] = d.x[(size_t)b * w + q]; if (!y.empty()) y[(size_t)at * w + q] = d.y[(size_t)b * w + q]; }
    }
    Vec<T> X, Y; Tiles<T> TX, TY;
    if (huge) { TX.make(d.x, (size_t)n * w); X.p = TX.p; if (red_two(r)) { TY.make(d.y, (size_t)n * w); Y.p = TY.p; } }
    else { X.make(c, n, w, ix); X.load(x); if (red_two(r)) { Y.make(c, n, w, iy); Y.load(y); } }
    NOTE(" %s, strides %d %d", pr ? "equal terms together" : "the list over and over", ix, iy);
    Acc<T> a; draw_acc(c, a, fold, rw);
    int which = huge ? (int)c.draw(1) : 2;
    if (which != 1) op.acc(f, a, n, X.p, X.inc, Y.p, Y.inc);
    for (int k = 0; k < rw && which != 1; k++) { std::string e = a.check(m[k], k); if (!e.empty()) FAIL("%s<%s> fold %d N %d component %d: %s", redname(r), R::nm(), fold, n, k, e.c_str()); }
    if (which == 0) continue;
    T res[2] = {0, 0}, cv[2] = {0, 0}; op.rcall(f, fold, n, X.p, X.inc, Y.p, Y.inc, res);
    Acc<T> b; b.make(c, fold, rw); for (int k = 0; k < rw; k++) b.load(m[k], k);
    if (rw == 1) cv[0] = f.rbconv(fold, b.pri); else f.ccbconv(fold, b.pri, cv);
    for (int k = 0; k < rw; k++) {
      if (!same_bits(res[k], cv[k])) FAIL("%s<%s> fold %d N %d component %d returned %a, its accumulator converts to %a", redname(r), R::nm(), fold, n, k, (double)res[k], (double)cv[k]);
      Big bv; m[k].value(bv); std::string e = conv_ok<T>(res[k], bv); if (!e.empty()) FAIL("%s<%s> fold %d N %d component %d, the sum of its slices: %s", redname(r), R::nm(), fold, n, k, e.c_str());
    }
    X.unchanged("X"); if (red_two(r)) Y.unchanged("Y");
  }
  if (nz && d.n >= 2) c.nontrivial();
  long_label(c, n);
}

template <class T> static T call_ssq(bool cplx, int n, const T *x, int ix, T scale, Acc<T> &a) {
  Fam<T> &f = L<T>();
  if (a.packed) return cplx ? f.cbssq(a.fold, n, x, ix, scale, a.pri) : f.bssq(a.fold, n, x, ix, scale, a.pri);
  return cplx ? f.cmssq(a.fold, n, x, ix, scale, a.pri, a.ip, a.car, a.ic) : f.mssq(a.fold, n, x, ix, scale, a.pri, a.ip, a.car, a.ic);
}

// long vectors: a short list repeated many times, in two arrangements
template <class T> static void longnorm(Ctx &c, bool cplx, bool huge = false) {
  typedef Tr<T> R; int w = cplx ? 2 : 1; Fam<T> &f = L<T>();
  int64_t most; int fold = long_fold<T>(c, huge, w, most); int b = 1 + (int)c.draw(300);
  std::vector<T> d = draw_data<T>(c, (size_t)b * w);
  T mx = 0; for (T t : d) mx = std::max(mx, (T)std::fabs(t));
  for (T t : d) if (huge) { most = std::min<int64_t>(most, ((int64_t)1 << 31) / w + (1 << 28)); if (t != 0 && std::fabs(t) / mx < std::ldexp((T)1, Tr<T>::W - Tr<T>::EMAX / 2)) most = std::min<int64_t>(most, 1 << 27); }
  int n = long_n(c, b, huge, most), reps = n / b, extra = n % b;
  NOTE("nrm2<%s> complex=%d fold=%d: %d elements %d times and %d of them once more, N=%d x=%s", R::nm(), cplx, fold, b, reps, extra, n, show(d).c_str());
  Scaled<T> ref(fold); ref.scale = scale_ref<T>(mx); size_t nz = 0;
  std::vector<T> sq(d.size()); for (size_t i = 0; i < d.size(); i++) { volatile T q = d[i] / ref.scale; volatile T s = q * q; sq[i] = s; nz += d[i] != 0; }
  for (T t : sq) ref.m.update(t);
  for (size_t i = 0; i < sq.size(); i++) ref.m.deposit(sq[i], reps + ((int)i / w < extra));
  bool low = !ref.m.empty && ref.m.idx + fold > lowbin<T>(); i128 slack = low ? (i128)n * w * 2 : 0;
  T expect; { Acc<T> a; a.make(c, fold, 1); a.load(ref.m); volatile T q = std::sqrt(f.rbconv(fold, a.pri)); q = ref.scale * q; expect = q; }
  T first = 0;
  for (int pr = 0; pr < (huge ? 1 : 2); pr++) {
    int ix = n > 300000 ? 1 : std::min(4, draw_inc(c)); std::vector<T> x(huge ? 0 : (size_t)n * w);
    for (int i = 0, at = 0; !huge && i < (pr ? b : n); i++) { int j = pr ? i : i % b, k = pr ? reps + (i < extra) : 1; for (; k > 0; k--, at++) for (int q = 0; q < w; q++) x[(size_t)at * w + q] = d[(size_t)j * w + q]; }
    Vec<T> X; Tiles<T> TX; if (huge) { TX.make(d, (size_t)n * w); X.p = TX.p; } else { X.make(c, n, w, ix); X.load(x); } NOTE(" %s, stride %d", pr ? "equal elements together" : "the list over and over", ix);
    Acc<T> a; draw_acc(c, a, fold, 1); T sc = call_ssq(cplx, n, X.p, ix, (T)0, a);
    if (sc != ref.scale) FAIL("ssq<%s> complex=%d fold %d N %d: scale %a, expected %a", R::nm(), cplx, fold, n, (double)sc, (double)ref.scale);
    std::string e = check_ssq(a, ref.m, 0, slack); if (!e.empty()) FAIL("ssq<%s> complex=%d fold %d N %d: %s", R::nm(), cplx, fold, n, e.c_str());
    T got = cplx ? f.rcnrm2(fold, n, X.p, ix) : f.rnrm2(fold, n, X.p, ix);
    if (std::isnan(got) || got < 0 || std::signbit(got)) FAIL("nrm2<%s> complex=%d fold %d N %d returned %a", R::nm(), cplx, fold, n, (double)got);
    if (got == 0 ? nz != 0 : nz == 0) FAIL("nrm2<%s> complex=%d fold %d N %d returned %a for a vector with nonzero entries: %d", R::nm(), cplx, fold, n, (double)got, nz != 0);
    if (!low && pr && !same_bits(got, first)) FAIL("nrm2<%s> complex=%d fold %d N %d: %a in one order, %a in another", R::nm(), cplx, fold, n, (double)first, (double)got);
    first = got;
    if (!low && (got == 0 || std::isnormal(expect)) && !same_bits(got, expect)) FAIL("nrm2<%s> complex=%d fold %d N %d returned %a, the sum of the rounded squares gives %a", R::nm(), cplx, fold, n, (double)got, (double)expect);
    X.unchanged("X");
  }
  if (nz >= 2) c.nontrivial();
  long_label(c, n);
}
