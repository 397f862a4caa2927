// C01 C03 C04: reductions are a function of the multiset of (rounded) terms.
// C02: accuracy of sums. C15: infinities and NaNs.
#include "red.h"
#include "long.h"

template <class T> static std::vector<T> permuted(const std::vector<T> &x, int w, const std::vector<int> &p) {
  if (x.empty()) return x;
  std::vector<T> r(x.size()); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < w; k++) r[i * w + k] = x[(size_t)p[i] * w + k]; return r;
}

// Feeds the data to accumulators in a drawn presentation; the final accumulator is returned in a[0].
template <class T> static void present(Ctx &c, RedOp<T> op, int fold, const std::vector<T> &x, const std::vector<T> &y, int n, Acc<T> &res, int &pieces) {
  int w = red_w(op.r), rw = red_rw(op.r); Fam<T> &f = L<T>();
  Vec<T> X, Y; X.make(c, n, w, draw_inc(c)); X.load(x);
  if (red_two(op.r)) { Y.make(c, n, w, draw_inc(c)); Y.load(y); }
  auto yp = [&](int i) -> const T * { return red_two(op.r) ? Y.p + (size_t)i * Y.inc * w : nullptr; };
  auto xp = [&](int i) -> const T * { return X.p + (size_t)i * X.inc * w; };
  int mode = c.weighted({4, 3, 2, 2});
  pieces = 1;
  std::vector<Acc<T>> accs;
  auto fresh = [&]() -> Acc<T> & { accs.emplace_back(); draw_acc(c, accs.back(), fold, rw); return accs.back(); };
  if (mode == 0) {
    NOTE("  one call, strides %d %d", X.inc, Y.inc);
    op.acc(f, fresh(), n, xp(0), X.inc, yp(0), Y.inc);
  } else if (mode == 1) {   // consecutive pieces
    int k = 1 + (int)c.draw(n > 4 ? 5 : 2); pieces = k + 1;
    std::vector<int> cut = {0}; for (int i = 0; i < k; i++) cut.push_back((int)c.draw(n)); cut.push_back(n); std::sort(cut.begin(), cut.end());
    bool one = c.chance(1, 2);
    for (size_t i = 0; i + 1 < cut.size(); i++) {
      int how = (int)c.weighted({4, 1}); int m = cut[i + 1] - cut[i]; if (m > 300) how = 0;
      Acc<T> &a = one && !accs.empty() ? accs[0] : fresh();
      NOTE("  piece [%d,%d) %s into accumulator %d (%s)", cut[i], cut[i + 1], how ? "element by element" : "one call", (int)(&a - &accs[0]), a.packed ? "packed" : "strided");
      if (how == 0) op.acc(f, a, m, m ? xp(cut[i]) : X.p, X.inc, m ? yp(cut[i]) : Y.p, Y.inc);
      else for (int j = cut[i]; j < cut[i + 1]; j++) op.ecall(f, fold, xp(j), yp(j), a);
    }
  } else if (mode == 2) {   // interleaved pieces
    int k = 2 + (int)c.draw(3); pieces = k; bool one = c.chance(1, 2);
    for (int j = 0; j < k; j++) {
      int m = n > j ? (n - j + k - 1) / k : 0;
      Acc<T> &a = one && !accs.empty() ? accs[0] : fresh();
      NOTE("  every %d-th element from %d into accumulator %d", k, j, (int)(&a - &accs[0]));
      op.acc(f, a, m, m ? xp(j) : X.p, X.inc * k, m ? yp(j) : Y.p, Y.inc * k);
    }
  } else {                  // one number at a time
    pieces = n; Acc<T> &a = fresh();
    NOTE("  element by element");
    for (int j = 0; j < n; j++) op.ecall(f, fold, xp(j), yp(j), a);
  }
  while (accs.size() > 1) { // merge in a drawn tree
    size_t i = c.draw(accs.size() - 1), j = c.draw(accs.size() - 2); if (j >= i) j++;
    Acc<T> keep = accs[i]; std::vector<T> before = keep.dump();
    op.merge(f, accs[i], accs[j]);
    if (memcmp(before.data(), accs[i].dump().data(), before.size() * sizeof(T))) FAIL("merge modified its source");
    NOTE("  merge accumulator %zu into %zu", i, j);
    accs.erase(accs.begin() + i);
  }
  X.unchanged("X"); if (red_two(op.r)) Y.unchanged("Y");
  res = accs[0];
  std::string g = res.gaps(); if (!res.packed && !g.empty()) FAIL("%s", g.c_str());
}

template <class T> static void repro(Ctx &c, Red r) {
  RedOp<T> op{r}; int w = red_w(r), rw = red_rw(r);
  int fold = draw_fold<T>(c);
  RedData<T> d = draw_red<T>(c, r);
  NOTE("%s<%s> fold=%d N=%d x=%s y=%s", redname(r), Tr<T>::nm(), fold, d.n, show(d.x).c_str(), show(d.y).c_str());
  std::vector<Model<T>> m(rw, Model<T>(fold));
  op.model(m, d.x, d.y);
  T ref[2] = {0, 0};
  size_t nz = 0; for (T t : d.x) nz += t != 0;
  int total = 0;
  for (int pr = 0; pr < 2; pr++) {
    std::vector<int> p = pr ? draw_perm(c, d.n) : draw_perm(c, 0);
    std::vector<T> x = pr ? permuted(d.x, w, p) : d.x, y = pr ? permuted(d.y, w, p) : d.y;
    if (pr && red_two(r) && r != DOTC && c.chance(1, 2)) std::swap(x, y);
    if (pr && (r == ASUM || r == CASUM)) { Rng s(c.draw(255)); for (auto &t : x) if (s.upto(1)) t = -t; }
    NOTE(" presentation %d", pr);
    Acc<T> a; int pieces;
    present(c, op, fold, x, y, d.n, a, pieces); total += pieces;
    for (int k = 0; k < rw; k++) { std::string e = a.check(m[k], k); if (!e.empty()) FAIL("%s<%s> fold %d N %d component %d: %s", redname(r), Tr<T>::nm(), fold, d.n, k, e.c_str()); }
    // the value-returning entry point
    Vec<T> X, Y; X.make(c, d.n, w, draw_inc(c)); X.load(x); if (red_two(r)) { Y.make(c, d.n, w, draw_inc(c)); Y.load(y); }
    T res[2] = {0, 0}, cv[2] = {0, 0};
    op.rcall(L<T>(), fold, d.n, X.p, X.inc, Y.p, Y.inc, res);
    X.unchanged("X"); if (red_two(r)) Y.unchanged("Y");
    // an accumulator with the same contents, packed, through the conversion
    Acc<T> b; b.make(c, fold, rw); for (int k = 0; k < rw; k++) b.load(m[k], k);
    if (rw == 1) cv[0] = L<T>().rbconv(fold, b.pri); else L<T>().ccbconv(fold, b.pri, cv);
    for (int k = 0; k < rw; k++) {
      if (!same_bits(res[k], cv[k])) FAIL("%s<%s> fold %d N %d component %d returned %a, its accumulator converts to %a", redname(r), Tr<T>::nm(), fold, d.n, k, (double)res[k], (double)cv[k]);
      { Big bv; m[k].value(bv); std::string e = conv_ok<T>(res[k], bv); if (!e.empty()) FAIL("%s<%s> fold %d N %d component %d, the sum of its slices: %s", redname(r), Tr<T>::nm(), fold, d.n, k, e.c_str()); }
      if (pr && !same_bits(res[k], ref[k])) FAIL("%s<%s> fold %d N %d component %d: %a in one order, %a in another", redname(r), Tr<T>::nm(), fold, d.n, k, (double)ref[k], (double)res[k]);
      ref[k] = res[k];
      if ((r == ASUM || r == CASUM) && (res[k] < 0 || std::signbit(res[k]))) FAIL("absolute sum is negative: %a", (double)res[k]);
    }
  }
  if (nz >= 2 && total > 2) c.nontrivial();
  if (d.n > 2048) c.label("N > 2048"); else if (d.n > 256) c.label("256 < N <= 2048"); else if (d.n > 16) c.label("16 < N <= 256"); else c.label("N <= 16");
  if (m[0].idx == 0) c.label("top bin (compressed)"); if (m[0].idx + fold > Tr<T>::MAXIDX + 1) c.label("window beyond the last bin");
  if (fold > 4) c.label("fold > 4");
}

// C02
template <class T> static void accuracy(Ctx &c, Red r) {
  typedef Tr<T> R; RedOp<T> op{r}; int w = red_w(r), rw = red_rw(r);
  int fold = draw_fold<T>(c);
  RedData<T> d = draw_red<T>(c, r, 6000);
  NOTE("%s<%s> fold=%d N=%d x=%s", redname(r), R::nm(), fold, d.n, show(d.x).c_str());
  Vec<T> X; X.make(c, d.n, w, draw_inc(c)); X.load(d.x);
  T res[2] = {0, 0};
  if (c.chance(1, 3)) {      // the documented "wrapper" way: accumulate then convert
    Acc<T> a; draw_acc(c, a, fold, rw);
    op.acc(L<T>(), a, d.n, X.p, X.inc, nullptr, 0);
    if (rw == 1) res[0] = a.packed ? L<T>().rbconv(fold, a.pri) : L<T>().rmconv(fold, a.pri, a.ip, a.car, a.ic);
    else if (a.packed) L<T>().ccbconv(fold, a.pri, res); else for (int k = 0; k < 2; k++) res[k] = L<T>().rmconv(fold, a.pri + k, 2 * a.ip, a.car + k, 2 * a.ic);
  } else op.rcall(L<T>(), fold, d.n, X.p, X.inc, nullptr, 0, res);
  for (int k = 0; k < rw; k++) {
    Big S; double mx = 0; int n = 0; bool pos = false, neg = false;
    for (int i = 0; i < d.n; i++) op.terms(&d.x[(size_t)i * w], nullptr, [&](int kk, T t) { if (kk == k) { S.add(t); mx = std::max(mx, (double)std::fabs(t)); n++; pos |= t > 0; neg |= t < 0; } });
    Big tol; if (n && mx > 0) { int64_t mm; int e; Big::split(mx, mm, e); int be = e + R::W * (1 - fold); if (be < -1300) tol.addi(1, -1200); else tol.addi((i128)mm * n, be); tol.addi(n, ulpexp<T>(R::MAXIDX) - 1); }
    Big rel = S.abs(); rel += tol; rel.mulu(7); rel.shr(R::P - 1); tol += rel; Big q; q.addi(1, R::EMIN); tol += q;
    T g = res[k];
    if (std::isnan(g)) FAIL("result is NaN, exact %s", S.str().c_str());
    if (std::isinf(g)) {
      Big a = S.abs(); a += tol; Big mxx; mxx.addi(1, R::EMAX); Big h; h.addi(1, R::EMAX - R::P - 1); mxx -= h;
      if (a < mxx) FAIL("overflow: returned %g, exact sum %s", (double)g, S.str().c_str());
      if ((g < 0) != S.neg()) FAIL("overflow with the wrong sign: returned %g, exact sum %s", (double)g, S.str().c_str());
      c.label("sum out of range");
    } else {
      Big e((double)g); e -= S;
      if (tol < e.abs()) FAIL("%s<%s> fold %d N %d returned %a (%.17g), exact %s, error %s exceeds bound %s", redname(r), R::nm(), fold, d.n, (double)g, (double)g, S.str().c_str(), e.str().c_str(), tol.str().c_str());
      if (!S.zero() && !e.zero()) c.label("inexact result");
      Big half; half.add(mx); half.shr(R::P); if (n > 1 && S.abs() < half) c.label("heavy cancellation");
    }
    if (n > 1 && pos && neg) c.nontrivial();
    if (n > 1 && (r == ASUM || r == CASUM) && mx > 0) c.nontrivial();
  }
}

// C03: dot products against exact arithmetic; each product may be off by half a unit or one smallest number
template <class T> static void accuracy_dot(Ctx &c, Red r) {
  typedef Tr<T> R; RedOp<T> op{r}; int w = red_w(r), rw = red_rw(r);
  int fold = draw_fold<T>(c);
  RedData<T> d = draw_red<T>(c, r, 4000);
  NOTE("%s<%s> fold=%d N=%d x=%s y=%s", redname(r), R::nm(), fold, d.n, show(d.x).c_str(), show(d.y).c_str());
  Vec<T> X, Y; X.make(c, d.n, w, draw_inc(c)); X.load(d.x); Y.make(c, d.n, w, draw_inc(c)); Y.load(d.y);
  T res[2] = {0, 0}; op.rcall(L<T>(), fold, d.n, X.p, X.inc, Y.p, Y.inc, res);
  for (int k = 0; k < rw; k++) {
    Big S, A; double mx = 0; int n = 0; bool pos = false, neg = false;
    auto term = [&](T a, T b, bool minus) { S.addprod(a, b, minus); double p = (double)a * (double)b; volatile T t = a * b; A.addprod(std::fabs(a), std::fabs(b)); mx = std::max(mx, std::fabs((double)t)); n++; if (minus) p = -p; pos |= p > 0; neg |= p < 0; };
    for (int i = 0; i < d.n; i++) {
      const T *x = &d.x[(size_t)i * w], *y = &d.y[(size_t)i * w];
      if (w == 1) term(x[0], y[0], false);
      else if (k == 0) { term(x[0], y[0], false); term(x[1], y[1], r == DOTU); }
      else { term(x[0], y[1], false); term(x[1], y[0], r == DOTC); }
    }
    Big tol = A; tol.shr(R::P); tol.addi(n, R::EMIN - 1);
    if (n && mx > 0) { int64_t mm; int e; Big::split(mx, mm, e); int be = e + R::W * (1 - fold); if (be < -1300) tol.addi(1, -1200); else tol.addi((i128)mm * n, be); tol.addi(n, ulpexp<T>(R::MAXIDX) - 1); }
    Big rel = S.abs(); rel += tol; rel.mulu(7); rel.shr(R::P - 1); tol += rel; Big q; q.addi(1, R::EMIN); tol += q;
    T g = res[k];
    if (std::isnan(g)) FAIL("result is NaN, exact %s", S.str().c_str());
    if (std::isinf(g)) {
      Big a = S.abs(); a += tol; Big mxx; mxx.addi(1, R::EMAX); Big h; h.addi(1, R::EMAX - R::P - 1); mxx -= h;
      if (a < mxx) FAIL("overflow: returned %g, exact dot product %s", (double)g, S.str().c_str());
      if ((g < 0) != S.neg()) FAIL("overflow with the wrong sign: returned %g, exact dot product %s", (double)g, S.str().c_str());
    } else {
      Big e((double)g); e -= S;
      if (tol < e.abs()) FAIL("%s<%s> fold %d N %d component %d returned %a (%.17g), exact %s, error %s exceeds bound %s", redname(r), R::nm(), fold, d.n, k, (double)g, (double)g, S.str().c_str(), e.str().c_str(), tol.str().c_str());
      Big half; half.add(mx); half.shr(R::P); if (n > 1 && S.abs() < half) c.label("heavy cancellation");
    }
    if (d.n > 1 && pos && neg) c.nontrivial();
  }
}

// C15
template <class T> static void specials(Ctx &c, Red r) {
  typedef Tr<T> R; RedOp<T> op{r}; int w = red_w(r), rw = red_rw(r);
  int fold = draw_fold<T>(c);
  RedData<T> d; d.n = std::max(1, draw_n(c, 6000));
  // finite part: any magnitude; products may overflow (an overflowing product is an infinite term)
  d.x = draw_data<T>(c, (size_t)d.n * w); if (red_two(r)) d.y = draw_data<T>(c, (size_t)d.n * w);
  int ns = (int)c.draw(4);
  for (int i = 0; i < ns; i++) {
    size_t at = c.draw(d.x.size() - 1); int k = c.weighted({3, 3, 2}); T v = k == 0 ? (T)INFINITY : k == 1 ? (T)-INFINITY : (T)NAN;
    if (red_two(r) && c.chance(1, 2)) d.y[at] = v; else d.x[at] = v;
  }
  NOTE("%s<%s> fold=%d N=%d x=%s y=%s", redname(r), R::nm(), fold, d.n, show(d.x, 40).c_str(), show(d.y, 40).c_str());
  std::vector<Model<T>> m(rw, Model<T>(fold)); op.model(m, d.x, d.y);
  for (int k = 0; k < rw; k++) { if (m[k].spec) c.nontrivial(); c.label(m[k].spec == 0 ? "finite component" : m[k].spec & 4 ? "NaN" : m[k].spec == 3 ? "both infinities" : "one infinity"); }
  for (int pr = 0; pr < 2; pr++) {
    std::vector<int> p = pr ? draw_perm(c, d.n) : draw_perm(c, 0);
    std::vector<T> x = pr ? permuted(d.x, w, p) : d.x, y = pr ? permuted(d.y, w, p) : d.y;
    Acc<T> a; int pieces;
    present(c, op, fold, x, y, d.n, a, pieces);
    for (int k = 0; k < rw; k++) { std::string e = a.check(m[k], k); if (!e.empty()) FAIL("%s<%s> fold %d N %d component %d: %s", redname(r), R::nm(), fold, d.n, k, e.c_str()); }
    Vec<T> X, Y; X.make(c, d.n, w, draw_inc(c)); X.load(x); if (red_two(r)) { Y.make(c, d.n, w, draw_inc(c)); Y.load(y); }
    T res[2] = {0, 0}; op.rcall(L<T>(), fold, d.n, X.p, X.inc, Y.p, Y.inc, res);
    for (int k = 0; k < rw; k++) {
      if (m[k].spec) { double e = m[k].special(); if (std::isnan(e) ? !std::isnan(res[k]) : res[k] != e) FAIL("%s<%s> fold %d N %d component %d returned %g, expected %g", redname(r), R::nm(), fold, d.n, k, (double)res[k], e); }
      else { Big b; m[k].value(b); std::string e = conv_ok<T>(res[k], b); if (!e.empty()) FAIL("%s<%s> fold %d N %d component %d is finite: %s", redname(r), R::nm(), fold, d.n, k, e.c_str()); }
    }
  }
}
// norms: NaN if any NaN, otherwise +inf if any infinity
template <class T> static void special_norm(Ctx &c, bool cplx) {
  int w = cplx ? 2 : 1; int fold = draw_fold<T>(c, 2); if (fold > 6) fold = 6;
  int n = std::max(1, draw_n(c, 5000));
  std::vector<T> x = draw_data<T>(c, (size_t)n * w);
  int ns = (int)c.draw(3); bool nan = false, inf = false;
  for (int i = 0; i < ns; i++) { size_t at = c.draw(x.size() - 1); int k = c.weighted({3, 3, 2}); x[at] = k == 0 ? (T)INFINITY : k == 1 ? (T)-INFINITY : (T)NAN; }
  for (T t : x) { nan |= std::isnan(t); inf |= std::isinf(t); }
  NOTE("nrm2<%s> complex=%d fold=%d x=%s", Tr<T>::nm(), cplx, fold, show(x, 40).c_str());
  if (nan || inf) c.nontrivial();
  Vec<T> X; X.make(c, n, w, draw_inc(c)); X.load(x);
  T r = cplx ? L<T>().rcnrm2(fold, n, X.p, X.inc) : L<T>().rnrm2(fold, n, X.p, X.inc);
  if (nan ? !std::isnan(r) : inf ? !(r == INFINITY) : std::isnan(r)) FAIL("nrm2<%s> complex=%d fold %d N %d returned %g with NaN present: %d, infinity present: %d", Tr<T>::nm(), cplx, fold, n, (double)r, nan, inf);
  // piecewise sums of squares
  Acc<T> a; a.make(c, fold, 1); T sc = 0; int cut = (int)c.draw(n);
  for (int h = 0; h < 2; h++) { int lo = h ? cut : 0, m = h ? n - cut : cut; if (!m) continue;
    sc = cplx ? L<T>().cbssq(fold, m, X.p + (size_t)lo * X.inc * w, X.inc, sc, a.pri) : L<T>().bssq(fold, m, X.p + (size_t)lo * X.inc * w, X.inc, sc, a.pri); }
  T v = L<T>().rbconv(fold, a.pri); 
  double val = nan || inf ? (double)v * (std::isfinite(sc) ? 1.0 : 1.0) : 0;
  if (nan && !std::isnan(v)) FAIL("sum of squares is %g although a NaN is present", (double)v);
  if (!nan && inf && v != INFINITY) FAIL("sum of squares is %g although an infinity is present", (double)v);
  if (!nan && !inf && !std::isfinite(v)) FAIL("sum of squares of finite data is %g (scale %g)", (double)v, (double)sc);
  X.unchanged("X");
}

int main(int argc, char **argv) {
  Engine e; std::string prop;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
  auto both = [&](const char *n1, const char *n2, int wt, Red r, int kind) {
    e.tests.push_back({n1, wt, [=](Ctx &c) { kind == 0 ? repro<double>(c, r) : kind == 1 ? accuracy<double>(c, r) : kind == 3 ? accuracy_dot<double>(c, r) : kind == 4 ? longred<double>(c, r) : specials<double>(c, r); }});
    e.tests.push_back({n2, wt, [=](Ctx &c) { kind == 0 ? repro<float>(c, r) : kind == 1 ? accuracy<float>(c, r) : kind == 3 ? accuracy_dot<float>(c, r) : kind == 4 ? longred<float>(c, r) : specials<float>(c, r); }});
  };
  if (prop == "C01") { both("sum_d", "sum_s", 60, SUM, 0); both("sum_z", "sum_c", 60, CSUM, 0); both("long_sum_d", "long_sum_s", 1, SUM, 4); both("long_sum_z", "long_sum_c", 1, CSUM, 4); }
  if (prop == "C03") { both("dot_d", "dot_s", 60, DOT, 0); both("dotu_z", "dotu_c", 60, DOTU, 0); both("dotc_z", "dotc_c", 60, DOTC, 0);
    both("accuracy_dot_d", "accuracy_dot_s", 60, DOT, 3); both("accuracy_dotu_z", "accuracy_dotu_c", 60, DOTU, 3); both("accuracy_dotc_z", "accuracy_dotc_c", 60, DOTC, 3);
    both("long_dot_d", "long_dot_s", 2, DOT, 4); both("long_dotu_z", "long_dotu_c", 1, DOTU, 4); both("long_dotc_z", "long_dotc_c", 1, DOTC, 4); }
  if (prop == "C04") { both("asum_d", "asum_s", 60, ASUM, 0); both("asum_z", "asum_c", 60, CASUM, 0); both("long_asum_d", "long_asum_s", 1, ASUM, 4); both("long_asum_z", "long_asum_c", 1, CASUM, 4); }
  if (prop == "C02") { both("sum_d", "sum_s", 2, SUM, 1); both("sum_z", "sum_c", 1, CSUM, 1); both("asum_d", "asum_s", 1, ASUM, 1); both("asum_z", "asum_c", 1, CASUM, 1); }
  if (prop == "C15") {
    both("sum_d", "sum_s", 1, SUM, 2); both("sum_z", "sum_c", 1, CSUM, 2); both("asum_d", "asum_s", 1, ASUM, 2); both("asum_z", "asum_c", 1, CASUM, 2);
    both("dot_d", "dot_s", 1, DOT, 2); both("dotu_z", "dotu_c", 1, DOTU, 2); both("dotc_z", "dotc_c", 1, DOTC, 2);
    e.tests.push_back({"nrm2_d", 1, [](Ctx &c) { special_norm<double>(c, false); }}); e.tests.push_back({"nrm2_s", 1, [](Ctx &c) { special_norm<float>(c, false); }});
    e.tests.push_back({"nrm2_z", 1, [](Ctx &c) { special_norm<double>(c, true); }}); e.tests.push_back({"nrm2_c", 1, [](Ctx &c) { special_norm<float>(c, true); }});
  }
  return engine_main(argc, argv, e);
}
