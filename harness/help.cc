// C06: amax, amaxm. C11: index, bins, scale, ufp, denormal test.
#include "red.h"

template <class T> static void amax(Ctx &c, bool prod, bool cx) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int w = cx ? 2 : 1; int n = c.chance(1, 2) ? (int)c.draw(70) : draw_n(c, 6000);
  std::vector<T> x = draw_data<T>(c, (size_t)n * w), y; if (prod) y = draw_data<T>(c, (size_t)n * w);
  if (n && c.chance(1, 400)) {    // a long vector: the drawn one over and over
    int lg = 13 + (int)c.weighted({12, 8, 4, 4, 2, 1, 1}), m = (1 << lg) + (int)c.draw(1 << lg); c.label("N > 8192");
    x.resize((size_t)m * w); for (size_t i = (size_t)n * w; i < x.size(); i++) x[i] = x[i - (size_t)n * w];
    if (prod) { y.resize((size_t)m * w); for (size_t i = (size_t)n * w; i < y.size(); i++) y[i] = y[i - (size_t)n * w]; }
    n = m;
  }
  if (n && c.chance(1, 3)) {      // one element above all others, anywhere
    std::vector<T> *v = prod && c.chance(1, 2) ? &y : &x; double mx = 0; for (T t : *v) mx = std::max(mx, std::fabs((double)t));
    size_t at = c.draw(v->size() - 1); double z = mx * 2; if (!(z <= (double)R::big())) z = R::big(); if (c.chance(1, 8)) z = INFINITY; (*v)[at] = c.chance(1, 2) ? (T)-z : (T)z; c.label("single maximum");
  }
  Vec<T> X, Y; X.make(c, n, w, draw_inc(c)); X.load(x); if (prod) { Y.make(c, n, w, draw_inc(c)); Y.load(y); }
  T want[2] = {0, 0}, got[2] = {-1, -1};
  auto up = [&](int k, T v) { v = std::fabs(v); if (v > want[k]) want[k] = v; };
  for (int i = 0; i < n; i++) {
    volatile T p;
    if (!prod) for (int k = 0; k < w; k++) up(k, x[i * w + k]);
    else if (!cx) { p = x[i] * y[i]; if (std::isnan(p)) return; up(0, p); }
    else for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { p = x[2 * i + a] * y[2 * i + b]; if (std::isnan(p)) return; up(a ^ b, p); }
  }
  if (!prod) { if (cx) f.camax(n, X.p, X.inc, got); else got[0] = f.amax(n, X.p, X.inc); }
  else { if (cx) f.camaxm(n, X.p, X.inc, Y.p, Y.inc, got); else got[0] = f.amaxm(n, X.p, X.inc, Y.p, Y.inc); }
  NOTE("%s%s<%s> N %d strides %d %d x=%s y=%s -> %a %a", prod ? "amaxm" : "amax", cx ? " complex" : "", R::nm(), n, X.inc, Y.inc, show(x, 80).c_str(), show(y, 80).c_str(), (double)got[0], (double)got[1]);
  for (int k = 0; k < w; k++) if (!(got[k] == want[k])) FAIL("N %d strides %d %d component %d: %a, exact maximum %a", n, X.inc, Y.inc, k, (double)got[k], (double)want[k]);
  X.unchanged("X"); if (prod) Y.unchanged("Y");
  std::set<double> d; for (size_t i = 0; i < x.size() && i < 20000; i++) d.insert(std::fabs((double)x[i])); if (n >= 2 && d.size() >= 2) c.nontrivial();
  if (n > 0 && n < 70) c.label("N < 70");
}

template <class T> static T any_finite(Ctx &c) {
  typedef Tr<T> R; typedef typename R::U U;
  if (c.chance(1, 3)) {                  // any bit pattern
    U u = (U)c.draw((uint64_t)(U)~(U)0); T t; memcpy(&t, &u, sizeof t); if (std::isfinite(t)) return t;
  }
  // every exponent, mantissa corners
  int e = (int)c.range(R::EMIN + 1, R::EMAX); int k = (int)c.draw(4); double m = k == 0 ? 0.5 : k == 1 ? 1 - std::ldexp(1.0, -R::P) : k == 2 ? 0.75 : k == 3 ? 0.5 + std::ldexp(1.0, -R::P) : 0.5 + (double)c.draw(1 << 20) / (1 << 21);
  T t = (T)std::ldexp(m, e); if (!std::isfinite(t)) t = R::big(); return c.chance(1, 2) ? -t : t;
}
template <class T> static void index_of(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); T x = c.chance(1, 50) ? (c.chance(1, 2) ? (T)0 : -(T)0) : any_finite<T>(c);
  int got = f.index(x), want = idx_of(x); NOTE("index<%s>(%a) = %d", R::nm(), (double)x, got);
  if (got != want) FAIL("index of %a is %d; the bin with its leading bit is %d", (double)x, got, want);
  // definition by ranges: |x| < 2^(EMAX - W i), and not also below the next bin
  if (x != 0) { if (!(std::fabs((double)x) < std::ldexp(1.0, R::EMAX - R::W * got)) && R::EMAX - R::W * got < 1024) FAIL("%a does not fit bin %d", (double)x, got); if (got < R::MAXIDX && std::fabs((double)x) < std::ldexp(1.0, R::EMAX - R::W * (got + 1))) FAIL("%a fits the bin after %d", (double)x, got); c.nontrivial(); }
  T y = any_finite<T>(c); if (std::fabs(y) <= std::fabs(x) && f.index(y) < got) FAIL("index is not monotone: %a has %d, %a has %d", (double)x, got, (double)y, f.index(y));
  // ufp
  T u = f.ufp(x); 
  if (x == 0) { if (u != 0) FAIL("ufp of zero is %a", (double)u); }
  else if (std::fpclassify(x) == FP_NORMAL) { int e; std::frexp(x, &e); T w = (T)std::ldexp(0.5, e); if (u != w) FAIL("ufp of %a is %a", (double)x, (double)u); }
  else { int e; std::frexp(x, &e); if (!(u == 0 || u == (T)std::ldexp(0.5, e))) FAIL("ufp of subnormal %a is %a", (double)x, (double)u); c.label("subnormal"); }
}
template <class T> static void bins(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int i = (int)c.draw(R::MAXIDX + R::MAXFOLD - 1); const T *b = f.bins(i);
  NOTE("bins<%s>(%d)[0] = %a", R::nm(), i, (double)b[0]);
  int last = std::min(R::MAXFOLD, R::MAXIDX + R::MAXFOLD - i);
  for (int j = 0; j < last; j++) {
    T want = Model<T>::Mval(i + j); if (b[j] != want) FAIL("bins(%d)[%d] is %a, expected %a", i, j, (double)b[j], (double)want);
    int mi = f.mindex(&b[j]), wi = std::min(i + j, (int)R::MAXIDX); if (mi != wi) FAIL("bin value %a of index %d has index %d", (double)b[j], wi, mi);
    if ((f.mindex0(&b[j]) != 0) != (wi == 0)) FAIL("index-0 test of bin %d says %d", wi, f.mindex0(&b[j]));
  }
  // anything an accumulator of that bin can hold has that index
  int v = std::min(i, (int)R::MAXIDX); double n = (double)(int64_t)c.draw(((uint64_t)1 << (R::P - 1)) - 2) - (std::ldexp(1.0, R::P - 2) - 1);
  T p = (T)((double)Model<T>::Mval(v) + std::ldexp(n, Model<T>::pulp(v)));
  NOTE("primary %a in bin %d", (double)p, v);
  if (f.mindex(&p) != v) FAIL("primary %a of bin %d has index %d", (double)p, v, f.mindex(&p));
  if ((f.mindex0(&p) != 0) != (v == 0)) FAIL("primary %a of bin %d: index-0 test says %d", (double)p, v, f.mindex0(&p));
  // the bin of a number deposited into an empty accumulator is the number's index
  int fold = draw_fold<T>(c); T x = any_finite<T>(c); Acc<T> a; draw_acc(c, a, fold, 1);
  f.mupdate(fold, x, a.pri, a.ip, a.car, a.ic); if (f.mindex(a.pri) != f.index(x)) FAIL("updated with %a the accumulator has index %d", (double)x, f.mindex(a.pri));
  for (int j = 0; j < fold; j++) if (a.pri[j * a.ip] != f.bins(f.index(x))[j] || a.car[j * a.ic] != 0) FAIL("updated empty accumulator differs from the bin values at %d", j);
  c.nontrivial();
}
template <class T> static void denorm(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int v[2], d[2]; int fold = draw_fold<T>(c); T p[2];
  for (int k = 0; k < 2; k++) {
    v[k] = (int)c.draw(R::MAXIDX); double n = c.chance(1, 2) ? 0 : (double)(int64_t)c.draw(((uint64_t)1 << (R::P - 1)) - 2) - (std::ldexp(1.0, R::P - 2) - 1);
    p[k] = (T)((double)Model<T>::Mval(v[k]) + std::ldexp(n, Model<T>::pulp(v[k]))); d[k] = f.mdenorm(fold, &p[k]) != 0;
    // unit of the lowest bin, were the bins to go on
    int unit = R::EMAX - R::W + 1 - R::W * (v[k] + fold - 1);
    NOTE("denorm<%s>(fold %d, primary %a of bin %d) = %d, lowest unit 2^%d", R::nm(), fold, (double)p[k], v[k], d[k], unit);
    if (unit < R::MINEXP - 1 && !d[k]) FAIL("accumulator of bin %d fold %d has denormal bits (unit 2^%d) but the test says no", v[k], fold, unit);
    if (unit >= R::MINEXP - 1 + R::P + 2 * R::W && d[k]) FAIL("accumulator of bin %d fold %d is far from denormal (unit 2^%d) but the test says yes", v[k], fold, unit);
  }
  int cd = f.cmdenorm(fold, p) != 0; if (cd != (d[0] || d[1])) FAIL("complex test %d, parts %d %d", cd, d[0], d[1]);
  T q = Model<T>::Mval(std::min(v[0] + 1, (int)R::MAXIDX)); if (d[0] && !f.mdenorm(fold, &q) && v[0] < R::MAXIDX) FAIL("denormal at bin %d but not at %d", v[0], v[0] + 1);
  if (d[0] && fold < R::MAXFOLD && !f.mdenorm(fold + 1, &p[0])) FAIL("denormal at fold %d but not at %d", fold, fold + 1);
  c.nontrivial(); if (d[0] != d[1]) c.label("differs between the parts");
}
template <class T> static void scale(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); T x = any_finite<T>(c); if (c.chance(1, 60)) x = 0; T s = f.scale(x); NOTE("scale<%s>(%a) = %a", R::nm(), (double)x, (double)s);
  int e; double m = std::frexp((double)s, &e); e--;
  if (!(s > 0) || !std::isfinite(s) || m != 0.5) FAIL("scale of %a is %a, not a power of two", (double)x, (double)s);
  if (e % R::W) FAIL("scale of %a is 2^%d, not a power of 2^%d", (double)x, e, R::W);
  if (std::fpclassify(s) != FP_NORMAL) FAIL("scale of %a is the subnormal %a", (double)x, (double)s);
  int ex; std::frexp((double)x, &ex); ex--;   // 2^ex <= |x|
  if (x != 0 && ex >= e + R::W + 2) FAIL("|%a| >= scale 2^%d * 2^%d", (double)x, e, R::W + 2);
  if (x != 0 && std::fpclassify(x) == FP_NORMAL && std::fabs((double)x) <= std::ldexp(1.0, std::max(e - R::P - R::W - 1, -1074)) && e - R::P - R::W - 1 >= -1074) FAIL("|%a| <= scale 2^%d * 2^%d", (double)x, e, -R::P - R::W - 1);
  if (f.scale(-x) != s) FAIL("scale depends on the sign of %a", (double)x);
  T y = any_finite<T>(c); if (std::fabs(y) <= std::fabs(x) && f.scale(y) > s) FAIL("scale is not monotone: %a has %a, %a has %a", (double)x, (double)s, (double)y, (double)f.scale(y));
  if (f.scale(s) != s) FAIL("scale of the scale %a is %a", (double)s, (double)f.scale(s));
  if (x != 0) c.nontrivial();
}
int main(int argc, char **argv) {
  Engine e; std::string prop;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
#define PAIR(name, fn, wt) e.tests.push_back({name "_d", wt, [](Ctx &c) { fn<double>(c); }}); e.tests.push_back({name "_s", wt, [](Ctx &c) { fn<float>(c); }});
  if (prop == "C06") {
    e.tests.push_back({"amax_d", 1, [](Ctx &c) { amax<double>(c, false, false); }}); e.tests.push_back({"amax_s", 1, [](Ctx &c) { amax<float>(c, false, false); }});
    e.tests.push_back({"amax_z", 1, [](Ctx &c) { amax<double>(c, false, true); }}); e.tests.push_back({"amax_c", 1, [](Ctx &c) { amax<float>(c, false, true); }});
    e.tests.push_back({"amaxm_d", 1, [](Ctx &c) { amax<double>(c, true, false); }}); e.tests.push_back({"amaxm_s", 1, [](Ctx &c) { amax<float>(c, true, false); }});
    e.tests.push_back({"amaxm_z", 1, [](Ctx &c) { amax<double>(c, true, true); }}); e.tests.push_back({"amaxm_c", 1, [](Ctx &c) { amax<float>(c, true, true); }});
  }
  if (prop == "C11") { PAIR("index", index_of, 3) PAIR("bins", bins, 2) PAIR("denorm", denorm, 2) PAIR("scale", scale, 3) }
  return engine_main(argc, argv, e);
}
