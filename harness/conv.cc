// C09: conversion between floating point and binned accumulators. C10: error bound functions. C30: printing.
#include "state.h"

template <class T> static void states(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int fold = draw_fold<T>(c); int w = c.chance(1, 3) ? 2 : 1;
  std::vector<Model<T>> m; for (int k = 0; k < w; k++) m.push_back(draw_state<T>(c, fold));
  if (w == 2 && c.chance(1, 6)) m[c.draw(1)].setzero();
  Acc<T> a; draw_acc(c, a, fold, w); for (int k = 0; k < w; k++) a.load(m[k], k);
  std::vector<T> before = a.dump(); T r[2] = {0, 0};
  bool man = !a.packed || c.chance(1, 3);
  if (w == 1) r[0] = man ? f.rmconv(fold, a.pri, a.ip, a.car, a.ic) : f.rbconv(fold, a.pri);
  else if (man) f.ccmconv(fold, a.pri, a.ip, a.car, a.ic, r); else f.ccbconv(fold, a.pri, r);
  if (c.verbose) for (int k = 0; k < w; k++) { Big b; m[k].value(b); std::string t; for (int i = 0; i < fold && i < 6; i++) t += sfmt(" %.21Lg", (long double)m[k].s[m[k].idx + i]); NOTE("%s fold %d index %d bins%s: exact %s, converted %a", R::nm(), fold, m[k].idx, t.c_str(), b.str().c_str(), (double)r[k]); }
  if (memcmp(before.data(), a.dump().data(), before.size() * sizeof(T))) FAIL("conversion modified the accumulator");
  for (int k = 0; k < w; k++) {
    Big b; m[k].value(b); std::string e = conv_ok<T>(r[k], b); if (!e.empty()) FAIL("component %d index %d: %s", k, m[k].idx, e.c_str());
    if (b.zero() && r[k] != 0) FAIL("accumulator of value zero converts to %a", (double)r[k]);
    if (std::isinf(r[k])) c.label("out of range");
    // the same component through the real conversion
    T q = f.rmconv(fold, a.pri + k, a.ip * w, a.car + k, a.ic * w); if (!same_bits(q, r[k])) FAIL("component %d converts to %a alone and to %a in its complex accumulator", k, (double)q, (double)r[k]);
    int nz = 0; for (auto x : m[k].s) nz += x != 0; if (nz >= 2) c.nontrivial();
    // a negated value converts to the negated number (accumulators are symmetric)
    Model<T> n = m[k]; n.negate(); Acc<T> an; an.make(c, fold, 1); an.load(n); T z = f.rbconv(fold, an.pri); Big nb; n.value(nb); e = conv_ok<T>(z, nb); if (!e.empty()) FAIL("negated accumulator: %s", e.c_str());
  }
}
template <class T> static void roundtrip(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int fold = draw_fold<T>(c); int w = c.chance(1, 3) ? 2 : 1; T x[2], r[2] = {0, 0};
  for (int k = 0; k < w; k++) { Profile<T> p; p.draw(c); Source so{&c, true, Rng()}; x[k] = p.elem(so, 0); if (c.chance(1, 12)) x[k] = c.chance(1, 3) ? (T)NAN : c.chance(1, 2) ? (T)INFINITY : (T)-INFINITY; }
  Acc<T> a; draw_acc(c, a, fold, w); bool man = !a.packed || c.chance(1, 3);
  // dirty memory: the conversion must not depend on it
  for (int i = 0; i < fold; i++) for (int k = 0; k < w; k++) { a.pri[i * a.ip * w + k] = (T)c.draw(3); a.car[i * a.ic * w + k] = (T)c.draw(3); }
  NOTE("%s fold %d x %a %a", R::nm(), fold, (double)x[0], (double)x[1]);
  if (w == 1) { if (man) f.mconv(fold, x[0], a.pri, a.ip, a.car, a.ic); else f.bconv(fold, x[0], a.pri); r[0] = man ? f.rmconv(fold, a.pri, a.ip, a.car, a.ic) : f.rbconv(fold, a.pri); }
  else { if (man) f.cmconv(fold, x, a.pri, a.ip, a.car, a.ic); else f.cbconv(fold, x, a.pri); if (man) f.ccmconv(fold, a.pri, a.ip, a.car, a.ic, r); else f.ccbconv(fold, a.pri, r); }
  for (int k = 0; k < w; k++) {
    Model<T> m(fold); m.add(x[k]); std::string e = a.check(m, k); if (!e.empty()) FAIL("component %d: %s", k, e.c_str());
    if (std::isnan(x[k])) { if (!std::isnan(r[k])) FAIL("NaN converted to %a", (double)r[k]); continue; }
    if (std::isinf(x[k])) { if (r[k] != x[k]) FAIL("%a converted to %a", (double)x[k], (double)r[k]); continue; }
    Big d((double)r[k]); d.add(-(double)x[k]); d = d.abs();
    Big tol;
    if (fold == 2) { tol.add(std::fabs((double)x[k])); tol.shr(R::W); }
    tol.addi(1, ulpexp<T>(R::MAXIDX) - 1);
    double unit = std::ldexp(1.0, ulpexp<T>(R::MAXIDX));
    double q = std::ldexp((double)x[k], -std::max(ulpexp<T>(R::MAXIDX), -1000)); // multiple of the lowest unit?
    bool mult = ulpexp<T>(R::MAXIDX) >= -1000 ? q == std::floor(q) : std::fabs(x[k]) >= std::ldexp(1.0, ulpexp<T>(R::MAXIDX) + R::P) || std::fmod((double)x[k], std::ldexp(1.0, ulpexp<T>(R::MAXIDX))) == 0;
    if (fold >= 3 && mult) { if (r[k] != x[k]) FAIL("%a converted to binned and back is %a", (double)x[k], (double)r[k]); }
    else if (tol < d) FAIL("%a converted to binned and back is %a (fold %d)", (double)x[k], (double)r[k], fold);
    if (x[k] != 0) c.nontrivial();
  }
  std::string g = a.gaps(); if (!a.packed && !g.empty()) FAIL("%s", g.c_str());
}

// C10
template <class T> static Big as_big(T x) { Big b; b.add((double)x); return b; }
template <class T> static void bound_dominates(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int fold = draw_fold<T>(c); int n = draw_n(c, 3000); bool cx = c.chance(1, 4);
  std::vector<T> x = draw_data<T>(c, n);
  // data that really loses bits: small tails under one large element
  if (n > 1 && c.chance(1, 3)) { int v = (int)c.range(0, R::MAXIDX); int e = R::EMAX - R::W * v; for (auto &t : x) { int u = R::EMAX - R::W * (v + fold) ; double z = std::ldexp(0.5 + 0.5 * (double)c.draw(1), std::max(std::min(u, e), (int)R::EMIN + 1)); t = (T)z; } x[c.draw(n - 1)] = (T)std::ldexp(0.5, std::max(std::min(R::EMAX, e - R::W + 1), (int)R::EMIN + 1)); c.label("tails lost below the window"); }
  Vec<T> X; X.make(c, n, 1, draw_inc(c)); X.load(x);
  T S = f.rsum(fold, n, X.p, X.inc), mx = f.amax(n, X.p, X.inc);
  T b = f.bound(fold, n, mx, S);
  Big ex; for (T t : x) ex.add((double)t);
  NOTE("%s fold %d x=%s S=%a bound=%a exact %s", R::nm(), fold, show(x).c_str(), (double)S, (double)b, ex.str().c_str());
  if (!std::isfinite(S)) { c.label("sum out of range"); return; }
  if (std::isnan(b) || b < 0) FAIL("bound is %a", (double)b);
  if (std::isfinite(b)) { Big d((double)S); d -= ex; if (as_big(b) < d.abs()) FAIL("%s fold %d N %d max %a: sum %a is off by %s but the bound is %a", R::nm(), fold, n, (double)mx, (double)S, d.str().c_str(), (double)b); if (!d.zero()) { c.nontrivial(); c.label("inexact sum"); } }
}
template <class T> static T draw_mag(Ctx &c) { Profile<T> p; p.draw(c); Source so{&c, true, Rng()}; return p.elem(so, 0); }
template <class T> static void bound_formula(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int fold = draw_fold<T>(c); int n = c.chance(1, 3) ? (int)c.draw(INT32_MAX) : draw_n(c); T x = draw_mag<T>(c), s = draw_mag<T>(c);
  T b = f.bound(fold, n, x, s); NOTE("%s fold %d N %d X %a S %a: %a", R::nm(), fold, n, (double)x, (double)s, (double)b);
  if (std::isnan(b) || b < 0) FAIL("bound is %a", (double)b);
  // exact: N |X| 2^(W(1-fold)) + 7 E |S| with E = 2^-P at least, with 2 E / (1 - 6 sqrt(2E) - 14E) and the quantum of the lowest bin at most
  Big lo; { int64_t m; int e; if (x != 0) { Big::split(std::fabs((double)x), m, e); int be = e + R::W * (1 - fold); if (be > -2200) lo.addi((i128)m * n, be); } }
  Big up = lo; up.addi(n, ulpexp<T>(R::MAXIDX) - 1);
  Big t = as_big((T)std::fabs(s)); t.mulu(7); t.shr(R::P); lo += t; t.shl(1); t.mulu(1024 + 5); t.shr(10); up += t;
  { Big q = lo; q.shr(R::P - 3); lo -= q; q = up; q.shr(R::P - 3); up += q; up.addi(1, R::EMIN); Big e; e.addi((i128)n + 1, R::EMIN); lo -= e; }
  if (std::isinf(b)) { Big m; m.add((double)R::big()); if (up < m) FAIL("bound overflowed"); c.label("bound out of range"); return; }
  Big bb = as_big(b); if (bb < lo) FAIL("bound %a is below N 2^(W(1-fold)) max + 7 E |S| = %s", (double)b, lo.str().c_str());
  if (up < bb) FAIL("bound %a exceeds the formula's %s", (double)b, up.str().c_str());
  // monotone
  T x2 = draw_mag<T>(c); if (std::fabs(x2) < std::fabs(x)) std::swap(x, x2); int n2 = n; if (n < INT32_MAX) n2 = n + (int)c.draw(std::min<int64_t>(INT32_MAX - n, 1000));
  T b1 = f.bound(fold, n, x, s), b2 = f.bound(fold, n, x2, s), b3 = f.bound(fold, n2, x, s), b4 = f.bound(fold, n, -x, -s);
  if (b2 < b1) FAIL("bound decreases from %a to %a when |X| grows from %a to %a", (double)b1, (double)b2, (double)x, (double)x2);
  if (b3 < b1) FAIL("bound decreases when N grows from %d to %d", n, n2);
  if (!same_bits(b4, b1)) FAIL("bound depends on signs: %a and %a", (double)b1, (double)b4);
  if (n > 0 && x != 0 && s != 0) c.nontrivial();
}

// C30: what the print functions write
static std::string capture(const std::function<void()> &f) {
  fflush(stdout); int fd = memfd_create("print", 0), keep = dup(1); if (fd < 0 || keep < 0) throw HarnessError{"memfd"};
  dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
  std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s;
}
// a printed number shows v if it is v to the six digits %g gives
static bool shows(double printed, double v) {
  if (std::isnan(v)) return std::isnan(printed);
  if (v == 0 || std::isinf(v)) return printed == v;
  return std::fabs(printed - v) <= std::fabs(v) * 5.1e-6 + 5e-324;
}
template <class T> static void print(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); int fold = draw_fold<T>(c), w = c.chance(1, 2) ? 2 : 1; bool zero = false;
  Acc<T> a; if (w == 1) draw_acc(c, a, fold, w); else a.make(c, fold, w, true);
  for (int k = 0; k < w; k++) { Model<T> m = draw_state<T>(c, fold); int n = (int)c.draw(3); if (n == 0) for (auto &x : m.s) x = 0; a.load(m, k); }
  std::vector<T> before = a.dump(); bool man = !a.packed || c.chance(1, 3);
  std::string text = capture([&] {
    if (w == 1) { if (man) f.mprint(fold, a.pri, a.ip, a.car, a.ic); else f.bprint(fold, a.pri); } else f.cbprint(fold, a.pri); });
  NOTE("%s fold %d w %d printed:\n%s", R::nm(), fold, w, text.c_str());
  if (memcmp(before.data(), a.dump().data(), before.size() * sizeof(T))) FAIL("printing modified the accumulator");
  // all numbers in the text, in order: per part 2^exponent, offset, carry, value
  std::vector<double> v; std::vector<int> lines; int line = 0;
  for (const char *p = text.c_str(); *p;) {
    if (*p == '\n') { line++; p++; continue; }
    bool num = isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && (isdigit((unsigned char)p[1]) || p[1] == '.' || p[1] == 'i' || p[1] == 'n')) || !strncmp(p, "inf", 3) || !strncmp(p, "nan", 3);
    if (!num) { p++; continue; }
    char *e; v.push_back(strtod(p, &e)); lines.push_back(line); p = e;
  }
  if (line != fold) FAIL("%d lines for fold %d", line, fold);
  if ((int)v.size() != fold * w * 5) FAIL("%zu numbers printed for %d parts of fold %d", v.size(), w, fold);
  for (int i = 0, q = 0; i < fold; i++) for (int k = 0; k < w; k++, q += 5) {
    double pri = a.pri[i * a.ip * w + k], car = a.car[i * a.ic * w + k], M = std::ldexp(1.0, std::ilogb(pri)); 
    for (int t = 0; t < 5; t++) if (lines[q + t] != i) FAIL("bin %d is printed on line %d", i, lines[q + t]);
    double want[5] = {2, (double)std::ilogb(pri) + 1, pri - 1.5 * M, car, (car - 6) * 0.25 * M + pri};
    static const char *nm[5] = {"base", "exponent", "offset", "carry", "value"};
    for (int t = 0; t < 5; t++) if (!shows(v[q + t], want[t])) FAIL("bin %d part %d: the %s is printed as %.17g, the accumulator holds %.17g (primary %a carry %a)", i, k, nm[t], v[q + t], want[t], pri, car);
    if (pri != 1.5 * M) c.nontrivial();
  }
}

int main(int argc, char **argv) {
  Engine e; std::string prop;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
#define PAIR(name, fn, wt) e.tests.push_back({name "_d", wt, [](Ctx &c) { fn<double>(c); }}); e.tests.push_back({name "_s", wt, [](Ctx &c) { fn<float>(c); }});
  if (prop == "C09") { PAIR("states", states, 3) PAIR("roundtrip", roundtrip, 2) }
  if (prop == "C10") { PAIR("dominates", bound_dominates, 2) PAIR("formula", bound_formula, 1) }
  if (prop == "C30") { PAIR("print", print, 1) }
  return engine_main(argc, argv, e);
}
