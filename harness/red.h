// Reductions as multisets of rounded terms: one description used by several properties.
#pragma once
#include "gen.h"

enum Red { SUM, CSUM, ASUM, CASUM, DOT, DOTU, DOTC };
inline const char *redname(Red r) { static const char *n[] = {"sum", "csum", "asum", "casum", "dot", "dotu", "dotc"}; return n[r]; }
inline int red_w(Red r) { return r == CSUM || r == CASUM || r == DOTU || r == DOTC ? 2 : 1; }      // operand width
inline int red_rw(Red r) { return r == CSUM || r == DOTU || r == DOTC ? 2 : 1; }                   // result width
inline bool red_two(Red r) { return r >= DOT; }

template <class T> struct RedOp {
  Red r;
  // f(component, term) for every term of element i
  template <class F> void terms(const T *x, const T *y, F f) const {
    volatile T a, b;
    switch (r) {
      case SUM: f(0, x[0]); break;
      case CSUM: f(0, x[0]); f(1, x[1]); break;
      case ASUM: f(0, (T)std::fabs(x[0])); break;
      case CASUM: f(0, (T)std::fabs(x[0])); f(0, (T)std::fabs(x[1])); break;
      case DOT: a = x[0] * y[0]; f(0, a); break;
      case DOTU: a = x[0] * y[0]; b = x[1] * y[1]; f(0, a); f(0, -b); a = x[0] * y[1]; b = x[1] * y[0]; f(1, a); f(1, b); break;
      case DOTC: a = x[0] * y[0]; b = x[1] * y[1]; f(0, a); f(0, b); a = x[0] * y[1]; b = x[1] * y[0]; f(1, a); f(1, -b); break;
    }
  }
  void model(std::vector<Model<T>> &m, const std::vector<T> &x, const std::vector<T> &y) const {
    int w = red_w(r); size_t n = x.size() / w;
    // find the window first: slices below it need not be computed
    for (size_t i = 0; i < n; i++) terms(&x[i * w], y.empty() ? nullptr : &y[i * w], [&](int k, T t) { if (std::isfinite(t)) m[k].update(t); else m[k].deposit(t); });
    for (size_t i = 0; i < n; i++) terms(&x[i * w], y.empty() ? nullptr : &y[i * w], [&](int k, T t) { if (std::isfinite(t)) m[k].deposit(t); });
  }
  void bcall(Fam<T> &f, int fold, int n, const T *x, int ix, const T *y, int iy, T *a) const {
    switch (r) {
      case SUM: f.bsum(fold, n, x, ix, a); break;
      case CSUM: f.cbsum(fold, n, x, ix, a); break;
      case ASUM: f.basum(fold, n, x, ix, a); break;
      case CASUM: f.cbasum(fold, n, x, ix, a); break;
      case DOT: f.bdot(fold, n, x, ix, y, iy, a); break;
      case DOTU: f.cbdotu(fold, n, x, ix, y, iy, a); break;
      case DOTC: f.cbdotc(fold, n, x, ix, y, iy, a); break;
    }
  }
  void mcall(Fam<T> &f, int fold, int n, const T *x, int ix, const T *y, int iy, T *p, int ip, T *q, int iq) const {
    switch (r) {
      case SUM: f.msum(fold, n, x, ix, p, ip, q, iq); break;
      case CSUM: f.cmsum(fold, n, x, ix, p, ip, q, iq); break;
      case ASUM: f.masum(fold, n, x, ix, p, ip, q, iq); break;
      case CASUM: f.cmasum(fold, n, x, ix, p, ip, q, iq); break;
      case DOT: f.mdot(fold, n, x, ix, y, iy, p, ip, q, iq); break;
      case DOTU: f.cmdotu(fold, n, x, ix, y, iy, p, ip, q, iq); break;
      case DOTC: f.cmdotc(fold, n, x, ix, y, iy, p, ip, q, iq); break;
    }
  }
  void rcall(Fam<T> &f, int fold, int n, const T *x, int ix, const T *y, int iy, T *res) const {
    switch (r) {
      case SUM: res[0] = f.rsum(fold, n, x, ix); break;
      case CSUM: f.rcsum(fold, n, x, ix, res); break;
      case ASUM: res[0] = f.rasum(fold, n, x, ix); break;
      case CASUM: res[0] = f.rcasum(fold, n, x, ix); break;
      case DOT: res[0] = f.rdot(fold, n, x, ix, y, iy); break;
      case DOTU: f.rcdotu(fold, n, x, ix, y, iy, res); break;
      case DOTC: f.rcdotc(fold, n, x, ix, y, iy, res); break;
    }
  }
  void ecall(Fam<T> &f, int fold, const T *x, const T *y, Acc<T> &a) const {   // one element through the scalar entry points
    int rw = red_rw(r);
    if (r == CSUM) { T z[2] = {x[0], x[1]}; if (a.packed) f.cbadd(fold, z, a.pri); else f.cmadd(fold, z, a.pri, a.ip, a.car, a.ic); return; }
    terms(x, y, [&](int k, T t) {
      if (rw == 1) { if (a.packed) f.badd(fold, t, a.pri); else f.madd(fold, t, a.pri, a.ip, a.car, a.ic); }
      else f.madd(fold, t, a.pri + k, a.ip * 2, a.car + k, a.ic * 2);
    });
  }
  void acc(Fam<T> &f, Acc<T> &a, int n, const T *x, int ix, const T *y, int iy) const {
    if (a.packed) bcall(f, a.fold, n, x, ix, y, iy, a.pri); else mcall(f, a.fold, n, x, ix, y, iy, a.pri, a.ip, a.car, a.ic);
  }
  void merge(Fam<T> &f, const Acc<T> &x, Acc<T> &y) const {
    int rw = red_rw(r);
    if (x.packed && y.packed) { if (rw == 1) f.bbadd(x.fold, x.pri, y.pri); else f.cbbadd(x.fold, x.pri, y.pri); }
    else if (rw == 1) f.mmadd(x.fold, x.pri, x.ip, x.car, x.ic, y.pri, y.ip, y.car, y.ic);
    else f.cmmadd(x.fold, x.pri, x.ip, x.car, x.ic, y.pri, y.ip, y.car, y.ic);
  }
};

template <class T> inline void draw_acc(Ctx &c, Acc<T> &a, int fold, int w) {
  bool packed = !c.chance(1, 4);
  int ip = packed ? 1 : 1 + (int)c.draw(3), ic = packed ? 1 : 1 + (int)c.draw(3);
  a.make(c, fold, w, packed, ip, ic);
}

// exponent ranges for two operands whose products stay finite
template <class T> inline void draw_pair_range(Ctx &c, int &ex, int &ey) {
  typedef Tr<T> R;
  switch (c.weighted({4, 2, 2})) {
    case 0: ex = ey = R::EMAX / 2 - 1; break;
    case 1: ex = (int)c.range(2, R::EMAX - 4); ey = R::EMAX - 2 - ex; break;
    default: ex = R::EMAX - 4; ey = 2; if (c.chance(1, 2)) std::swap(ex, ey); break;
  }
}

template <class T> struct RedData { std::vector<T> x, y; int n; };
template <class T> inline RedData<T> draw_red(Ctx &c, Red r, int maxn = 14000) {
  RedData<T> d; d.n = draw_n(c, maxn); int w = red_w(r);
  if (!red_two(r)) { d.x = draw_data<T>(c, (size_t)d.n * w); return d; }
  typedef Tr<T> R; int ex, ey; draw_pair_range<T>(c, ex, ey);
  if (c.chance(1, 5)) {      // every product near the top of one bin, one sign: the accumulation limit
    int v = (int)c.range(0, R::MAXIDX - 4); int e = R::EMAX - R::W * v;      // product < 2^e
    int a = std::min(ex, std::max(e / 2, e - ey)); int b = std::min(e - a, ey);
    if (v == 0) { a = R::EMAX / 2; b = R::EMAX / 2; }
    Source s{&c, false, Rng(c.draw(0xffff))};
    d.x.resize((size_t)d.n * w); d.y.resize((size_t)d.n * w);
    int sg = (int)c.draw(3);
    T h = (T)(1 - std::ldexp(1.0, -R::P));
    for (auto &t : d.x) t = (T)std::ldexp((double)h - std::ldexp((double)s(3), -R::P), a);
    for (auto &t : d.y) t = (T)std::ldexp((double)h - std::ldexp((double)s(3), -R::P), b);
    if (w == 2) for (int i = 0; i < d.n; i++) { if (sg & 1) d.x[2 * i + 1] = -d.x[2 * i + 1]; if (sg & 2) d.y[2 * i] = -d.y[2 * i]; }
    c.label("products at the top of a bin");
    return d;
  }
  d.x = draw_data<T>(c, (size_t)d.n * w, Profile<T>::MINE, ex);
  d.y = draw_data<T>(c, (size_t)d.n * w, Profile<T>::MINE, ey);
  return d;
}
