// Reference for scaled sums of squares.
#pragma once
#include "red.h"

template <class T> static T scale_ref(T x) {      // the documented scale: a power of two with exponent a multiple of W
  typedef Tr<T> R; int e; const int bias = R::EMAX - 1;
  if (x == 0) e = R::W; else { std::frexp(x, &e); e = e - 1 + bias; if (e < R::W) e = R::W; }
  int k = (e - bias) / R::W;                      // towards zero
  return (T)std::ldexp(1.0, k * R::W);
}
// squares below the smallest normal number are rounded before they are sliced; they start at this bin
template <class T> static int lowbin() { return idx_of<T>((T)std::ldexp(1.0, Tr<T>::MINEXP - 1)); }
// model of a scaled sum of squares: the scale and a model accumulator at that scale
template <class T> struct Scaled {
  typedef Tr<T> R; T scale = 0; Model<T> m;
  explicit Scaled(int f) : m(f) {}
  void rescale(T to) {
    if (to == scale || to == 0 || scale == 0) { if (to > scale) scale = to; return; }
    int k = 2 * (int)std::lround(std::log2((double)to) - std::log2((double)scale)) / R::W;
    scale = to;
    if (m.empty) return;
    Model<T> n(m.fold); n.empty = false; n.idx = std::min((int)R::MAXIDX, m.idx + k);
    for (int v = m.idx; v < m.idx + m.fold && v <= R::MAXIDX; v++) if (v + k <= R::MAXIDX) n.s[v + k] = m.s[v];
    m = n;
  }
  void merge(Scaled o) { T s = std::max(scale, o.scale); rescale(s); o.rescale(s); m.merge(o.m); }
  void value(Big &b) const { m.value(b); if (scale != 0) { int e = 2 * (int)std::lround(std::log2((double)scale)); if (b.neg()) { b.negate(); b.shift(e); b.negate(); } else b.shift(e); } }
};

// Tolerant comparison for the last bin (squares that underflow are rounded before they are sliced).
template <class T> static std::string check_ssq(const Acc<T> &a, const Model<T> &m, int k, i128 slack) {
  typedef Tr<T> R;
  std::string e = a.check(m, k);
  if (e.empty()) return e;
  if (m.empty) {      // a rescaled empty accumulator may hold the zero window
    Model<T> z(m.fold); z.empty = false; return a.check(z, k).empty() ? "" : e;
  }
  if (m.idx + m.fold <= lowbin<T>() || !slack) return e;
  Model<T> mm = m;
  for (int i = std::max(0, lowbin<T>() - m.idx); i < m.fold; i++) {
    double n = std::ldexp((double)a.pri[i * a.ip * a.w + k] - (double)m.Mval(m.idx + i), -m.pulp(m.idx + i));
    i128 tot = (i128)(int64_t)a.car[i * a.ic * a.w + k] * ((i128)1 << (R::P - 3)) + (i128)(int64_t)n, d = tot - m.s[m.idx + i];
    i128 sl = m.idx + i > lowbin<T>() ? slack << (R::W + 1) : slack;
    if (d > sl || d < -sl) return e;
    mm.s[m.idx + i] = tot;
  }
  return a.check(mm, k);
}

