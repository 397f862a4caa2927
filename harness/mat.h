// Matrix products: logical operands, drawn presentations (order, transposition, leading dimensions, strides), reference.
#pragma once
#include "red.h"

template <class T> struct Mat {      // rows x cols as stored
  int rows = 0, cols = 0, w = 1, ld = 1; bool rm = true; size_t cnt = 0; T *p = nullptr; std::vector<T> copy;
  void make(Ctx &c, int r, int co, int w_, bool rowmajor) {
    rows = r; cols = co; w = w_; rm = rowmajor; int in = rm ? cols : rows, out = rm ? rows : cols;
    if (Far::on()) {
      ld = Far::step(c, out, std::max(1, in), 1 << 30); cnt = 0; p = (T *)Far::reserve(((size_t)std::max(0, out - 1) * ld + in + 1) * w * sizeof(T)) + c.draw(7); copy.clear();
      for (int i = 0; i < out; i++) if (in) Far::open(p + (size_t)i * ld * w, (size_t)in * w * sizeof(T));
      return;
    }
    ld = std::max(1, in) + (c.chance(1, 2) ? 0 : (int)c.draw(5));
    cnt = in == 0 || out == 0 ? 0 : ((size_t)(out - 1) * ld + in) * w;
    p = (T *)Arena::get().alloc(cnt * sizeof(T), !c.chance(1, 4)); T z = poison<T>(); for (size_t i = 0; i < cnt; i++) p[i] = z;
  }
  size_t off(int i, int j) const { return (rm ? (size_t)i * ld + j : (size_t)j * ld + i) * w; }
  T &at(int i, int j, int k = 0) { return p[off(i, j) + k]; }
  void snap() { copy.assign(p, p + cnt); }
  void unchanged(const char *what) { for (size_t i = 0; i < cnt; i++) if (!same_bits(copy[i], p[i])) FAIL("%s was modified at number %zu: %a became %a", what, i, (double)copy[i], (double)p[i]); }
  // everything but the addressed elements
  void gaps(const char *what) {
    int in = rm ? cols : rows; T z = poison<T>();
    for (size_t i = 0; i < cnt; i++) if ((int)(i / w % ld) >= in && !same_bits(p[i], z)) FAIL("%s: gap at number %zu overwritten with %a", what, i, (double)p[i]);
  }
};

inline int near_edge(Ctx &c, std::initializer_list<int> e) { std::vector<int> v(e); int b = c.pick(v); return std::max(0, b + (int)c.draw(6) - 3); }

// R x C result, inner dimension K
struct Shape { int R, C, K; };
inline Shape draw_shape(Ctx &c, bool mm, int w) {
  Shape s;
  if (!mm) {
    s.C = 1;
    switch (c.weighted({32, 32, 12, 12, 8, 1})) {
      case 0: s.R = (int)c.draw(6); s.K = (int)c.draw(6); break;
      case 1: s.R = (int)c.draw(40); s.K = (int)c.draw(40); break;
      case 2: s.R = 1 + (int)c.draw(3); s.K = near_edge(c, {64, 128, 256, 512, 1024, 2048, 4096, 8192}); break;
      case 3: s.R = near_edge(c, {32, 64, 128, 256, 512}); s.K = 1 + (int)c.draw(5); break;
      case 4: s.R = near_edge(c, {64, 128, 256}); s.K = near_edge(c, {64, 128, 256}); break;
      default: s.R = near_edge(c, {2, 4, 8, 16}); s.K = near_edge(c, {2048, 4096, 8192}); c.label("several blocks in both dimensions"); break;
    }
  } else {
    switch (c.weighted({320, 240, 120, 120, 120, 30, 15, 1})) {
      case 0: s.R = (int)c.draw(5); s.C = (int)c.draw(5); s.K = (int)c.draw(5); break;
      case 1: s.R = (int)c.draw(20); s.C = (int)c.draw(20); s.K = (int)c.draw(20); break;
      case 2: s.R = 1 + (int)c.draw(2); s.C = 1 + (int)c.draw(2); s.K = near_edge(c, {256, 512, 1024, 2048}); break;
      case 3: s.R = near_edge(c, {32, 64, 128}); s.C = 1 + (int)c.draw(4); s.K = 1 + (int)c.draw(6); break;
      case 4: s.R = 1 + (int)c.draw(4); s.C = near_edge(c, {32, 64, 128}); s.K = 1 + (int)c.draw(6); break;
      case 5: s.R = near_edge(c, {32, 64}); s.C = near_edge(c, {32, 64}); s.K = 1 + (int)c.draw(3); c.label("several blocks in two dimensions"); break;
      case 6: s.R = near_edge(c, {32, 64, 128}); s.C = 1 + (int)c.draw(2); if (c.chance(1, 2)) std::swap(s.R, s.C); s.K = near_edge(c, {256, 512, 1024}); c.label("several blocks in two dimensions"); break;
      default: s.R = near_edge(c, {32, 64}); s.C = near_edge(c, {32, 64}); s.K = near_edge(c, {256, 512, 1024}); c.label("several blocks in three dimensions"); break;
    }
  }
  return s;
}

template <class T> struct MatCase {
  typedef Tr<T> R_;
  bool mm; int w, fold; Shape s; T alpha[2], beta[2];
  std::vector<T> A, B, Y;       // logical op(A): R x K, op(B) (or x): K x C, result in: R x C; all with w parts
  bool tame;                    // data in a narrow range, for accuracy
  static T scalar(Ctx &c, int emax) {
    switch (c.weighted({3, 4, 2, 3, 3})) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: { static const double v[] = {2, 0.5, -3, 0.1, 1.25, -0.75}; return (T)v[c.draw(5)]; }
      default: { Profile<T> p; p.draw(c, -emax, emax); p.zero = 0; Source so{&c, true, Rng()}; return p.elem(so, 0, -emax, emax); } }
  }
  static void scal2(Ctx &c, int w, int emax, T *z) {
    z[0] = scalar(c, emax); z[1] = 0;
    if (w == 2 && !c.chance(1, 3)) z[1] = scalar(c, emax);
  }
  void draw(Ctx &c, bool mm_, int w_, bool tame_ = false, bool special = true) {
    mm = mm_; w = w_; tame = tame_; fold = tame ? 2 + (int)c.draw(3) : draw_fold<T>(c); s = draw_shape(c, mm, w);
    if ((size_t)s.R * s.C * s.K > 3000 && fold > 8) fold = 2 + fold % 7;
    int ea = tame ? 4 : c.chance(1, 4) ? R_::EMAX / 6 : 4; scal2(c, w, ea, alpha); scal2(c, w, ea, beta);
    int ex, ey; if (tame) ex = ey = 20; else draw_pair_range<T>(c, ex, ey);
    int lo = tame ? -12 : Profile<T>::MINE, top = tame ? 20 : R_::EMAX;
    ex = std::max(lo + 1, ex); ey = std::max(lo + 1, ey);
    int &sc = mm ? ex : ey; if (!tame) sc = std::max(lo + 1, sc - ea - 2);
    A = draw_data<T>(c, (size_t)s.R * s.K * w, lo, ex); B = draw_data<T>(c, (size_t)s.K * s.C * w, lo, ey); Y = draw_data<T>(c, (size_t)s.R * s.C * w, lo, tame ? top : top - ea - 3);
    if (special && c.chance(1, 14)) for (int k = 1 + (int)c.draw(2); k > 0; k--) {
      auto &v = c.draw(2) == 0 ? A : c.draw(1) ? B : Y; if (!v.empty()) { static const double q[] = {INFINITY, -INFINITY, NAN}; v[c.draw(v.size() - 1)] = (T)q[c.draw(2)]; c.label("special value"); }
    }
  }
  bool alpha0() const { return alpha[0] == 0 && alpha[1] == 0; }
  bool alpha1() const { return alpha[0] == 1 && alpha[1] == 0; }
  bool beta0() const { return beta[0] == 0 && beta[1] == 0; }
  bool beta1() const { return beta[0] == 1 && beta[1] == 0; }
  static void mul(int w, const T *s, const T *x, T *r) {
    if (w == 1) { r[0] = s[0] * x[0]; return; }
    volatile T a = x[0] * s[0], b = x[1] * s[1], d = x[0] * s[1], e = x[1] * s[0]; r[0] = a - b; r[1] = d + e;
  }
  void scaled(std::vector<T> &P, std::vector<T> &Q) const {
    P = A; Q = B; if (alpha1() || alpha0()) return;
    auto &v = mm ? P : Q; for (size_t i = 0; i < v.size(); i += w) { T r[2]; mul(w, alpha, &v[i], r); for (int k = 0; k < w; k++) v[i + k] = r[k]; }
  }
  // rounded terms of entry (i, j): real, or complex pairs
  void terms(const std::vector<T> &P, const std::vector<T> &Q, int i, int j, std::vector<T> &t) const {
    t.clear(); if (alpha0()) return;
    for (int k = 0; k < s.K; k++) {
      const T *a = &P[((size_t)i * s.K + k) * w], *b = &Q[((size_t)k * s.C + j) * w];
      if (w == 1) t.push_back(a[0] * b[0]);
      else { t.push_back(a[0] * b[0]); t.push_back(a[0] * b[1]); T q = a[1] * b[1]; t.push_back(-q); t.push_back(a[1] * b[0]); }
    }
  }
  bool noop() const { return s.R == 0 || s.C == 0 || (!mm && s.K == 0); }
  std::string str() const {
    return sfmt("%s fold %d, %d x %d result, inner %d, alpha (%a,%a) beta (%a,%a)\n op(A)=%s\n op(B)=%s\n y=%s", mm ? "gemm" : "gemv", fold, s.R, s.C, s.K, (double)alpha[0], (double)alpha[1], (double)beta[0], (double)beta[1],
                show(A).c_str(), show(B).c_str(), show(Y).c_str());
  }
};

// one presentation of a case
template <class T> struct Present {
  const MatCase<T> *m; bool rm; char order, ta, tb; Mat<T> A, B, C; Vec<T> X, Y; int bytes;
  static char letter(Ctx &c, int t) { static const char l[] = "nNtTcC"; return l[2 * t + (int)c.draw(1)]; }
  static void fill(Mat<T> &M, const std::vector<T> &v, int rows, int cols, int w, int t) {      // op(M) = v
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) for (int k = 0; k < w; k++) {
      T x = v[((size_t)i * cols + j) * w + k]; if (t == 2 && k == 1) x = -x;
      if (t == 0) M.at(i, j, k) = x; else M.at(j, i, k) = x;
    }
    M.snap();
  }
  void make(Ctx &c, const MatCase<T> &mc) {
    m = &mc; const Shape &s = mc.s; rm = c.draw(1) == 0; order = rm ? (c.draw(1) ? 'R' : 'r') : (c.draw(1) ? 'C' : 'c');
    int t = (int)c.draw(2), u = mc.mm ? (int)c.draw(2) : 0; ta = letter(c, t); tb = letter(c, u);
    A.make(c, t ? s.K : s.R, t ? s.R : s.K, mc.w, rm); fill(A, mc.A, s.R, s.K, mc.w, t);
    if (mc.mm) { B.make(c, u ? s.C : s.K, u ? s.K : s.C, mc.w, rm); fill(B, mc.B, s.K, s.C, mc.w, u); }
    else { X.make(c, s.K, mc.w, draw_inc(c)); X.load(mc.B); }
  }
  std::string str() const { return m->mm ? sfmt("order %c transA %c transB %c lda %d ldb %d", order, ta, tb, A.ld, B.ld) : sfmt("order %c transA %c lda %d incX %d", order, ta, A.ld, X.inc); }
  void inputs() { A.unchanged("A"); if (m->mm) B.unchanged("B"); else X.unchanged("X"); }
  // the reproBLAS entry point (deflt: the default-fold one); result in out
  void repro(Ctx &c, Fam<T> &f, std::vector<T> &out, bool deflt = false) {
    const Shape &s = m->s; int w = m->w; bool tr = ta != 'n' && ta != 'N'; int M = tr ? s.K : s.R, N = tr ? s.R : s.K;
    if (m->mm) {
      C.make(c, s.R, s.C, w, rm);
      for (int i = 0; i < s.R; i++) for (int j = 0; j < s.C; j++) for (int k = 0; k < w; k++) C.at(i, j, k) = m->Y[((size_t)i * s.C + j) * w + k];
      if (deflt) { if (w == 1) f.gemm(order, ta, tb, s.R, s.C, s.K, m->alpha[0], A.p, A.ld, B.p, B.ld, m->beta[0], C.p, C.ld); else f.cgemm(order, ta, tb, s.R, s.C, s.K, m->alpha, A.p, A.ld, B.p, B.ld, m->beta, C.p, C.ld); }
      else { if (w == 1) f.rgemm(m->fold, order, ta, tb, s.R, s.C, s.K, m->alpha[0], A.p, A.ld, B.p, B.ld, m->beta[0], C.p, C.ld); else f.rcgemm(m->fold, order, ta, tb, s.R, s.C, s.K, m->alpha, A.p, A.ld, B.p, B.ld, m->beta, C.p, C.ld); }
      C.gaps("C"); out.resize((size_t)s.R * s.C * w);
      for (int i = 0; i < s.R; i++) for (int j = 0; j < s.C; j++) for (int k = 0; k < w; k++) out[((size_t)i * s.C + j) * w + k] = C.at(i, j, k);
    } else {
      Y.make(c, s.R, w, draw_inc(c)); Y.load(m->Y);
      if (deflt) { if (w == 1) f.gemv(order, ta, M, N, m->alpha[0], A.p, A.ld, X.p, X.inc, m->beta[0], Y.p, Y.inc); else f.cgemv(order, ta, M, N, m->alpha, A.p, A.ld, X.p, X.inc, m->beta, Y.p, Y.inc); }
      else { if (w == 1) f.rgemv(m->fold, order, ta, M, N, m->alpha[0], A.p, A.ld, X.p, X.inc, m->beta[0], Y.p, Y.inc); else f.rcgemv(m->fold, order, ta, M, N, m->alpha, A.p, A.ld, X.p, X.inc, m->beta, Y.p, Y.inc); }
      T z = poison<T>(); for (size_t i = 0; i < Y.cnt; i++) if ((i / w) % Y.inc && !same_bits(Y.p[i], z)) FAIL("Y: gap at number %zu overwritten with %a", i, (double)Y.p[i]);
      out.resize((size_t)s.R * w); for (int i = 0; i < s.R; i++) for (int k = 0; k < w; k++) out[(size_t)i * w + k] = Y.at(i, k);
    }
    inputs();
  }
  // the binned entry point on accumulators acc (R x C, packed); in place
  void binned(Ctx &c, Fam<T> &f, std::vector<T> &acc) {
    const Shape &s = m->s; int w = m->w, num = 2 * m->fold * w; bool tr = ta != 'n' && ta != 'N'; int M = tr ? s.K : s.R, N = tr ? s.R : s.K;
    int in = !m->mm ? 1 : rm ? s.C : s.R, out = !m->mm ? s.R : rm ? s.R : s.C, ld = in + (c.chance(1, 2) ? 0 : (int)c.draw(3)); if (ld < 1) ld = 1;
    size_t cnt = in == 0 || out == 0 ? 0 : ((size_t)(out - 1) * ld + in) * num; T z = poison<T>();
    T *q;
    if (Far::on()) {
      cnt = 0; ld = Far::step(c, out, std::max(1, in), 1 << 27); q = (T *)Far::reserve(((size_t)std::max(0, out - 1) * ld + in + 1) * num * sizeof(T));
      for (int i = 0; i < out; i++) if (in) Far::open(q + (size_t)i * ld * num, (size_t)in * num * sizeof(T));
    } else { q = (T *)Arena::get().alloc(cnt * sizeof(T), true); for (size_t i = 0; i < cnt; i++) q[i] = z; }
    auto at = [&](int i, int j) { return q + (size_t)(!m->mm ? (size_t)i * ld : rm ? (size_t)i * ld + j : (size_t)j * ld + i) * num; };
    for (int i = 0; i < s.R; i++) for (int j = 0; j < s.C; j++) memcpy(at(i, j), &acc[((size_t)i * s.C + j) * num], num * sizeof(T));
    if (m->mm) { if (w == 1) f.bgemm(m->fold, order, ta, tb, s.R, s.C, s.K, m->alpha[0], A.p, A.ld, B.p, B.ld, q, ld); else f.cbgemm(m->fold, order, ta, tb, s.R, s.C, s.K, m->alpha, A.p, A.ld, B.p, B.ld, q, ld); }
    else { if (w == 1) f.bgemv(m->fold, order, ta, M, N, m->alpha[0], A.p, A.ld, X.p, X.inc, q, ld); else f.cbgemv(m->fold, order, ta, M, N, m->alpha, A.p, A.ld, X.p, X.inc, q, ld); }
    for (size_t i = 0; i < cnt; i++) if ((int)(i / num % ld) >= in && !same_bits(q[i], z)) FAIL("gap between accumulators overwritten at number %zu", i);
    for (int i = 0; i < s.R; i++) for (int j = 0; j < s.C; j++) memcpy(&acc[((size_t)i * s.C + j) * num], at(i, j), num * sizeof(T));
    inputs();
  }
};
template <class T> inline bool same_val(T a, T b) { return a == b || (std::isnan(a) && std::isnan(b)); }
