// C16 gemv, C17 gemm.
#include "mat.h"

template <class T> static void reference(Fam<T> &f, const MatCase<T> &m, const std::vector<T> &t, T *acc) {
  if (m.w == 1) f.bsum(m.fold, (int)t.size(), t.data(), 1, acc); else f.cbsum(m.fold, (int)t.size() / 2, t.data(), 1, acc);
}

template <class T> static void products(Ctx &c, bool mm, int w) {
  Fam<T> &f = L<T>(); MatCase<T> m; m.draw(c, mm, w);
  const Shape &s = m.s; int num = 2 * m.fold * w;
  std::vector<T> P, Q, t; m.scaled(P, Q);
  Present<T> p; p.make(c, m); NOTE("%s\n %s", m.str().c_str(), p.str().c_str());
  std::vector<T> out;
  if (c.chance(1, 2)) {
    NOTE(" reproBLAS entry point");
    p.repro(c, f, out);
    for (int i = 0; i < s.R; i++) for (int j = 0; j < s.C; j++) {
      size_t e = ((size_t)i * s.C + j) * w; T want[2];
      if (m.noop()) { for (int k = 0; k < w; k++) if (!same_bits(out[e + k], m.Y[e + k]) && !same_val(out[e + k], m.Y[e + k])) FAIL("empty product changed y"); continue; }
      std::vector<T> acc(num, 0);
      if (!m.beta0()) {
        T y[2] = {m.Y[e], w == 2 ? m.Y[e + 1] : 0}; if (!m.beta1()) { T r[2]; MatCase<T>::mul(w, m.beta, y, r); y[0] = r[0]; y[1] = r[1]; }
        if (w == 1) f.bconv(m.fold, y[0], acc.data()); else f.cbconv(m.fold, y, acc.data());
      }
      m.terms(P, Q, i, j, t); reference(f, m, t, acc.data());
      if (w == 1) want[0] = f.rbconv(m.fold, acc.data()); else f.ccbconv(m.fold, acc.data(), want);
      for (int k = 0; k < w; k++) if (!same_val(out[e + k], want[k])) FAIL("entry (%d,%d) part %d is %a, reproducible sum of its terms %a", i, j, k, (double)out[e + k], (double)want[k]);
    }
  } else {
    NOTE(" binnedBLAS entry point");
    std::vector<T> acc((size_t)s.R * s.C * num, 0), prior;
    bool fresh = c.chance(1, 3);
    if (!fresh) for (size_t e = 0; e < (size_t)s.R * s.C; e++) { if (w == 1) f.badd(m.fold, m.Y[e], &acc[e * num]); else f.cbadd(m.fold, &m.Y[e * 2], &acc[e * num]); }
    prior = acc; p.binned(c, f, acc);
    int models = 0;
    for (int i = 0; i < s.R; i++) for (int j = 0; j < s.C; j++) {
      size_t e = (size_t)i * s.C + j; T *a = &acc[e * num], *b = &prior[e * num];
      if (!m.noop()) { m.terms(P, Q, i, j, t); reference(f, m, t, b); } else t.clear();
      bool special = false; for (int k = 0; k < w; k++) if (!std::isfinite(b[k])) special = true;
      for (int k = 0; k < num; k++) if (!special && !same_val(a[k], b[k])) FAIL("entry (%d,%d): number %d of the accumulator is %a, reproducible sum of its terms %a", i, j, k, (double)a[k], (double)b[k]);
      for (int k = 0; k < w; k++) if (!same_val(a[k], b[k])) FAIL("entry (%d,%d) part %d: accumulator holds %a, reproducible sum of its terms %a", i, j, k, (double)a[k], (double)b[k]);
      bool corner = (i == 0 || i == s.R - 1) && (j == 0 || j == s.C - 1);
      if (corner && models < 2 && (int)t.size() <= 600) {
        models++; std::vector<Model<T>> md(w, Model<T>(m.fold));
        for (int k = 0; k < w; k++) { if (!fresh) md[k].add(m.Y[e * w + k]); for (size_t q = k; q < t.size(); q += w) if (std::isfinite(t[q])) md[k].update(t[q]); for (size_t q = k; q < t.size(); q += w) md[k].deposit(t[q]);
          std::string er = md[k].check(a + k, w, a + num / 2 + k, w); if (!er.empty() && !special) FAIL("entry (%d,%d) part %d: %s", i, j, k, er.c_str()); }
      }
    }
  }
  if (!m.noop() && !m.alpha0() && s.K && (size_t)s.R * s.C * s.K > 1) c.nontrivial();
  if (!m.alpha1() && !m.alpha0()) c.label("general alpha"); if (s.K > 500) c.label("long inner dimension"); if (s.R > 60 || s.C > 60) c.label("long outer dimension");
}

// value against exact arithmetic
template <class T> static void accuracy(Ctx &c, bool mm, int w) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); MatCase<T> m; m.draw(c, mm, w, true, false); const Shape &s = m.s;
  Present<T> p; p.make(c, m); std::vector<T> out; NOTE("%s\n %s", m.str().c_str(), p.str().c_str()); p.repro(c, f, out);
  if (m.noop()) return;
  double eps = R::eps(); bool any = false;
  for (int n = 0; n < 6 && s.R && s.C; n++) {
    int i = n == 0 ? 0 : n == 1 ? s.R - 1 : (int)c.draw(s.R - 1), j = n == 0 ? 0 : n == 1 ? s.C - 1 : (int)c.draw(s.C - 1);
    for (int part = 0; part < w; part++) {
      Big ex; double mag = 0, mx = 0; int cnt = 0;
      auto term = [&](double a, double b, double g, bool neg) {      // g * a * b exactly (g*a split in two)
        double h = g * a, l = std::fma(g, a, -h); ex.addprod(h, b, neg); ex.addprod(l, b, neg); double z = std::fabs(h * b); mag += z; mx = std::max(mx, z); cnt++;
      };
      size_t e = ((size_t)i * s.C + j) * w;
      if (w == 1) { term(m.Y[e], 1, m.beta[0], false); for (int k = 0; k < s.K; k++) term(m.A[(size_t)i * s.K + k], m.B[(size_t)k * s.C + j], m.alpha[0], false); }
      else {
        const T *y = &m.Y[e];
        if (part == 0) { term(y[0], 1, m.beta[0], false); term(y[1], 1, m.beta[1], true); } else { term(y[0], 1, m.beta[1], false); term(y[1], 1, m.beta[0], false); }
        for (int k = 0; k < s.K; k++) {
          const T *a = &m.A[((size_t)i * s.K + k) * 2], *b = &m.B[((size_t)k * s.C + j) * 2], *g = m.alpha;
          if (part == 0) { term(a[0], b[0], g[0], false); term(a[1], b[1], g[0], true); term(a[0], b[1], g[1], true); term(a[1], b[0], g[1], true); }
          else { term(a[0], b[1], g[0], false); term(a[1], b[0], g[0], false); term(a[0], b[0], g[1], false); term(a[1], b[1], g[1], true); }
        }
      }
      double tol = mag * 4 * eps + 1.01 * cnt * std::ldexp(2 * mx * (w == 2 ? 2 : 1), R::W * (1 - m.fold)) + 8 * eps * mag;
      Big d((double)out[e + part]); d -= ex; d = d.abs(); Big lim(tol * (1 + 1e-9) + std::ldexp(1.0, R::EMIN + 40 < -1000 ? -1000 : -140));
      if (lim < d) FAIL("entry (%d,%d) part %d is %.17g, exact %s, off by %s, allowed %.3g", i, j, part, (double)out[e + part], ex.str().c_str(), d.str().c_str(), tol);
      if (cnt > 2 && mag > 0) any = true;
    }
  }
  if (any) c.nontrivial();
}

int main(int argc, char **argv) {
  Engine e; std::string prop;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
  bool mm = prop == "C17";
  e.tests.push_back({"products_d", 2, [=](Ctx &c) { products<double>(c, mm, 1); }}); e.tests.push_back({"products_z", 4, [=](Ctx &c) { products<double>(c, mm, 2); }});
  e.tests.push_back({"products_s", 2, [=](Ctx &c) { products<float>(c, mm, 1); }}); e.tests.push_back({"products_c", 4, [=](Ctx &c) { products<float>(c, mm, 2); }});
  e.tests.push_back({"accuracy_d", 1, [=](Ctx &c) { accuracy<double>(c, mm, 1); }}); e.tests.push_back({"accuracy_z", 1, [=](Ctx &c) { accuracy<double>(c, mm, 2); }});
  e.tests.push_back({"accuracy_s", 1, [=](Ctx &c) { accuracy<float>(c, mm, 1); }}); e.tests.push_back({"accuracy_c", 1, [=](Ctx &c) { accuracy<float>(c, mm, 2); }});
  return engine_main(argc, argv, e);
}
