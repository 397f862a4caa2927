// One library call with everything it needs, runnable against any build; results as a vector of numbers.
#pragma once
#include "mat.h"

template <class T> struct RunOp {
  typedef Tr<T> R;
  int kind = 0;       // 0 reduction, 1 ssq/nrm2, 2 amax, 3 amaxm, 4 gemv, 5 gemm
  Red r = SUM; int form = 0, fold = 3, w = 1; RedData<T> d; std::vector<T> start; bool cplx = false, special = false, amx = false;
  Vec<T> X, Y; Acc<T> a; int ip = 1, ic = 1; T sstart = 0; MatCase<T> m; Present<T> p;
  std::string str() const {
    static const char *fn[] = {"repro", "binned", "manual"};
    std::string s;
    if (kind == 0) s = sfmt("%s %s", fn[form], redname(r)); else if (kind == 1) s = sfmt("%s %s%s", fn[form], cplx ? "complex " : "", form ? "ssq" : "nrm2");
    else if (kind == 2) s = cplx ? "camax" : "amax"; else if (kind == 3) s = cplx ? "camaxm" : "amaxm"; else return std::string(form ? "binned " : "repro ") + m.str() + "\n " + p.str();
    return s + sfmt(" <%s> fold %d N %d incX %d incY %d strides %d %d", R::nm(), fold, d.n, X.inc, Y.inc, ip, ic) + " x=" + show(d.x) + (d.y.empty() ? "" : " y=" + show(d.y)) + (start.empty() ? "" : " start=" + show(start));
  }
  void inject(Ctx &c, std::vector<T> &v) { if (v.empty() || !c.chance(1, 12)) return; static const double q[] = {INFINITY, -INFINITY, NAN}; for (int k = 1 + (int)c.draw(2); k > 0; k--) v[c.draw(v.size() - 1)] = (T)q[c.draw(2)]; special = true; c.label("special value"); }
  void draw(Ctx &c, bool blas_only = false, int maxn = 9000, bool allow_special = true) {
    kind = blas_only ? (int)c.weighted({8, 3, 0, 0, 3, 3}) : (int)c.weighted({8, 3, 1, 1, 2, 2});
    fold = draw_fold<T>(c);
    if (kind >= 4) { w = 1 + (int)c.draw(1); m.draw(c, kind == 5, w, false, allow_special); fold = m.fold; p.make(c, m); form = blas_only ? 0 : (int)c.draw(1); return; }
    if (kind == 0) { r = (Red)c.draw(6); w = red_w(r); d = draw_red<T>(c, r, maxn); form = blas_only ? 0 : (int)c.draw(2); if (allow_special) { inject(c, d.x); if (!d.y.empty()) inject(c, d.y); }
      if (form && c.chance(1, 2)) start = draw_data<T>(c, 1 + c.draw(2)); }
    else {
      cplx = c.draw(1); w = cplx ? 2 : 1; d.n = draw_n(c, maxn); int lo = Profile<T>::MINE, e1 = R::EMAX, e2 = R::EMAX;
      if (kind == 3) draw_pair_range<T>(c, e1, e2);
      d.x = draw_data<T>(c, (size_t)d.n * w, lo, e1); if (kind == 3) d.y = draw_data<T>(c, (size_t)d.n * w, lo, e2);
      if (kind == 1) { if (fold > 8) fold = 2 + fold % 7; form = blas_only ? 0 : (int)c.draw(2); if (allow_special) inject(c, d.x); if (form && c.chance(1, 2)) start = draw_data<T>(c, 1 + c.draw(2)); }
    }
    X.make(c, d.n, w, draw_inc(c)); X.load(d.x); if (!d.y.empty() || kind == 3 || (kind == 0 && red_two(r))) { Y.make(c, d.n, w, draw_inc(c)); Y.load(d.y); }
    if (form == 2) { ip = 1 + (int)c.draw(3); ic = 1 + (int)c.draw(3); }
  }
  bool interesting() const { return kind >= 4 ? (size_t)m.s.R * m.s.C * m.s.K > 1 && !m.alpha0() : d.n >= 2; }
  // results: returned values, then the accumulator
  std::vector<T> run(Ctx &c, Fam<T> &f, bool deflt = false) {
    std::vector<T> out; poison_stack();
    if (kind >= 4) {
      if (form == 0) { p.repro(c, f, out, deflt); return out; }
      int num = 2 * fold * w; out.assign((size_t)m.s.R * m.s.C * num, 0);
      for (size_t e = 0; e < (size_t)m.s.R * m.s.C; e++) { if (w == 1) f.badd(fold, m.Y[e], &out[e * num]); else f.cbadd(fold, &m.Y[e * 2], &out[e * num]); }
      p.binned(c, f, out); return out;
    }
    T *x = X.p, *y = Y.p; int n = d.n, ix = X.inc, iy = Y.inc ? Y.inc : 1; T res[2] = {0, 0};
    if (kind == 0) {
      RedOp<T> op{r};
      if (form == 0) {
        if (deflt) switch (r) { case SUM: res[0] = f.sum(n, x, ix); break; case CSUM: f.csum(n, x, ix, res); break; case ASUM: res[0] = f.asum(n, x, ix); break; case CASUM: res[0] = f.casum(n, x, ix); break;
          case DOT: res[0] = f.dot(n, x, ix, y, iy); break; case DOTU: f.cdotu(n, x, ix, y, iy, res); break; case DOTC: f.cdotc(n, x, ix, y, iy, res); break; }
        else op.rcall(f, fold, n, x, ix, y, iy, res);
        out.assign(res, res + red_rw(r));
      } else {
        acc(c, f, red_rw(r)); op.acc(f, a, n, x, ix, y, iy); out = a.dump(); gaps();
      }
    } else if (kind == 1) {
      if (form == 0) res[0] = deflt ? (cplx ? f.cnrm2(n, x, ix) : f.nrm2(n, x, ix)) : cplx ? f.rcnrm2(fold, n, x, ix) : f.rnrm2(fold, n, x, ix);
      else {
        acc(c, f, 1, true); T sc = 0;
        if (!start.empty()) { if (a.packed) sc = f.bssq(fold, (int)start.size(), start.data(), 1, 0, a.pri); else sc = f.mssq(fold, (int)start.size(), start.data(), 1, 0, a.pri, a.ip, a.car, a.ic); }
        if (a.packed) res[0] = cplx ? f.cbssq(fold, n, x, ix, sc, a.pri) : f.bssq(fold, n, x, ix, sc, a.pri);
        else res[0] = cplx ? f.cmssq(fold, n, x, ix, sc, a.pri, a.ip, a.car, a.ic) : f.mssq(fold, n, x, ix, sc, a.pri, a.ip, a.car, a.ic);
        out = a.dump(); gaps();
      }
      out.insert(out.begin(), res[0]);
    } else if (kind == 2) { if (cplx) f.camax(n, x, ix, res); else res[0] = f.amax(n, x, ix); out.assign(res, res + w); }
    else { if (cplx) f.camaxm(n, x, ix, y, iy, res); else res[0] = f.amaxm(n, x, ix, y, iy); out.assign(res, res + w); }
    X.unchanged("X"); if (Y.p) Y.unchanged("Y");
    return out;
  }
  void acc(Ctx &c, Fam<T> &f, int rw, bool bare = false) {
    a.make(c, fold, rw, form == 1, ip, ic);
    if (!bare) for (size_t i = 0; i < start.size(); i++) { T v[2] = {start[i], start[(i + 1) % start.size()]}; if (rw == 1) { if (a.packed) f.badd(fold, v[0], a.pri); else f.madd(fold, v[0], a.pri, a.ip, a.car, a.ic); } else { if (a.packed) f.cbadd(fold, v, a.pri); else f.cmadd(fold, v, a.pri, a.ip, a.car, a.ic); } }
  }
  void gaps() { if (!a.packed) { std::string g = a.gaps(); if (!g.empty()) FAIL("%s", g.c_str()); } }
  // differences between two result vectors; where an accumulator holds a special value only its first number counts
  std::string compare(const std::vector<T> &u, const std::vector<T> &v) const {
    if (u.size() != v.size()) return "sizes differ";
    int head = kind == 1 ? 1 : 0, rw = kind >= 4 ? w : kind == 0 ? red_rw(r) : 1;
    if (form == 0 || kind == 2 || kind == 3) {
      for (size_t i = 0; i < u.size(); i++) if (!same_val(u[i], v[i])) return sfmt("result %zu: %a against %a", i, (double)u[i], (double)v[i]);
      return "";
    }
    bool skip_scale = false;
    int num = 2 * fold;     // kind<=1: a.dump() lists component by component; gemm: packed accumulators, interleaved
    for (size_t b = head; b < u.size(); b += (size_t)num * (kind >= 4 ? rw : 1)) {
      int parts = kind >= 4 ? rw : 1;
      for (int k = 0; k < parts; k++) {
        T p0 = u[b + k], q0 = v[b + k];
        if (!std::isfinite(p0) || !std::isfinite(q0)) { if (!same_val(p0, q0)) return sfmt("accumulator at %zu holds %g against %g", b, (double)p0, (double)q0); if (kind == 1) skip_scale = true; continue; }
        for (int i = 0; i < num; i++) { size_t at = b + (size_t)i * parts + k; if (!same_val(u[at], v[at])) return sfmt("number %zu of the accumulators: %a against %a", at, (double)u[at], (double)v[at]); }
      }
    }
    if (head && !skip_scale && !same_val(u[0], v[0])) return sfmt("scale %a against %a", (double)u[0], (double)v[0]);
    return "";
  }
};
