// C05: norms and piecewise scaled sums of squares.  C27: rescaling and merging scaled accumulators.
#include "sq.h"
#include "long.h"

template <class T> static T call_addsq(T sx, const Acc<T> &x, T sy, Acc<T> &y) {
  if (x.packed && y.packed) return L<T>().bbaddsq(x.fold, sx, x.pri, sy, y.pri);
  return L<T>().mmaddsq(x.fold, sx, x.pri, x.ip, x.car, x.ic, sy, y.pri, y.ip, y.car, y.ic);
}

template <class T> static void norm(Ctx &c, bool cplx) {
  typedef Tr<T> R; int w = cplx ? 2 : 1; Fam<T> &f = L<T>();
  int fold = draw_fold<T>(c);
  int n = draw_n(c, 12000);
  std::vector<T> x = draw_data<T>(c, (size_t)n * w);
  NOTE("nrm2<%s> complex=%d fold=%d N=%d x=%s", R::nm(), cplx, fold, n, show(x).c_str());
  // reference: one scale, then the reproducible sum of the rounded squares
  T mx = 0; for (T t : x) mx = std::max(mx, (T)std::fabs(t));
  Scaled<T> ref(fold); size_t nz = 0;
  if (n) {
    ref.scale = scale_ref<T>(mx);
    std::vector<T> sq(x.size()); for (size_t i = 0; i < x.size(); i++) { volatile T q = x[i] / ref.scale; volatile T s = q * q; sq[i] = s; nz += x[i] != 0; }
    for (T t : sq) ref.m.update(t);
    for (T t : sq) ref.m.deposit(t);
  }
  bool low = !ref.m.empty && ref.m.idx + fold > lowbin<T>(); i128 slack = low ? (i128)x.size() * 2 : 0;
  if (low) c.label("window reaches the last bin");
  T expect;
  { Acc<T> b; b.make(c, fold, 1); b.load(ref.m); volatile T q = std::sqrt(f.rbconv(fold, b.pri)); q = ref.scale * q; expect = q; }
  Big S; for (T t : x) S.addprod(t, t);
  int pieces = 0; std::set<int> scales; T first = 0;
  for (int pr = 0; pr < 2; pr++) {
    std::vector<T> y = x;
    if (pr) { std::vector<int> p = draw_perm(c, n); for (int i = 0; i < n; i++) for (int k = 0; k < w; k++) { T t = x[(size_t)p[i] * w + (cplx && (p[i] & 1) ? 1 - k : k)]; y[(size_t)i * w + k] = (p[i] & 2) ? -t : t; } }
    Vec<T> X; X.make(c, n, w, draw_inc(c)); X.load(y);
    T got = cplx ? f.rcnrm2(fold, n, X.p, X.inc) : f.rnrm2(fold, n, X.p, X.inc);
    X.unchanged("X");
    if (std::isnan(got) || got < 0 || std::signbit(got)) FAIL("nrm2<%s> complex=%d fold %d N %d returned %a", R::nm(), cplx, fold, n, (double)got);
    if (got == 0 ? nz != 0 : nz == 0) FAIL("nrm2<%s> complex=%d fold %d N %d returned %a for a vector with %zu nonzero entries", R::nm(), cplx, fold, n, (double)got, nz);
    if (!low && pr && !same_bits(got, first)) FAIL("nrm2<%s> complex=%d fold %d N %d: %a in one order, %a in another", R::nm(), cplx, fold, n, (double)first, (double)got);
    first = got;
    if (!low && (got == 0 || std::isnormal(expect)) && !same_bits(got, expect)) FAIL("nrm2<%s> complex=%d fold %d N %d presentation %d returned %a, the sum of the rounded squares gives %a", R::nm(), cplx, fold, n, pr, (double)got, (double)expect);
    // accuracy
    Big tol = S; tol.mulu(16); tol.shr(R::P - 1);
    if (mx > 0) { int64_t mm; int e; Big::split(mx, mm, e); int be = 2 * (e + 53) + R::W * (1 - fold); if (be > -2290) tol.addi((i128)x.size(), be); else tol.addi(1, -2290);
      be = 2 * (int)std::lround(std::log2((double)ref.scale)) + ulpexp<T>(lowbin<T>()); if (be > -2290) tol.addi((i128)x.size(), be); else tol.addi(1, -2290); }
    if (std::isinf(got)) {
      Big lim; lim.addi(1, 2 * R::EMAX); Big a = S; a += tol; Big h; h.addi(1, 2 * R::EMAX - R::P); lim -= h;
      if (a < lim) FAIL("nrm2<%s> complex=%d fold %d N %d overflowed, exact sum of squares %s", R::nm(), cplx, fold, n, S.str().c_str());
      c.label("norm out of range");
    } else {
      Big q; q.addprod(got, got); q -= S;
      if (got != 0) { int64_t mm; int e; Big::split(got, mm, e); tol.addi(mm, e + R::EMIN + 1); } tol.addi(1, 2 * R::EMIN);
      if (tol < q.abs()) FAIL("nrm2<%s> complex=%d fold %d N %d returned %a (%.17g): its square is off by %s from %s (allowed %s)", R::nm(), cplx, fold, n, (double)got, (double)got, q.str().c_str(), S.str().c_str(), tol.str().c_str());
    }
    // piecewise
    int k = 1 + (int)c.draw(4); pieces += k; bool one = c.chance(1, 2);
    std::vector<int> cut = {0}; for (int i = 1; i < k; i++) cut.push_back((int)c.draw(n)); cut.push_back(n); std::sort(cut.begin(), cut.end());
    std::vector<Acc<T>> as; std::vector<T> sc;
    for (int i = 0; i < k; i++) {
      if (!one || !i) { as.emplace_back(); draw_acc(c, as.back(), fold, 1); sc.push_back(0); }
      Acc<T> &a = as.back();
      int lo = cut[i], m = cut[i + 1] - cut[i];
      sc.back() = call_ssq(cplx, m, m ? X.p + (size_t)lo * X.inc * w : X.p, X.inc, sc.back(), a);
      scales.insert(sc.back() > 0 ? std::ilogb(sc.back()) : -99999);
    }
    NOTE(" presentation %d: %d pieces, %zu accumulators", pr, k, as.size());
    while (as.size() > 1) {
      size_t i = c.draw(as.size() - 1), j = c.draw(as.size() - 2); if (j >= i) j++;
      std::vector<T> before = as[i].dump();
      sc[j] = call_addsq(sc[i], as[i], sc[j], as[j]);
      if (memcmp(before.data(), as[i].dump().data(), before.size() * sizeof(T))) FAIL("addsq modified its source");
      as.erase(as.begin() + i); sc.erase(sc.begin() + i);
    }
    if (sc[0] != ref.scale) FAIL("ssq<%s> complex=%d fold %d N %d: piecewise scale %a, in one call %a", R::nm(), cplx, fold, n, (double)sc[0], (double)ref.scale);
    std::string e = check_ssq(as[0], ref.m, 0, slack);
    if (!e.empty()) FAIL("ssq<%s> complex=%d fold %d N %d: %s", R::nm(), cplx, fold, n, e.c_str());
    e = as[0].gaps(); if (!as[0].packed && !e.empty()) FAIL("%s", e.c_str());
  }
  if (scales.size() > 1) c.label("several scales");
  if (nz >= 2 && (pieces > 2 || n > 2)) c.nontrivial();
}

// histories of scaled accumulators
template <class T> static void addsq(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>();
  int fold = draw_fold<T>(c); int na = 2 + (int)c.draw(3);
  struct S { Acc<T> a; Scaled<T> m; Big exact; S(int f) : m(f) {} };
  std::vector<S> v; i128 slack = 0; bool low = false;
  for (int i = 0; i < na; i++) { v.emplace_back(fold); draw_acc(c, v[i].a, fold, 1); }
  NOTE("scaled accumulators<%s> fold=%d count=%d", R::nm(), fold, na);
  int steps = 1 + (int)c.draw(10); std::set<int> scales; int merges = 0;
  auto chk = [&](S &s, const char *what) {
    low = !s.m.m.empty && s.m.m.idx + fold > lowbin<T>();
    std::string e = check_ssq(s.a, s.m.m, 0, low ? slack : 0);
    if (!e.empty()) FAIL("%s<%s> fold %d: %s", what, R::nm(), fold, e.c_str());
    e = s.a.gaps(); if (!s.a.packed && !e.empty()) FAIL("%s: %s", what, e.c_str());
  };
  for (int st = 0; st < steps; st++) {
    int i = (int)c.draw(na - 1);
    switch (c.weighted({5, 5, 3})) {
      case 0: {      // sum of squares of some numbers
        int n = (int)c.draw(6); bool cplx = c.chance(1, 3); int w = cplx ? 2 : 1;
        std::vector<T> x = draw_data<T>(c, (size_t)n * w); Vec<T> X; X.make(c, n, w, draw_inc(c)); X.load(x);
        T mx = 0; for (T t : x) mx = std::max(mx, (T)std::fabs(t));
        T ns = v[i].m.scale; if (n) ns = std::max(ns, scale_ref<T>(mx));
        NOTE(" %d: sum of squares of %s", i, show(x).c_str());
        T sc = call_ssq(cplx, n, X.p, X.inc, v[i].m.scale, v[i].a); slack += 4 * (i128)x.size() + 1;
        if (sc != ns) FAIL("ssq<%s> fold %d returned scale %a, expected %a (largest magnitude %a)", R::nm(), fold, (double)sc, (double)ns, (double)mx);
        v[i].m.rescale(ns); v[i].m.scale = ns;
        std::vector<T> sq; for (T t : x) { volatile T q = t / ns; volatile T s = q * q; sq.push_back((T)s); }
        for (T t : sq) v[i].m.m.update(t);
        for (T t : sq) v[i].m.m.deposit(t);
        break;
      }
      case 1: {      // merge
        int j = (int)c.draw(na - 2); if (j >= i) j++;
        NOTE(" %d += %d (scales %a %a)", i, j, (double)v[i].m.scale, (double)v[j].m.scale);
        std::vector<T> before = v[j].a.dump();
        T sc = call_addsq(v[j].m.scale, v[j].a, v[i].m.scale, v[i].a);
        if (memcmp(before.data(), v[j].a.dump().data(), before.size() * sizeof(T))) FAIL("addsq modified its source");
        T ns = std::max(v[i].m.scale, v[j].m.scale);
        if (sc != ns) FAIL("addsq<%s> fold %d returned scale %a for scales %a and %a", R::nm(), fold, (double)sc, (double)v[i].m.scale, (double)v[j].m.scale);
        if (!v[i].m.m.empty && !v[j].m.m.empty) { merges++; if (v[i].m.scale != v[j].m.scale) c.label("merge across scales"); }
        v[i].m.merge(v[j].m); break;
      }
      default: {     // rescale
        if (v[i].m.scale == 0) break;
        int e = std::ilogb(v[i].m.scale) / R::W, top = (R::EMAX - 1) / R::W;
        int k = (int)c.draw(c.chance(1, 2) ? std::min(4, top - e) : top - e);
        T to = (T)std::ldexp(1.0, (e + k) * R::W);
        NOTE(" %d rescaled from %a to %a", i, (double)v[i].m.scale, (double)to);
        f.mrescale(fold, to, v[i].m.scale, v[i].a.pri, v[i].a.ip, v[i].a.car, v[i].a.ic);
        v[i].m.rescale(to); c.label("rescale"); if (k) merges++; break;
      }
    }
    scales.insert(v[i].m.scale > 0 ? std::ilogb(v[i].m.scale) : -99999);
    chk(v[i], "scaled accumulator");
    // its value
    Big b; v[i].m.m.value(b); T got = v[i].a.packed ? f.rbconv(fold, v[i].a.pri) : f.rmconv(fold, v[i].a.pri, v[i].a.ip, v[i].a.car, v[i].a.ic);
    if (low && slack) { Big t; t.addi(slack, ulpexp<T>(lowbin<T>())); Big d((double)got); d -= b; d = d.abs(); Big a = b.abs(); a.mulu(7); a.shr(R::P - 1); t += a; if (t < d) FAIL("scaled accumulator<%s> fold %d converts to %a, exact %s", R::nm(), fold, (double)got, b.str().c_str()); }
    else { std::string e = conv_ok<T>(got, b); if (!e.empty()) FAIL("scaled accumulator<%s> fold %d: %s", R::nm(), fold, e.c_str()); }
  }
  if (merges && scales.size() > 1) c.nontrivial();
}

// rescaling complex accumulators: both components independently
template <class T> static void crescale(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>();
  int fold = draw_fold<T>(c); Acc<T> a; draw_acc(c, a, fold, 2);
  Scaled<T> m[2] = {Scaled<T>(fold), Scaled<T>(fold)};
  int top = (R::EMAX - 1) / R::W, e0 = (int)c.range(-top, top); T s0 = (T)std::ldexp(1.0, e0 * R::W);
  for (int k = 0; k < 2; k++) {
    m[k].scale = s0; std::vector<T> x = draw_data<T>(c, c.draw(4), Profile<T>::MINE, 2 * R::W + 2);
    for (T t : x) m[k].m.update(t);
    for (T t : x) m[k].m.deposit(t);
    a.load(m[k].m, k);
    NOTE("component %d holds the sum of %s", k, show(x).c_str());
  }
  int kk = (int)c.draw(c.chance(1, 2) ? std::min(4, top - e0) : top - e0);
  T to = (T)std::ldexp(1.0, (e0 + kk) * R::W);
  NOTE("complex rescale<%s> fold=%d strides %d %d from %a to %a", R::nm(), fold, a.ip, a.ic, (double)s0, (double)to);
  f.cmrescale(fold, to, s0, a.pri, a.ip, a.car, a.ic);
  for (int k = 0; k < 2; k++) { m[k].rescale(to); std::string e = check_ssq(a, m[k].m, k, 0); if (!e.empty()) FAIL("complex rescale<%s> fold %d from %a to %a component %d: %s", R::nm(), fold, (double)s0, (double)to, k, e.c_str()); }
  std::string e = a.gaps(); if (!a.packed && !e.empty()) FAIL("%s", e.c_str());
  if (kk && !m[0].m.empty && !m[1].m.empty) c.nontrivial();
}

int main(int argc, char **argv) {
  Engine e; std::string prop;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
  if (prop == "C05") {
    e.tests.push_back({"nrm2_d", 60, [](Ctx &c) { norm<double>(c, false); }}); e.tests.push_back({"nrm2_s", 60, [](Ctx &c) { norm<float>(c, false); }});
    e.tests.push_back({"nrm2_z", 60, [](Ctx &c) { norm<double>(c, true); }}); e.tests.push_back({"nrm2_c", 60, [](Ctx &c) { norm<float>(c, true); }});
    e.tests.push_back({"long_nrm2_d", 1, [](Ctx &c) { longnorm<double>(c, false); }}); e.tests.push_back({"long_nrm2_s", 1, [](Ctx &c) { longnorm<float>(c, false); }});
    e.tests.push_back({"long_nrm2_z", 1, [](Ctx &c) { longnorm<double>(c, true); }}); e.tests.push_back({"long_nrm2_c", 1, [](Ctx &c) { longnorm<float>(c, true); }});
  }
  if (prop == "C27") {
    e.tests.push_back({"addsq_d", 2, [](Ctx &c) { addsq<double>(c); }}); e.tests.push_back({"addsq_s", 2, [](Ctx &c) { addsq<float>(c); }});
    e.tests.push_back({"crescale_d", 1, [](Ctx &c) { crescale<double>(c); }}); e.tests.push_back({"crescale_s", 1, [](Ctx &c) { crescale<float>(c); }});
  }
  return engine_main(argc, argv, e);
}
