// Histories of operations on binned accumulators.
//   C07 update/deposit/renorm/add...    against the exact model
//   C08 merges                          against the exact model, and bit for bit between trees
//   C12 strided forms                   against the packed forms, step by step
//   C13 complex accumulators            against two real accumulators, step by step
//   C14 negate/set/zero/size/alloc      against the exact model
#include "red.h"
#include <malloc.h>

enum Form { PACKED, STRIDED, TWO };
enum Mode { MODEL, FORMS, PARTS };

// one accumulator of w components in one representation
template <class T> struct Rep {
  Form form; int fold, w; Acc<T> a, im;       // TWO: a holds the real part, im the imaginary part
  bool mform = false;                          // PACKED: call the manual form with unit strides
  Fam<T> &f() { return L<T>(); }
  void make(Ctx &c, Form fm, int fold_, int w_) {
    form = fm; fold = fold_; w = w_;
    if (fm == PACKED) a.make(c, fold, w, true);
    else if (fm == STRIDED) a.make(c, fold, w, false, 1 + (int)c.draw(3), 1 + (int)c.draw(3));
    else { draw_acc(c, a, fold, 1); draw_acc(c, im, fold, 1); }
  }
  bool b() const { return a.packed && !mform; }
  void add(const T *x) {
    if (form == TWO) { one_add(a, x[0]); one_add(im, x[1]); }
    else if (w == 1) one_add(a, x[0]);
    else if (b()) f().cbadd(fold, (void *)x, a.pri); else f().cmadd(fold, (void *)x, a.pri, a.ip, a.car, a.ic);
  }
  void one_add(Acc<T> &q, T x) { if (q.packed && !mform) f().badd(fold, x, q.pri); else f().madd(fold, x, q.pri, q.ip, q.car, q.ic); }
  void one_update(Acc<T> &q, T x) { if (q.packed && !mform) f().bupdate(fold, x, q.pri); else f().mupdate(fold, x, q.pri, q.ip, q.car, q.ic); }
  void update(const T *x) {
    if (form == TWO) { one_update(a, x[0]); one_update(im, x[1]); }
    else if (w == 1) one_update(a, x[0]);
    else if (b()) f().cbupdate(fold, (void *)x, a.pri); else f().cmupdate(fold, (void *)x, a.pri, a.ip, a.car, a.ic);
  }
  void rupdate(T x) {       // complex from real bound
    if (form == TWO) { one_update(a, x); one_update(im, x); }
    else if (b()) f().cbrupdate(fold, x, a.pri); else f().cmrupdate(fold, x, a.pri, a.ip, a.car, a.ic);
  }
  void one_deposit(Acc<T> &q, T x) { if (q.packed && !mform) f().bdeposit(fold, x, q.pri); else f().mdeposit(fold, x, q.pri, q.ip); }
  void deposit(const T *x) {
    if (form == TWO) { one_deposit(a, x[0]); one_deposit(im, x[1]); }
    else if (w == 1) one_deposit(a, x[0]);
    else if (b()) f().cbdeposit(fold, (void *)x, a.pri); else f().cmdeposit(fold, (void *)x, a.pri, a.ip);
  }
  void one_renorm(Acc<T> &q) { if (q.packed && !mform) f().brenorm(fold, q.pri); else f().mrenorm(fold, q.pri, q.ip, q.car, q.ic); }
  void renorm() {
    if (form == TWO) { one_renorm(a); one_renorm(im); }
    else if (w == 1) one_renorm(a);
    else if (b()) f().cbrenorm(fold, a.pri); else f().cmrenorm(fold, a.pri, a.ip, a.car, a.ic);
  }
  void one_negate(Acc<T> &q) { if (q.packed && !mform) f().bnegate(fold, q.pri); else f().mnegate(fold, q.pri, q.ip, q.car, q.ic); }
  void negate() {
    if (form == TWO) { one_negate(a); one_negate(im); }
    else if (w == 1) one_negate(a);
    else if (b()) f().cbnegate(fold, a.pri); else f().cmnegate(fold, a.pri, a.ip, a.car, a.ic);
  }
  void one_zero(Acc<T> &q) { if (q.packed && !mform) f().bsetzero(fold, q.pri); else f().msetzero(fold, q.pri, q.ip, q.car, q.ic); }
  void setzero() {
    if (form == TWO) { one_zero(a); one_zero(im); }
    else if (w == 1) one_zero(a);
    else if (b()) f().cbsetzero(fold, a.pri); else f().cmsetzero(fold, a.pri, a.ip, a.car, a.ic);
  }
  void one_fromx(Acc<T> &q, T x) { if (q.packed && !mform) f().bconv(fold, x, q.pri); else f().mconv(fold, x, q.pri, q.ip, q.car, q.ic); }
  void fromx(const T *x) {   // conversion from floating point
    if (form == TWO) { one_fromx(a, x[0]); one_fromx(im, x[1]); }
    else if (w == 1) one_fromx(a, x[0]);
    else if (b()) f().cbconv(fold, (void *)x, a.pri); else f().cmconv(fold, (void *)x, a.pri, a.ip, a.car, a.ic);
  }
  T one_tox(Acc<T> &q) { return q.packed && !mform ? f().rbconv(fold, q.pri) : f().rmconv(fold, q.pri, q.ip, q.car, q.ic); }
  void tox(T *r) {
    if (form == TWO) { r[0] = one_tox(a); r[1] = one_tox(im); }
    else if (w == 1) r[0] = one_tox(a);
    else if (b()) f().ccbconv(fold, a.pri, r); else f().ccmconv(fold, a.pri, a.ip, a.car, a.ic, r);
  }
  static void one_set(Fam<T> &f, int fold, Acc<T> &x, Acc<T> &y, bool mf) { if (x.packed && y.packed && !mf) f.bset(fold, x.pri, y.pri); else f.mset(fold, x.pri, x.ip, x.car, x.ic, y.pri, y.ip, y.car, y.ic); }
  void set(Rep &x) {
    if (form == TWO) { one_set(f(), fold, x.a, a, mform); one_set(f(), fold, x.im, im, mform); }
    else if (w == 1) one_set(f(), fold, x.a, a, mform);
    else if (b() && x.b()) f().cbset(fold, x.a.pri, a.pri); else f().cmset(fold, x.a.pri, x.a.ip, x.a.car, x.a.ic, a.pri, a.ip, a.car, a.ic);
  }
  void rset(Acc<T> &x) {     // complex from a real accumulator
    if (form == TWO) { one_set(f(), fold, x, a, mform); one_zero(im); }
    else if (b() && x.packed) f().cbrset(fold, x.pri, a.pri); else f().cmrset(fold, x.pri, x.ip, x.car, x.ic, a.pri, a.ip, a.car, a.ic);
  }
  static void one_merge(Fam<T> &f, int fold, Acc<T> &x, Acc<T> &y, bool mf) { if (x.packed && y.packed && !mf) f.bbadd(fold, x.pri, y.pri); else f.mmadd(fold, x.pri, x.ip, x.car, x.ic, y.pri, y.ip, y.car, y.ic); }
  void merge(Rep &x) {
    if (form == TWO) { one_merge(f(), fold, x.a, a, mform); one_merge(f(), fold, x.im, im, mform); }
    else if (w == 1) one_merge(f(), fold, x.a, a, mform);
    else if (b() && x.b()) f().cbbadd(fold, x.a.pri, a.pri); else f().cmmadd(fold, x.a.pri, x.a.ip, x.a.car, x.a.ic, a.pri, a.ip, a.car, a.ic);
  }
  bool has_denorm() {
    if (form == TWO) return false;
    return false;
  }
  // element i of component k, primary or carry
  T get(int i, int k, bool carry) const {
    const Acc<T> &q = form == TWO && k ? im : a; int kk = form == TWO ? 0 : k;
    return carry ? q.car[i * q.ic * q.w + kk] : q.pri[i * q.ip * q.w + kk];
  }
  std::string gaps() const {
    std::string e = a.packed ? "" : a.gaps();
    if (e.empty() && form == TWO && !im.packed) e = im.gaps();
    return e;
  }
  std::string check(const Model<T> &m, int k, bool normal) const { return form == TWO ? (k ? im : a).check(m, 0, normal) : a.check(m, k, normal); }
  std::vector<T> dump() const { std::vector<T> v = a.dump(); if (form == TWO) { auto u = im.dump(); v.insert(v.end(), u.begin(), u.end()); } return v; }
};

template <class T> static std::string differ(const Rep<T> &x, const Rep<T> &y) {
  for (int k = 0; k < x.w; k++) {
    T p = x.get(0, k, false), q = y.get(0, k, false);
    if (!std::isfinite(p) || !std::isfinite(q)) { if (std::isnan(p) ? !std::isnan(q) : p != q) return sfmt("component %d: %a against %a", k, (double)p, (double)q); continue; }
    for (int i = 0; i < x.fold; i++) for (int h = 0; h < 2; h++) {
      p = x.get(i, k, h); q = y.get(i, k, h);
      if (!(h ? p == q : same_bits(p, q))) return sfmt("component %d bin %d %s: %a against %a", k, i, h ? "carry" : "primary", (double)p, (double)q);
    }
  }
  return "";
}

template <class T> struct Slot {
  std::vector<Rep<T>> r; std::vector<Model<T>> m; double cnt = 0; int pend = 0; bool neg = false;
};

template <class T> struct Hist {
  typedef Tr<T> R;
  Ctx &c; Mode mode; int w, fold; std::vector<Slot<T>> s; std::vector<Acc<T>> real; std::vector<Model<T>> realm;
  std::vector<Profile<T>> prof;
  double cap() const { return R::ENDUR * (std::ldexp(1.0, R::P - 1) - 1.0); }
  Hist(Ctx &c_, Mode md, int w_) : c(c_), mode(md), w(w_) {
    fold = draw_fold<T>(c);
    int np = 1 + (int)c.draw(2); for (int i = 0; i < np; i++) { Profile<T> p; p.draw(c); prof.push_back(p); NOTE("profile %d: %s", i, p.str().c_str()); }
  }
  void fresh() {
    s.emplace_back(); Slot<T> &q = s.back();
    q.m.assign(w, Model<T>(fold));
    auto mk = [&](Form f) { q.r.emplace_back(); q.r.back().make(c, f, fold, w); if (f == PACKED && c.chance(1, 3) && mode != FORMS) q.r.back().mform = true; };
    if (mode == MODEL) mk(c.chance(1, 3) ? STRIDED : PACKED);
    else if (mode == FORMS) { mk(PACKED); mk(STRIDED); }
    else { mk(c.chance(1, 3) ? STRIDED : PACKED); mk(TWO); }
  }
  T value(int emax = Tr<T>::EMAX) {
    Source so{&c, true, Rng()};
    const Profile<T> &p = prof[c.draw(prof.size() - 1)];
    return p.elem(so, 0, Profile<T>::MINE, emax);
  }
  T special() { int k = (int)c.draw(2); return k == 0 ? (T)INFINITY : k == 1 ? (T)-INFINITY : (T)NAN; }
  void check(Slot<T> &q, const char *what, size_t at) {
    if (mode == MODEL) for (int k = 0; k < w; k++) { std::string e = q.r[0].check(q.m[k], k, q.pend == 0 && !q.neg); if (!e.empty()) FAIL("after %s, accumulator %zu component %d: %s", what, at, k, e.c_str()); }
    else { std::string e = differ(q.r[0], q.r[1]); if (!e.empty()) FAIL("after %s, accumulator %zu: %s of %s", what, at, e.c_str(), mode == FORMS ? "packed and strided form" : "complex form and two real forms"); }
    for (auto &r : q.r) { std::string g = r.gaps(); if (!g.empty()) FAIL("after %s, accumulator %zu: %s", what, at, g.c_str()); }
  }
  void renorm(size_t i) { Slot<T> &q = s[i]; if (q.pend || q.neg) { for (auto &r : q.r) r.renorm(); q.pend = 0; q.neg = false; NOTE("  renorm(%zu)", i); check(q, "renorm", i); } }
  void op_add(size_t i, bool spec) {
    Slot<T> &q = s[i]; if (q.pend >= R::ENDUR || (q.pend && q.neg) || q.cnt + 1 > cap()) { renorm(i); if (q.cnt + 1 > cap()) return; }
    T x[2]; for (int k = 0; k < w; k++) { x[k] = value(); if (spec && c.chance(1, 2)) x[k] = special(); }
    NOTE("  add(%zu, %a%s)", i, (double)x[0], w == 2 ? sfmt(" %a", (double)x[1]).c_str() : "");
    for (auto &r : q.r) r.add(x); for (int k = 0; k < w; k++) q.m[k].add(x[k]);
    q.cnt++; q.pend = 0; q.neg = false; check(q, "add", i);
  }
  void op_update(size_t i) {
    Slot<T> &q = s[i]; T x[2];
    if (w == 2 && c.chance(1, 4)) { x[0] = value(); NOTE("  update(%zu, real %a)", i, (double)x[0]); for (auto &r : q.r) r.rupdate(x[0]); for (int k = 0; k < w; k++) q.m[k].update(x[0]); }
    else { for (int k = 0; k < w; k++) x[k] = value(); NOTE("  update(%zu, %a%s)", i, (double)x[0], w == 2 ? sfmt(" %a", (double)x[1]).c_str() : ""); for (auto &r : q.r) r.update(x); for (int k = 0; k < w; k++) q.m[k].update(x[k]); }
    check(q, "update", i);
  }
  void op_deposits(size_t i, bool spec) {
    Slot<T> &q = s[i];
    for (int k = 0; k < w; k++) if (q.m[k].empty && !q.m[k].spec) { op_update(i); break; }
    if (q.neg) renorm(i);
    int room = R::ENDUR - q.pend; if (!room) { renorm(i); room = R::ENDUR; }
    if (q.cnt + R::ENDUR > cap()) return;
    int em[2]; for (int k = 0; k < w; k++) em[k] = std::max(Profile<T>::MINE, R::EMAX - R::W * std::min(q.m[k].idx, (int)R::MAXIDX));
    int how = c.weighted({5, 3, 2});
    if (how == 0) {
      int d = 1 + (int)c.draw(std::min(room - 1, 5));
      for (int j = 0; j < d; j++) {
        T x[2]; for (int k = 0; k < w; k++) { x[k] = value(em[k]); if (spec && c.chance(1, 4)) x[k] = special(); }
        NOTE("  deposit(%zu, %a%s)", i, (double)x[0], w == 2 ? sfmt(" %a", (double)x[1]).c_str() : "");
        for (auto &r : q.r) r.deposit(x); for (int k = 0; k < w; k++) q.m[k].deposit(x[k]);
      }
      q.pend += d; q.cnt += d;
    } else {
      int d = how == 1 ? room : 1 + (int)c.draw(room - 1);    // the same number again and again, up to the limit
      T x[2]; for (int k = 0; k < w; k++) { if (c.chance(1, 2)) { x[k] = (T)(std::ldexp(1.0, em[k] - 1) + (std::ldexp(1.0, em[k] - 1) - std::ldexp((double)(1 + c.draw(3)), std::max(em[k] - R::P, (int)R::EMIN)))); if (c.chance(1, 2)) x[k] = -x[k]; if (!std::isfinite(x[k])) x[k] = R::big(); } else x[k] = value(em[k]); }
      NOTE("  deposit(%zu, %a%s) x %d", i, (double)x[0], w == 2 ? sfmt(" %a", (double)x[1]).c_str() : "", d);
      for (auto &r : q.r) for (int j = 0; j < d; j++) r.deposit(x);
      for (int k = 0; k < w; k++) q.m[k].deposit(x[k], d);
      q.pend += d; q.cnt += d; if (q.pend == R::ENDUR) c.label("deposits up to the endurance");
    }
    check(q, "deposit", i);
    if (c.chance(1, 2)) renorm(i);
  }
  void op_negate(size_t i) { Slot<T> &q = s[i]; for (auto &r : q.r) r.negate(); for (auto &m : q.m) m.negate(); q.neg = true; NOTE("  negate(%zu)", i); check(q, "negate", i); }
  void op_zero(size_t i) { Slot<T> &q = s[i]; for (auto &r : q.r) r.setzero(); for (auto &m : q.m) m.setzero(); q.pend = 0; q.neg = false; q.cnt = 0; NOTE("  setzero(%zu)", i); check(q, "setzero", i); }
  void op_from(size_t i, bool spec) {
    Slot<T> &q = s[i]; T x[2]; for (int k = 0; k < w; k++) { x[k] = value(); if (spec && c.chance(1, 4)) x[k] = special(); }
    NOTE("  convert(%zu, %a%s)", i, (double)x[0], w == 2 ? sfmt(" %a", (double)x[1]).c_str() : "");
    for (auto &r : q.r) r.fromx(x); for (int k = 0; k < w; k++) { q.m[k].setzero(); q.m[k].add(x[k]); }
    q.pend = 0; q.neg = false; q.cnt = 1; check(q, "conversion from floating point", i);
  }
  void op_to(size_t i) {
    Slot<T> &q = s[i]; renorm(i); std::vector<T> v[2]; 
    std::vector<std::vector<T>> before; for (auto &r : q.r) before.push_back(r.dump());
    for (auto &r : q.r) { T x[2] = {0, 0}; r.tox(x); v[&r == &q.r[0] ? 0 : 1] = {x[0], x[1]}; }
    for (size_t j = 0; j < q.r.size(); j++) if (memcmp(before[j].data(), q.r[j].dump().data(), before[j].size() * sizeof(T))) FAIL("conversion to floating point modified accumulator %zu", i);
    NOTE("  value(%zu) = %a %a", i, (double)v[0][0], (double)v[0][1]);
    for (int k = 0; k < w; k++) {
      if (mode == MODEL) {
        T g = v[0][k];
        if (q.m[k].spec) { double e = q.m[k].special(); if (std::isnan(e) ? !std::isnan(g) : g != e) FAIL("accumulator %zu converts to %g, expected %g", i, (double)g, e); }
        else { Big b; q.m[k].value(b); std::string e = conv_ok<T>(g, b); if (!e.empty()) FAIL("accumulator %zu component %d: %s", i, k, e.c_str()); }
      } else if (std::isnan(v[0][k]) ? !std::isnan(v[1][k]) : !same_bits(v[0][k], v[1][k])) FAIL("accumulator %zu component %d converts to %a in one form and %a in the other", i, k, (double)v[0][k], (double)v[1][k]);
    }
    check(q, "conversion to floating point", i);
  }
  void op_set(size_t i, size_t j) {   // j := i
    if (i == j) return; Slot<T> &x = s[i], &y = s[j];
    auto b = x.r[0].dump();
    for (size_t t = 0; t < y.r.size(); t++) y.r[t].set(x.r[t]);
    y.m = x.m; y.pend = x.pend; y.neg = x.neg; y.cnt = x.cnt; NOTE("  set(%zu -> %zu)", i, j);
    if (memcmp(b.data(), x.r[0].dump().data(), b.size() * sizeof(T))) FAIL("set modified its source");
    for (size_t t = 0; t < y.r.size(); t++) for (int k = 0; k < w; k++) for (int h = 0; h < 2; h++) for (int e = 0; e < fold; e++) if (!same_bits(x.r[t].get(e, k, h), y.r[t].get(e, k, h))) FAIL("set copied %s %d of component %d as %a instead of %a", h ? "carry" : "primary", e, k, (double)y.r[t].get(e, k, h), (double)x.r[t].get(e, k, h));
    check(y, "set", j);
  }
  void op_rset(size_t j) {
    if (w == 1) return;
    Acc<T> x; if (mode == FORMS) x.make(c, fold, 1, true); else draw_acc(c, x, fold, 1); Model<T> m(fold); int n = (int)c.draw(4);
    for (int t = 0; t < n; t++) { T v = value(); L<T>().madd(fold, v, x.pri, x.ip, x.car, x.ic); m.add(v); }
    Slot<T> &y = s[j];
    if (mode == FORMS) {    // the strided form gets a strided source
      Acc<T> xs; xs.make(c, fold, 1, false, 1 + (int)c.draw(3), 1 + (int)c.draw(3)); for (int e = 0; e < fold; e++) { xs.pri[e * xs.ip] = x.pri[e]; xs.car[e * xs.ic] = x.car[e]; }
      y.r[0].rset(x); y.r[1].rset(xs);
    } else for (auto &r : y.r) r.rset(x);
    y.m[0] = m; y.m[1].setzero(); y.pend = 0; y.neg = false; y.cnt = n; NOTE("  set(real accumulator of %d -> %zu)", n, j);
    check(y, "set from real", j);
  }
  bool op_merge(size_t i, size_t j) {   // j += i
    if (i == j) return false; Slot<T> &x = s[i], &y = s[j];
    if (x.cnt + y.cnt > cap()) return false;
    if (x.pend) renorm(i); if (y.pend) renorm(j);
    auto b = x.r[0].dump();
    NOTE("  merge(%zu into %zu)", i, j);
    for (size_t t = 0; t < y.r.size(); t++) y.r[t].merge(x.r[t]);
    bool copied = true;
    for (int k = 0; k < w; k++) { if (!(y.m[k].empty && !y.m[k].spec)) copied = false; y.m[k].merge(x.m[k]); }
    if (x.neg || y.neg) y.neg = true;     // an empty side is taken over or left as it is
    y.cnt += x.cnt;
    if (memcmp(b.data(), x.r[0].dump().data(), b.size() * sizeof(T))) FAIL("merge modified its source");
    check(y, "merge", j);
    return true;
  }
  void op_double(size_t i, size_t j) {    // repeated doubling through a copy
    if (i == j) return; int k = 1 + (int)c.draw(c.chance(1, 2) ? 60 : 8);
    if (s[i].pend) renorm(i);
    for (; k > 0; k--) { op_set(i, j); if (!op_merge(j, i)) { c.label("capacity reached"); break; } }
  }
  void fold_scalar_state() {
    for (auto &q : s) for (auto &m : q.m) {
      if (m.spec) c.label("special"); else if (!m.empty && m.idx == 0) c.label("top bin"); else if (!m.empty && m.idx + fold > R::MAXIDX + 1) c.label("beyond the last bin");
    }
  }
};

template <class T> static void history(Ctx &c, Mode mode, int w, int focus) {
  Hist<T> h(c, mode, w); int n = 1 + (int)c.draw(3); bool spec = c.chance(1, 6);
  for (int i = 0; i < n; i++) h.fresh();
  NOTE("fold %d, %d accumulators of %s%s", h.fold, n, w == 2 ? "complex " : "", Tr<T>::nm());
  int steps = 1 + (int)c.draw(c.chance(1, 3) ? 30 : 10), kinds = 0; std::set<int> used;
  for (int t = 0; t < steps; t++) {
    size_t i = c.draw(n - 1), j = c.draw(n - 1);
    //                add upd dep ren neg zero from to set rset merge double
    int op = focus == 0 ? c.weighted({8, 5, 8, 2, 2, 1, 2, 2, 1, 1, 4, 1})
           : focus == 1 ? c.weighted({6, 2, 2, 1, 2, 1, 2, 1, 2, 1, 12, 4})
                        : c.weighted({6, 2, 2, 1, 6, 3, 2, 2, 6, 3, 6, 1});
    used.insert(op);
    switch (op) {
      case 0: h.op_add(i, spec); break; case 1: h.op_update(i); break; case 2: h.op_deposits(i, spec); break; case 3: h.renorm(i); break;
      case 4: h.op_negate(i); break; case 5: h.op_zero(i); break; case 6: h.op_from(i, spec); break; case 7: h.op_to(i); break;
      case 8: h.op_set(i, j); break; case 9: h.op_rset(j); break; case 10: h.op_merge(i, j); break; case 11: h.op_double(i, j); break;
    }
  }
  for (int i = 0; i < n; i++) h.op_to(i);
  bool content = false; for (auto &q : h.s) for (auto &m : q.m) for (auto x : m.s) if (x) content = true;
  if (used.size() >= 3 && content) c.nontrivial();
  h.fold_scalar_state(); if (h.fold > 4) c.label("fold > 4");
}

// C08: all merge trees of some accumulators give the same bits; the vector form merges element by element
template <class T> static void trees(Ctx &c, int w) {
  Hist<T> h(c, MODEL, w); int n = 2 + (int)c.draw(3); bool spec = c.chance(1, 8);
  for (int i = 0; i < n; i++) { h.fresh(); int k = (int)c.draw(3); for (int t = 0; t < k; t++) h.op_add(i, spec); if (c.chance(1, 6)) h.op_deposits(i, spec); h.renorm(i); }
  Fam<T> &f = L<T>(); int fold = h.fold;
  std::vector<T> ref; std::vector<Model<T>> tot(w, Model<T>(fold)); for (auto &q : h.s) for (int k = 0; k < w; k++) tot[k].merge(q.m[k]);
  for (int tr = 0; tr < 3; tr++) {
    std::vector<Rep<T>> a(n); std::vector<int> id(n);
    for (int i = 0; i < n; i++) { a[i].make(c, c.chance(1, 3) ? STRIDED : PACKED, fold, w); a[i].set(h.s[i].r[0]); id[i] = i; }
    if (c.chance(1, 4)) { a.emplace_back(); a.back().make(c, PACKED, fold, w); a.back().setzero(); id.push_back(-1); }   // identity
    while (a.size() > 1) {
      size_t i = c.draw(a.size() - 1), j = c.draw(a.size() - 2); if (j >= i) j++;
      NOTE("  tree %d: %d into %d", tr, id[i], id[j]);
      a[j].merge(a[i]); a.erase(a.begin() + i); id.erase(id.begin() + i);
    }
    for (int k = 0; k < w; k++) { std::string e = a[0].check(tot[k], k, true); if (!e.empty()) FAIL("tree %d component %d: %s", tr, k, e.c_str()); }
    std::vector<T> d = a[0].dump(); bool sp = false; for (auto &m : tot) sp |= m.spec != 0;
    if (tr && !sp) for (size_t e = 0; e < d.size(); e++) if (!(d[e] == ref[e])) FAIL("tree %d gives %a, tree 0 gave %a (entry %zu)", tr, (double)d[e], (double)ref[e], e);
    ref = d;
  }
  std::set<int> ix; for (auto &q : h.s) for (auto &m : q.m) if (!m.empty) ix.insert(m.idx);
  if (ix.size() >= 2) c.nontrivial(); if (ix.size() >= 2 && *ix.rbegin() - *ix.begin() < fold) c.label("overlapping windows"); else if (ix.size() >= 2) c.label("disjoint windows");
}
template <class T> static void vecadd(Ctx &c, int w) {
  Hist<T> h(c, MODEL, w); int fold = h.fold, n = (int)c.draw(8), ix = 1 + (int)c.draw(3), iy = 1 + (int)c.draw(3); bool spec = c.chance(1, 10);
  size_t sz = (size_t)2 * fold * w;   // numbers in one accumulator
  Vec<T> X, Y; X.make(c, n, (int)sz, ix); Y.make(c, n, (int)sz, iy);
  std::vector<Model<T>> mx, my; bool any = false;
  auto fill = [&](Vec<T> &V, std::vector<Model<T>> &m) {
    for (int i = 0; i < n; i++) {
      T *p = &V.at(i); memset(p, 0, sz * sizeof(T)); int k = (int)c.draw(3); std::vector<Model<T>> mm(w, Model<T>(fold));
      for (int t = 0; t < k; t++) { T x[2]; for (int q = 0; q < w; q++) { x[q] = h.value(); if (spec && c.chance(1, 6)) x[q] = h.special(); mm[q].add(x[q]); } if (w == 1) L<T>().badd(fold, x[0], p); else L<T>().cbadd(fold, x, p); }
      for (auto &q : mm) { m.push_back(q); if (!q.empty) any = true; }
    }
    V.snap();
  };
  fill(X, mx); fill(Y, my);
  NOTE("vector merge, fold %d N %d strides %d %d", fold, n, ix, iy);
  if (w == 1) L<T>().bbaddv(fold, n, X.p, ix, Y.p, iy); else L<T>().cbbaddv(fold, n, X.p, ix, Y.p, iy);
  X.unchanged("X");
  for (int i = 0; i < n; i++) for (int q = 0; q < w; q++) {
    Model<T> &m = my[i * w + q]; m.merge(mx[i * w + q]);
    std::string e = m.check(&Y.at(i) + q, w, &Y.at(i) + q + fold * w, w); if (!e.empty()) FAIL("element %d component %d: %s", i, q, e.c_str());
  }
  T z = poison<T>(); for (size_t e = 0; e < Y.cnt; e++) if ((e / sz) % iy && !same_bits(Y.p[e], z)) FAIL("gap of Y overwritten at %zu", e);
  if (any && n >= 2) c.nontrivial();
}

// C14: size, num, alloc, zero, negation
template <class T> static void layout(Ctx &c) {
  Fam<T> &f = L<T>(); int fold = (int)c.range(2, Tr<T>::MAXFOLD); bool cx = c.chance(1, 2);
  size_t sz = cx ? f.cb_size(fold) : f.b_size(fold); int num = cx ? f.cb_num(fold) : f.b_num(fold);
  NOTE("fold %d complex %d: size %zu num %d", fold, cx, sz, num);
  if (sz != (size_t)num * sizeof(T)) FAIL("size %zu is not %d numbers of %zu bytes", sz, num, sizeof(T));
  if (num != 2 * fold * (cx ? 2 : 1)) FAIL("num is %d at fold %d", num, fold);
  T *p = (T *)(cx ? (void *)f.cb_alloc(fold) : (void *)f.b_alloc(fold));
  if (!p) FAIL("allocation returned NULL");
  if (malloc_usable_size(p) < sz) FAIL("allocation of %zu usable bytes for an accumulator of %zu", malloc_usable_size(p), sz);
  memset(p, 0x5a, sz);
  if (cx) f.cbsetzero(fold, p); else f.bsetzero(fold, p);
  for (int i = 0; i < num; i++) if (p[i] != 0) FAIL("entry %d is %a after set to zero", i, (double)p[i]);
  // the accumulator in allocated memory works and equals one in guarded memory
  int w = cx ? 2 : 1; Rep<T> g; g.make(c, PACKED, fold, w); Profile<T> pr; pr.draw(c); Source so{&c, true, Rng()};
  int n = 1 + (int)c.draw(5);
  for (int i = 0; i < n; i++) { T x[2] = {pr.elem(so, i), pr.elem(so, i)}; g.add(x); if (cx) f.cbadd(fold, x, p); else f.badd(fold, x[0], p); }
  for (int i = 0; i < num; i++) if (!same_bits(p[i], g.a.pri[i])) FAIL("entry %d differs between allocated and own memory", i);
  free(p);
  // x + (-x) is zero, in whatever order; two negations restore every bit
  Rep<T> y; y.make(c, c.chance(1, 2) ? STRIDED : PACKED, fold, w); y.set(g);
  y.negate(); T v[2] = {0, 0}, u[2] = {0, 0}; y.tox(v); g.tox(u);
  for (int k = 0; k < w; k++) { Big a((double)0); if (std::isfinite(u[k]) && std::isfinite(v[k])) { double tol = 16 * (double)Tr<T>::eps() * std::fabs((double)u[k]) + std::ldexp(1.0, Tr<T>::EMIN); if (std::fabs((double)u[k] + (double)v[k]) > tol) FAIL("value %a, negated accumulator has value %a", (double)u[k], (double)v[k]); } }
  Rep<T> z; z.make(c, PACKED, fold, w); z.set(y); z.negate();
  std::string e = differ(z, g); if (!e.empty()) FAIL("two negations do not restore the accumulator: %s", e.c_str());
  Rep<T> s1, s2; s1.make(c, PACKED, fold, w); s2.make(c, PACKED, fold, w); s1.set(g); s1.merge(y); s2.set(y); s2.merge(g);
  for (auto *s : {&s1, &s2}) { T r[2] = {1, 1}; s->tox(r); for (int k = 0; k < w; k++) if (r[k] != 0) FAIL("x + (-x) converts to %a (component %d)", (double)r[k], k); }
  c.nontrivial();
}

// C12: reductions into strided accumulators equal reductions into packed ones
template <class T> static void red_forms(Ctx &c) {
  static const Red rs[] = {SUM, CSUM, ASUM, CASUM, DOT, DOTU, DOTC};
  int which = (int)c.draw(8); Fam<T> &f = L<T>(); int fold = draw_fold<T>(c);
  bool ssq = which >= 7; Red r = ssq ? (which == 7 ? SUM : CSUM) : rs[which]; RedOp<T> op{r}; int w = red_w(r), rw = ssq ? 1 : red_rw(r);
  Acc<T> a, b; a.make(c, fold, rw, true); b.make(c, fold, rw, false, 1 + (int)c.draw(3), 1 + (int)c.draw(3));
  T sa = 0, sb = 0; int rounds = 1 + (int)c.draw(2); bool any = false;
  for (int t = 0; t < rounds; t++) {
    RedData<T> d = draw_red<T>(c, r, 3000); if (c.chance(1, 10) && d.n) d.x[c.draw(d.x.size() - 1)] = c.chance(1, 2) ? (T)INFINITY : (T)NAN;
    NOTE("%s%s<%s> fold %d N %d strides %d %d x=%s", ssq ? "ssq of " : "", redname(r), Tr<T>::nm(), fold, d.n, b.ip, b.ic, show(d.x).c_str());
    Vec<T> X, Y; X.make(c, d.n, w, draw_inc(c)); X.load(d.x); if (red_two(r)) { Y.make(c, d.n, w, draw_inc(c)); Y.load(d.y); }
    if (!ssq) { op.bcall(f, fold, d.n, X.p, X.inc, Y.p, Y.inc, a.pri); op.mcall(f, fold, d.n, X.p, X.inc, Y.p, Y.inc, b.pri, b.ip, b.car, b.ic); }
    else if (w == 1) { sa = f.bssq(fold, d.n, X.p, X.inc, sa, a.pri); sb = f.mssq(fold, d.n, X.p, X.inc, sb, b.pri, b.ip, b.car, b.ic); }
    else { sa = f.cbssq(fold, d.n, X.p, X.inc, sa, a.pri); sb = f.cmssq(fold, d.n, X.p, X.inc, sb, b.pri, b.ip, b.car, b.ic); }
    if (ssq && !(sa == sb || (std::isnan(sa) && std::isnan(sb)))) FAIL("packed form returned scale %a, strided form %a", (double)sa, (double)sb);
    if (d.n > 1) any = true;
    for (int k = 0; k < rw; k++) {
      T p = a.pri[k], q = b.pri[k];
      if (!std::isfinite(p) || !std::isfinite(q)) { if (std::isnan(p) ? !std::isnan(q) : p != q) FAIL("packed holds %a, strided %a", (double)p, (double)q); continue; }
      for (int i = 0; i < fold; i++) if (!same_bits(a.pri[i * rw + k], b.pri[i * b.ip * rw + k]) || a.car[i * rw + k] != b.car[i * b.ic * rw + k])
        FAIL("component %d bin %d: packed %a %a, strided %a %a", k, i, (double)a.pri[i * rw + k], (double)a.car[i * rw + k], (double)b.pri[i * b.ip * rw + k], (double)b.car[i * b.ic * rw + k]);
    }
    std::string g = b.gaps(); if (!g.empty()) FAIL("%s", g.c_str());
  }
  if (any && (b.ip > 1 || b.ic > 1)) c.nontrivial();
}
// C12: scaled operations in strided form
template <class T> static void sq_forms(Ctx &c) {
  Fam<T> &f = L<T>(); int fold = 2 + (int)c.draw(4);
  auto mk = [&](Acc<T> &a, T &s) { a.make(c, fold, 1, true); s = 0; int n = (int)c.draw(12); std::vector<T> x = draw_data<T>(c, n); for (auto &t : x) if (c.chance(1, 40)) t = INFINITY; Vec<T> X; X.make(c, n, 1, 1); X.load(x); s = f.bssq(fold, n, X.p, 1, s, a.pri); NOTE("  x=%s scale %a", show(x).c_str(), (double)s); return n; };
  Acc<T> a, b; T sa, sb; int n = mk(a, sa) + mk(b, sb);
  auto copy = [&](const Acc<T> &p) { Acc<T> q; q.make(c, fold, 1, false, 1 + (int)c.draw(3), 1 + (int)c.draw(3)); for (int i = 0; i < fold; i++) { q.pri[i * q.ip] = p.pri[i]; q.car[i * q.ic] = p.car[i]; } return q; };
  Acc<T> as = copy(a), bs = copy(b);
  auto cmp = [&](const Acc<T> &p, const Acc<T> &q, const char *what) {
    std::string g = q.gaps(); if (!g.empty()) FAIL("%s: %s", what, g.c_str());
    if (!std::isfinite(p.pri[0]) || !std::isfinite(q.pri[0])) { if (std::isnan(p.pri[0]) ? !std::isnan(q.pri[0]) : p.pri[0] != q.pri[0]) FAIL("%s: packed holds %a, strided %a", what, (double)p.pri[0], (double)q.pri[0]); return; }
    for (int i = 0; i < fold; i++) if (!same_bits(p.pri[i], q.pri[i * q.ip]) || p.car[i] != q.car[i * q.ic]) FAIL("%s bin %d: packed %a %a, strided %a %a", what, i, (double)p.pri[i], (double)p.car[i], (double)q.pri[i * q.ip], (double)q.car[i * q.ic]);
  };
  T r1 = f.bbaddsq(fold, sa, a.pri, sb, b.pri), r2 = f.mmaddsq(fold, sa, as.pri, as.ip, as.car, as.ic, sb, bs.pri, bs.ip, bs.car, bs.ic);
  NOTE("fold %d merge of scales %a %a -> %a", fold, (double)sa, (double)sb, (double)r1);
  if (!(r1 == r2 || (std::isnan(r1) && std::isnan(r2)))) FAIL("merged scale: packed %a strided %a", (double)r1, (double)r2);
  cmp(b, bs, "scaled merge"); cmp(a, as, "source of scaled merge");
  // rescale to a larger scale, real and complex
  if (b.pri[0] != 0 && std::isfinite(b.pri[0])) {
    T X = r1 * (T)std::ldexp(1.0, Tr<T>::W * (int)c.draw(2));
    if (std::isfinite(X)) {
      Acc<T> d, ds; d.make(c, fold, 2, true); ds.make(c, fold, 2, false, 1 + (int)c.draw(3), 1 + (int)c.draw(3));
      for (int i = 0; i < fold; i++) for (int k = 0; k < 2; k++) { d.pri[2 * i + k] = ds.pri[2 * i * ds.ip + k] = k ? b.pri[i] : bs.pri[i * bs.ip]; d.car[2 * i + k] = ds.car[2 * i * ds.ic + k] = b.car[i]; }
      f.mrescale(fold, X, r1, b.pri, 1, b.car, 1); f.mrescale(fold, X, r1, bs.pri, bs.ip, bs.car, bs.ic); cmp(b, bs, "rescale");
      f.cmrescale(fold, X, r1, d.pri, 1, d.car, 1); f.cmrescale(fold, X, r1, ds.pri, ds.ip, ds.car, ds.ic);
      std::string g = ds.gaps(); if (!g.empty()) FAIL("complex rescale: %s", g.c_str());
      for (int i = 0; i < fold; i++) for (int k = 0; k < 2; k++) if (!same_bits(d.pri[2 * i + k], ds.pri[2 * i * ds.ip + k]) || d.car[2 * i + k] != ds.car[2 * i * ds.ic + k]) FAIL("complex rescale bin %d component %d differs", i, k);
    }
  }
  if (n >= 2 && (as.ip > 1 || as.ic > 1 || bs.ip > 1 || bs.ic > 1)) c.nontrivial();
}

// C13: complex reductions against real reductions of the parts
template <class T> static void red_parts(Ctx &c) {
  Fam<T> &f = L<T>(); int fold = draw_fold<T>(c); int n = draw_n(c, 5000);
  std::vector<T> re = draw_data<T>(c, n), im = c.chance(1, 3) ? re : draw_data<T>(c, n), x(2 * n);
  if (c.chance(1, 5) && n) (c.chance(1, 2) ? re : im)[c.draw(n - 1)] = c.chance(1, 2) ? (T)-INFINITY : (T)NAN;
  for (int i = 0; i < n; i++) { x[2 * i] = re[i]; x[2 * i + 1] = im[i]; }
  int how = (int)c.draw(3); Vec<T> X; X.make(c, n, 2, draw_inc(c)); X.load(x);
  NOTE("fold %d N %d form %d re=%s im=%s", fold, n, how, show(re).c_str(), show(im).c_str());
  Rep<T> z, t; z.make(c, how & 1 ? STRIDED : PACKED, fold, 2); t.make(c, TWO, fold, 2);
  if (c.chance(1, 2)) { T v[2]; Source so{&c, true, Rng()}; Profile<T> p; p.draw(c); v[0] = p.elem(so, 0); p.draw(c); v[1] = p.elem(so, 0); z.add(v); t.add(v); NOTE("  starting from %a %a", (double)v[0], (double)v[1]); }
  if (z.a.packed) f.cbsum(fold, n, X.p, X.inc, z.a.pri); else f.cmsum(fold, n, X.p, X.inc, z.a.pri, z.a.ip, z.a.car, z.a.ic);
  f.msum(fold, n, X.p, 2 * X.inc, t.a.pri, t.a.ip, t.a.car, t.a.ic);
  if (n) f.msum(fold, n, X.p + 1, 2 * X.inc, t.im.pri, t.im.ip, t.im.car, t.im.ic);
  std::string e = differ(z, t); if (!e.empty()) FAIL("complex sum against sums of the parts: %s", e.c_str());
  T r[2]; f.rcsum(fold, n, X.p, X.inc, r); T a = f.rsum(fold, n, X.p, 2 * X.inc), b = n ? f.rsum(fold, n, X.p + 1, 2 * X.inc) : 0;
  if ((std::isnan(a) ? !std::isnan(r[0]) : !same_bits(a, r[0])) || (std::isnan(b) ? !std::isnan(r[1]) : !same_bits(b, r[1]))) FAIL("complex sum %a %a, sums of the parts %a %a", (double)r[0], (double)r[1], (double)a, (double)b);
  if (n >= 2) c.nontrivial(); X.unchanged("X");
}

int main(int argc, char **argv) {
  Engine e; std::string prop;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
  auto hist4 = [&](Mode m, int focus, int wt) {
    e.tests.push_back({"history_d", wt, [=](Ctx &c) { history<double>(c, m, 1, focus); }}); e.tests.push_back({"history_z", wt, [=](Ctx &c) { history<double>(c, m, 2, focus); }});
    e.tests.push_back({"history_s", wt, [=](Ctx &c) { history<float>(c, m, 1, focus); }}); e.tests.push_back({"history_c", wt, [=](Ctx &c) { history<float>(c, m, 2, focus); }});
  };
#define PAIR(name, fn, wt) e.tests.push_back({name "_d", wt, [](Ctx &c) { fn<double>(c); }}); e.tests.push_back({name "_s", wt, [](Ctx &c) { fn<float>(c); }});
  if (prop == "C07") hist4(MODEL, 0, 1);
  if (prop == "C08") {
    hist4(MODEL, 1, 2);
    e.tests.push_back({"trees_d", 2, [](Ctx &c) { trees<double>(c, 1); }}); e.tests.push_back({"trees_z", 2, [](Ctx &c) { trees<double>(c, 2); }});
    e.tests.push_back({"trees_s", 2, [](Ctx &c) { trees<float>(c, 1); }}); e.tests.push_back({"trees_c", 2, [](Ctx &c) { trees<float>(c, 2); }});
    e.tests.push_back({"vecadd_d", 1, [](Ctx &c) { vecadd<double>(c, 1); }}); e.tests.push_back({"vecadd_z", 1, [](Ctx &c) { vecadd<double>(c, 2); }});
    e.tests.push_back({"vecadd_s", 1, [](Ctx &c) { vecadd<float>(c, 1); }}); e.tests.push_back({"vecadd_c", 1, [](Ctx &c) { vecadd<float>(c, 2); }});
  }
  if (prop == "C12") { hist4(FORMS, 0, 2); PAIR("reductions", red_forms, 2) PAIR("scaled", sq_forms, 1) }
  if (prop == "C13") {
    e.tests.push_back({"history_z", 2, [](Ctx &c) { history<double>(c, PARTS, 2, c.chance(1, 2) ? 0 : 2); }}); e.tests.push_back({"history_c", 2, [](Ctx &c) { history<float>(c, PARTS, 2, c.chance(1, 2) ? 0 : 2); }});
    PAIR("sums", red_parts, 1)
  }
  if (prop == "C14") { hist4(MODEL, 2, 1); PAIR("layout", layout, 2) }
  return engine_main(argc, argv, e);
}
