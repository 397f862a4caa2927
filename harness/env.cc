// C32: calls leave the floating-point environment as they found it, and data clear of the underflow range does not feel it.
#include "ops.h"
#include "state.h"
#include <xmmintrin.h>

// A drawn environment, entered on construction and left again on destruction (also when the case fails).
struct Env {
  unsigned csr0, csr; unsigned short cw0, cw;
  static unsigned getcsr() { return _mm_getcsr(); }
  static unsigned short getcw() { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); return w; }
  static void setcw(unsigned short w) { asm volatile("fldcw %0" : : "m"(w)); }
  static unsigned drawcsr(Ctx &c, bool flush_only) {
    unsigned m = 0x1f80;
    if (c.chance(2, 3)) m |= 0x8000;                                     // results below the normal range become zero
    if (c.chance(2, 3)) m |= 0x40;                                       // and so do operands
    if (!flush_only) { if (c.chance(1, 4)) m |= (unsigned)c.draw(3) << 13; m |= (unsigned)c.draw(63); }   // rounding, flags already raised
    return m;
  }
  static unsigned short drawcw(Ctx &c) { unsigned short w = 0x37f; if (c.chance(1, 3)) { static const unsigned short pc[] = {0x300, 0x200, 0}; w = (unsigned short)(0x7f | pc[c.draw(2)] | (c.draw(3) << 10)); } return w; }
  Env(unsigned m, unsigned short w) : csr0(getcsr()), csr(m), cw0(getcw()), cw(w) { setcw(cw); _mm_setcsr(csr); }
  ~Env() { _mm_setcsr(csr0 & ~0x3fu); setcw(cw0); }
  // what has become of it: "" if only flags were raised
  static std::string check(unsigned want, unsigned short wcw, unsigned csr, unsigned short cw) {
    if ((csr ^ want) & ~0x3fu & 0xffff) return sfmt("the control word was 0x%04x (rounding %u, flush %u, denormals as zero %u, masks 0x%02x) and is 0x%04x", want & ~0x3fu, want >> 13 & 3, want >> 15 & 1, want >> 6 & 1, want >> 7 & 63, csr & ~0x3fu);
    if ((want & 0x3f) & ~csr) return sfmt("exception flags 0x%02x were raised and are now 0x%02x", want & 0x3f, csr & 0x3f);
    if (cw != wcw) return sfmt("the x87 control word was 0x%04x and is 0x%04x", wcw, cw);
    return "";
  }
};
// runs f in the environment; the environment afterwards
template <class F> static void within(unsigned m, unsigned short w, F f) {
  unsigned csr; unsigned short cw;
  { Env e(m, w); f(); csr = Env::getcsr(); cw = Env::getcw(); }
  std::string s = Env::check(m, w, csr, cw); if (!s.empty()) FAIL("%s", s.c_str());
}

template <class T> static void calls(Ctx &c) {
  RunOp<T> op; op.draw(c, false, 2000); unsigned m = Env::drawcsr(c, false); unsigned short w = Env::drawcw(c); NOTE("%s\n in control word 0x%04x, x87 0x%04x", op.str().c_str(), m, w);
  bool deflt = op.form == 0 && c.chance(1, 4); if (deflt) { op.fold = Tr<T>::DEFFOLD; op.m.fold = op.fold; }
  within(m, w, [&] { op.run(c, L<T>(), deflt); });
  if (op.interesting() && m != 0x1f80) c.nontrivial();
}

// every operation on accumulators
template <class T> static void states(Ctx &c) {
  Fam<T> &f = L<T>(); int fold = draw_fold<T>(c), w = 1 + (int)c.draw(1); Acc<T> a, b; draw_acc(c, a, fold, w); draw_acc(c, b, fold, w);
  for (int k = 0; k < w; k++) { a.load(draw_state<T>(c, fold), k); b.load(draw_state<T>(c, fold), k); }
  unsigned m = Env::drawcsr(c, false); unsigned short cw = Env::drawcw(c); bool sp = c.chance(1, 8);
  T x[2], r[2]; for (int k = 0; k < 2; k++) { Profile<T> p; p.draw(c); Source s{&c, true, Rng()}; x[k] = p.elem(s, k, Profile<T>::MINE, Tr<T>::EMAX); }
  if (sp) { static const double q[] = {INFINITY, -INFINITY, NAN}; x[0] = (T)q[c.draw(2)]; }
  bool pk = a.packed && b.packed; std::string what; int steps = 1 + (int)c.draw(5); NOTE("fold %d parts %d x %a %a control word 0x%04x x87 0x%04x", fold, w, (double)x[0], (double)x[1], m, cw);
  // keeps to one magnitude once started: the window only has to fit the numbers deposited
  for (int i = 0; i < steps; i++) {
    int o = (int)c.draw(13); T big = (T)std::ldexp(1.0, Tr<T>::EMAX - 1);
    auto one = [&] {
      switch (o) {
        case 0: if (w == 1) { if (a.packed) f.badd(fold, x[0], a.pri); else f.madd(fold, x[0], a.pri, a.ip, a.car, a.ic); } else { if (a.packed) f.cbadd(fold, x, a.pri); else f.cmadd(fold, x, a.pri, a.ip, a.car, a.ic); } break;
        case 1: if (w == 1) { if (a.packed) f.brenorm(fold, a.pri); else f.mrenorm(fold, a.pri, a.ip, a.car, a.ic); } else { if (a.packed) f.cbrenorm(fold, a.pri); else f.cmrenorm(fold, a.pri, a.ip, a.car, a.ic); } break;
        case 2: if (w == 1) r[0] = a.packed ? f.rbconv(fold, a.pri) : f.rmconv(fold, a.pri, a.ip, a.car, a.ic); else { if (a.packed) f.ccbconv(fold, a.pri, r); else f.ccmconv(fold, a.pri, a.ip, a.car, a.ic, r); } break;
        case 3: if (w == 1) { if (pk) f.bbadd(fold, a.pri, b.pri); else f.mmadd(fold, a.pri, a.ip, a.car, a.ic, b.pri, b.ip, b.car, b.ic); } else { if (pk) f.cbbadd(fold, a.pri, b.pri); else f.cmmadd(fold, a.pri, a.ip, a.car, a.ic, b.pri, b.ip, b.car, b.ic); } break;
        case 4: if (w == 1) { if (a.packed) f.bnegate(fold, a.pri); else f.mnegate(fold, a.pri, a.ip, a.car, a.ic); } else { if (a.packed) f.cbnegate(fold, a.pri); else f.cmnegate(fold, a.pri, a.ip, a.car, a.ic); } break;
        case 5: if (w == 1) { if (pk) f.bset(fold, a.pri, b.pri); else f.mset(fold, a.pri, a.ip, a.car, a.ic, b.pri, b.ip, b.car, b.ic); } else { if (pk) f.cbset(fold, a.pri, b.pri); else f.cmset(fold, a.pri, a.ip, a.car, a.ic, b.pri, b.ip, b.car, b.ic); } break;
        case 6: if (w == 1) { if (a.packed) f.bupdate(fold, x[0], a.pri); else f.mupdate(fold, x[0], a.pri, a.ip, a.car, a.ic); } else { if (a.packed) f.cbupdate(fold, x, a.pri); else f.cmupdate(fold, x, a.pri, a.ip, a.car, a.ic); } break;
        case 7: if (w == 1) { if (a.packed) f.bconv(fold, x[0], a.pri); else f.mconv(fold, x[0], a.pri, a.ip, a.car, a.ic); } else { if (a.packed) f.cbconv(fold, x, a.pri); else f.cmconv(fold, x, a.pri, a.ip, a.car, a.ic); } break;
        case 8: f.index(x[0]); f.mindex(a.pri); f.mindex0(a.pri); f.mdenorm(fold, a.pri); f.cmdenorm(fold, a.pri); f.ufp(x[0]); f.bins(0); break;
        case 9: f.scale(x[0]); f.bound(fold, 1 + (int)(i % 7), std::fabs(x[0]), x[1]); break;
        case 10: if (w == 1) { if (a.packed) f.bsetzero(fold, a.pri); else f.msetzero(fold, a.pri, a.ip, a.car, a.ic); } else { if (a.packed) f.cbsetzero(fold, a.pri); else f.cmsetzero(fold, a.pri, a.ip, a.car, a.ic); } break;
        case 11: if (w == 1) f.mmaddsq(fold, 1, a.pri, a.ip, a.car, a.ic, 1, b.pri, b.ip, b.car, b.ic); break;
        case 12: if (w == 1) f.mrescale(fold, big, 1, a.pri, a.ip, a.car, a.ic); break;
        case 13: if (w == 1) { if (a.packed) f.bdeposit(fold, (T)0, a.pri); else f.mdeposit(fold, (T)0, a.pri, a.ip); } break;
      }
    };
    NOTE(" operation %d", o);
    within(m, cw, one);
  }
  if (m != 0x1f80 && steps > 1) c.nontrivial();
}
template <class T> static void same(Ctx &c) {
  typedef Tr<T> R; RunOp<T> op; op.draw(c, false, 2000); unsigned m = Env::drawcsr(c, true); NOTE("%s\n in control word 0x%04x", op.str().c_str(), m);
  // the smallest non-zero numbers' products, and what the fold keeps of them, stay normal
  double lo = INFINITY, hi = 0; auto see = [&](const std::vector<T> &v) { for (T x : v) if (x != 0) { double q = std::fabs((double)x); if (std::isfinite(q)) { lo = std::min(lo, q); hi = std::max(hi, q); } } };
  see(op.d.x); see(op.d.y); see(op.start);
  if (op.kind >= 4) { see(op.m.A); see(op.m.B); see(op.m.Y); for (int k = 0; k < op.w; k++) { std::vector<T> ab{op.m.alpha[k], op.m.beta[k]}; see(ab); } }
  int e = (R::MINEXP + 2 * R::P) / (op.kind >= 4 ? 4 : 2); if (lo < std::ldexp(1.0, e)) return;
  if (op.kind == 1 && lo < hi * std::ldexp(1.0, e)) return;
  std::vector<T> u = op.run(c, L<T>()), v; { Env en(m, 0x37f); v = op.run(c, L<T>()); }
  std::string s = op.compare(u, v); if (!s.empty()) FAIL("with underflow flushed to zero, though nothing underflows: %s", s.c_str());
  if (op.interesting() && m != 0x1f80) c.nontrivial();
}
// what the denormal test promises: an accumulator it clears can be used with denormals taken as zero
template <class T> static void guard(Ctx &c) {
  Fam<T> &f = L<T>(); int fold = draw_fold<T>(c); Acc<T> a, a2, b, b2; draw_acc(c, a, fold, 1); draw_acc(c, b, fold, 1);
  Model<T> ma = draw_state<T>(c, fold), mb = draw_state<T>(c, fold); unsigned m = Env::drawcsr(c, true); if (m == 0x1f80) m |= 0x8040;
  int o = (int)c.draw(3);
  auto prep = [&] { a.load(ma, 0); b.load(mb, 0); };
  auto go = [&](T *r) {
    switch (o) { case 0: *r = a.packed ? f.rbconv(fold, a.pri) : f.rmconv(fold, a.pri, a.ip, a.car, a.ic); break;
      case 1: f.mmadd(fold, a.pri, a.ip, a.car, a.ic, b.pri, b.ip, b.car, b.ic); break;
      case 2: f.mnegate(fold, a.pri, a.ip, a.car, a.ic); break;
      case 3: f.mrenorm(fold, a.pri, a.ip, a.car, a.ic); break; } };
  prep(); bool d = f.mdenorm(fold, a.pri) || f.mdenorm(fold, b.pri); NOTE("operation %d fold %d bins %d and %d: test says %d, control word 0x%04x", o, fold, ma.idx, mb.idx, d, m);
  if (d) { c.label("has denormals"); return; }
  T r = 0, q = 0; go(&r); std::vector<T> A = a.dump(), B = b.dump(); prep(); { Env en(m, 0x37f); go(&q); }
  std::vector<T> A2 = a.dump(), B2 = b.dump();
  if (!same_val(r, q)) FAIL("converts to %a, and to %a with denormals flushed", (double)r, (double)q);
  if (memcmp(A.data(), A2.data(), A.size() * sizeof(T)) || memcmp(B.data(), B2.data(), B.size() * sizeof(T))) FAIL("the accumulator differs with denormals flushed");
  c.nontrivial();
}

int main(int argc, char **argv) {
  Engine e;
#define PAIR(name, fn, wt) e.tests.push_back({name "_d", wt, [](Ctx &c) { fn<double>(c); }}); e.tests.push_back({name "_s", wt, [](Ctx &c) { fn<float>(c); }});
  PAIR("calls", calls, 3) PAIR("states", states, 2) PAIR("same", same, 3) PAIR("guard", guard, 1)
  return engine_main(argc, argv, e);
}
