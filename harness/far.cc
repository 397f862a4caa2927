// C34: operands of any extent: elements further apart than an int can count, and vectors as long as an int can count.
#include "ops.h"
#include "long.h"

template <class T> static void far_calls(Ctx &c) {
  RunOp<T> op; op.draw(c, c.chance(1, 2), 300);
  if (op.kind >= 4) { const Shape &s = op.m.s; if (std::max(s.R, std::max(s.C, s.K)) > 600) { c.label("shape left out"); return; } }
  bool deflt = op.form == 0 && c.chance(1, 4); if (deflt) { op.fold = Tr<T>::DEFFOLD; op.m.fold = op.fold; }
  Fam<T> &f = L<T>(); NOTE("near: %s", op.str().c_str()); std::vector<T> u = op.run(c, f, deflt), v;
  FarScope scope; int64_t ext = 0; auto see = [&](int64_t n, int64_t step) { ext = std::max(ext, (n - 1) * step); };
  if (op.kind >= 4) { op.p.make(c, op.m); see(op.p.A.rm ? op.p.A.rows : op.p.A.cols, op.p.A.ld); if (op.m.mm) see(op.p.B.rm ? op.p.B.rows : op.p.B.cols, op.p.B.ld); else see(op.p.X.n, op.p.X.inc); }
  else { bool two = op.Y.p != nullptr; op.X.make(c, op.d.n, op.w, 1); op.X.load(op.d.x); see(op.X.n, op.X.inc); if (two) { op.Y.make(c, op.d.n, op.w, 1); op.Y.load(op.d.y); see(op.Y.n, op.Y.inc); } }
  NOTE("far: %s", op.str().c_str()); v = op.run(c, f, deflt);
  std::string s = op.compare(u, v); if (!s.empty()) FAIL("the result depends on how far the elements are apart: %s", s.c_str());
  if (op.interesting() && ext * op.w > (int64_t)INT32_MAX) c.nontrivial();
  c.label(ext * op.w > (int64_t)INT32_MAX ? "an operand extends over more than 2^31 numbers" : "less");
}

template <class T> static void huge_amax(Ctx &c) {
  typedef Tr<T> R; Fam<T> &f = L<T>(); bool prod = c.draw(1), cx = c.draw(1); int w = cx ? 2 : 1, b = 1 + (int)c.draw(300), e1 = R::EMAX, e2 = R::EMAX;
  if (prod) draw_pair_range<T>(c, e1, e2);
  std::vector<T> x = draw_data<T>(c, (size_t)b * w, Profile<T>::MINE, e1), y; if (prod) y = draw_data<T>(c, (size_t)b * w, Profile<T>::MINE, e2);
  int n = long_n(c, b, true); NOTE("amax%s <%s> complex=%d N=%d x=%s y=%s over and over", prod ? "m" : "", R::nm(), cx, n, show(x).c_str(), show(y).c_str());
  T want[2] = {0, 0}, got[2] = {-1, -1}; auto up = [&](int k, T v) { v = std::fabs(v); if (v > want[k]) want[k] = v; };
  for (int i = 0; i < std::min(n, b); i++) for (int k = 0; k < w; k++) {
    if (!prod) { up(k, x[(size_t)i * w + k]); continue; }
    if (!cx) { up(0, x[i] * y[i]); continue; }
    if (k == 0) { up(0, x[2 * i] * y[2 * i]); up(0, x[2 * i + 1] * y[2 * i + 1]); } else { up(1, x[2 * i] * y[2 * i + 1]); up(1, x[2 * i + 1] * y[2 * i]); }
  }
  Tiles<T> X, Y; X.make(x, (size_t)n * w); if (prod) Y.make(y, (size_t)n * w);
  if (!prod) { if (cx) f.camax(n, X.p, 1, got); else got[0] = f.amax(n, X.p, 1); } else { if (cx) f.camaxm(n, X.p, 1, Y.p, 1, got); else got[0] = f.amaxm(n, X.p, 1, Y.p, 1); }
  for (int k = 0; k < w; k++) if (got[k] != want[k]) FAIL("part %d is %a, expected %a", k, (double)got[k], (double)want[k]);
  c.nontrivial(); long_label(c, n);
}

int main(int argc, char **argv) {
  Engine e;
#define PAIR(name, fn, wt) e.tests.push_back({name "_d", wt, [](Ctx &c) { fn<double>(c); }}); e.tests.push_back({name "_s", wt, [](Ctx &c) { fn<float>(c); }});
  PAIR("far", far_calls, 2000)
  e.tests.push_back({"huge_red_d", 6, [](Ctx &c) { longred<double>(c, (Red)c.draw(6), true); }}); e.tests.push_back({"huge_red_s", 6, [](Ctx &c) { longred<float>(c, (Red)c.draw(6), true); }});
  e.tests.push_back({"huge_norm_d", 2, [](Ctx &c) { longnorm<double>(c, c.draw(1), true); }}); e.tests.push_back({"huge_norm_s", 2, [](Ctx &c) { longnorm<float>(c, c.draw(1), true); }});
  PAIR("huge_amax", huge_amax, 1)
  return engine_main(argc, argv, e);
}
