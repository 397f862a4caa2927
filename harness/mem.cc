// C21: the other harnesses' calls against a library built with AddressSanitizer and UndefinedBehaviorSanitizer,
// operands in exactly sized blocks, fresh memory filled with NaN patterns; plus a balance of live memory.
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#define main hist_main
#include "hist.cc"
#undef main
#define main mat_main
#define reference mat_reference
#define accuracy mat_accuracy
#include "mat.cc"
#undef main
#include "ops.h"

template <class T> static void calls(Ctx &c) {
  RunOp<T> op; op.draw(c, false, 3000); NOTE("%s", op.str().c_str());
  Arena &A = Arena::get(); size_t keep = A.heap.size();
  auto trim = [&] { while (A.heap.size() > keep) { free(A.heap.back()); A.heap.pop_back(); } A.heap.reserve(keep + 64); };
  size_t live[5]; std::string e;
  // the first run makes its draws (strides of the results); the repetitions get the same ones
  std::vector<T> first; uint64_t n0 = c.shm->n, n1 = 0; std::vector<uint64_t> seq;
  for (int k = 0; k < 5; k++) {
    if (k == 0) { first = op.run(c, L<T>(), false); n1 = c.shm->n; seq.assign(c.shm->choices, c.shm->choices + n1); }
    else {
      Ctx c2; c2.shm = c.shm; c2.prefix = &seq; c.shm->n = n0;
      { std::vector<T> r = op.run(c2, L<T>(), false); e = op.compare(first, r); }
      if (c.shm->n != n1) throw HarnessError{"the repetition drew something else"};
      if (!e.empty()) FAIL("a repeated call differs from the first: %s", e.c_str());
    }
    trim();
    live[k] = __sanitizer_get_current_allocated_bytes();
    if (k == 2 && live[2] <= live[1]) break;
    if (k == 4 && live[2] > live[1] && live[3] > live[2] && live[4] > live[3]) FAIL("memory grows with every call: %zu, %zu, %zu, %zu, %zu bytes live", live[0], live[1], live[2], live[3], live[4]);
  }
  if (op.interesting()) c.nontrivial();
}
// routines outside the kernels: a call repeated must not grow the heap
template <class T> static void balance(Ctx &c) {
  Fam<T> &f = L<T>(); int fold = draw_fold<T>(c); Acc<T> a, b, z, y; a.make(c, fold, 1); b.make(c, fold, 1); z.make(c, fold, 2); y.make(c, fold, 2);
  std::vector<T> d = draw_data<T>(c, 8, Tr<T>::MINEXP / 4, Tr<T>::EMAX / 4); T s1 = f.bssq(fold, 3, d.data(), 1, 0, a.pri), s2 = f.bssq(fold, 2, d.data() + 3, 1, 0, b.pri);
  int which = (int)c.draw(13); T out[2]; NOTE("%s fold %d routine %d data %s", Tr<T>::nm(), fold, which, show(d).c_str());
  for (int i = 0; i < 4; i++) f.cbadd(fold, &d[2 * i], z.pri);
  size_t live[5];
  auto one = [&] {
    switch (which) {
      case 0: s2 = f.bbaddsq(fold, s1, a.pri, s2, b.pri); break;
      case 1: s2 = f.mmaddsq(fold, s1, a.pri, 1, a.car, 1, s2, b.pri, 1, b.car, 1); break;
      case 2: f.bbadd(fold, a.pri, b.pri); break;
      case 3: f.cbbadd(fold, z.pri, y.pri); break;
      case 4: f.bbaddv(fold, 1, a.pri, 1, b.pri, 1); break;
      case 5: f.cbbaddv(fold, 1, z.pri, 1, y.pri, 1); break;
      case 6: out[0] = f.rbconv(fold, a.pri); break;
      case 7: f.ccbconv(fold, z.pri, out); break;
      case 8: f.bconv(fold, d[0], b.pri); break;
      case 9: f.cbconv(fold, d.data(), y.pri); break;
      case 10: f.bset(fold, a.pri, b.pri); f.cbset(fold, z.pri, y.pri); f.cbrset(fold, a.pri, y.pri); break;
      case 11: f.bnegate(fold, a.pri); f.cbnegate(fold, z.pri); f.brenorm(fold, a.pri); f.cbrenorm(fold, z.pri); break;
      case 12: { T up = std::max(s1, (T)1) ; f.mrescale(fold, up, s1 == 0 ? (T)1 : s1, a.pri, 1, a.car, 1); break; }
      case 13: { void *p = f.b_alloc(fold), *q = f.cb_alloc(fold); memset(p, 1, f.b_size(fold)); memset(q, 1, f.cb_size(fold)); free(p); free(q); break; }
    }
  };
  for (int k = 0; k < 5; k++) { one(); live[k] = __sanitizer_get_current_allocated_bytes(); }
  if (live[1] > live[0] && live[2] > live[1] && live[3] > live[2] && live[4] > live[3]) FAIL("memory grows with every call: %zu, %zu, %zu, %zu, %zu bytes live", live[0], live[1], live[2], live[3], live[4]);
  c.nontrivial();
}

int main(int argc, char **argv) {
  Engine e; 
  PAIR("calls", calls, 6) PAIR("balance", balance, 1) PAIR("scaled", sq_forms, 1) PAIR("reductions", red_forms, 1)
  for (int mm = 0; mm < 2; mm++) for (int w = 1; w < 3; w++) {
    static const char *n[] = {"gemv_d", "gemv_s", "gemv_z", "gemv_c", "gemm_d", "gemm_s", "gemm_z", "gemm_c"}; int k = mm * 4 + (w - 1) * 2;
    e.tests.push_back({n[k], 1, [=](Ctx &c) { products<double>(c, mm, w); }}); e.tests.push_back({n[k + 1], 1, [=](Ctx &c) { products<float>(c, mm, w); }});
  }
  e.tests.push_back({"history_d", 1, [=](Ctx &c) { history<double>(c, FORMS, 1, 0); }}); e.tests.push_back({"history_z", 1, [=](Ctx &c) { history<double>(c, FORMS, 2, 0); }});
  e.tests.push_back({"history_s", 1, [=](Ctx &c) { history<float>(c, FORMS, 1, 0); }}); e.tests.push_back({"history_c", 1, [=](Ctx &c) { history<float>(c, FORMS, 2, 0); }});
  e.tests.push_back({"vecadd_d", 1, [](Ctx &c) { vecadd<double>(c, 1); }}); e.tests.push_back({"vecadd_z", 1, [](Ctx &c) { vecadd<double>(c, 2); }});
  e.tests.push_back({"vecadd_s", 1, [](Ctx &c) { vecadd<float>(c, 1); }}); e.tests.push_back({"vecadd_c", 1, [](Ctx &c) { vecadd<float>(c, 2); }});
  return engine_main(argc, argv, e);
}
