// Function tables over the libraries under test. Names and types come from the project's public
// headers; one table per built variant, loaded with dlopen.
#pragma once
#include <complex>
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <cfloat>
#include <dlfcn.h>
#include <complex.h>
#include "engine.h"
extern "C" {
#include "binned.h"
#include "reproBLAS.h"
#include "binnedBLAS.h"
}

// F(member, function): r = d/s, z = z/c
#define FAM_BINNED(F, r, z, RBSIZE, UFPNAME) \
  F(b_size, binned_##RBSIZE) F(cb_size, binned_##z##bsize) F(b_alloc, binned_##r##balloc) F(cb_alloc, binned_##z##balloc) \
  F(b_num, binned_##r##bnum) F(cb_num, binned_##z##bnum) F(bound, binned_##r##bbound) F(bins, binned_##r##mbins) \
  F(index, binned_##r##index) F(mindex, binned_##r##mindex) F(mindex0, binned_##r##mindex0) \
  F(mdenorm, binned_##r##mdenorm) F(cmdenorm, binned_##z##mdenorm) \
  F(bprint, binned_##r##bprint) F(mprint, binned_##r##mprint) F(cbprint, binned_##z##bprint) F(cmprint, binned_##z##mprint) \
  F(bset, binned_##r##b##r##bset) F(mset, binned_##r##m##r##mset) F(cbset, binned_##z##b##z##bset) F(cmset, binned_##z##m##z##mset) \
  F(cbrset, binned_##z##b##r##bset) F(cmrset, binned_##z##m##r##mset) \
  F(bsetzero, binned_##r##bsetzero) F(msetzero, binned_##r##msetzero) F(cbsetzero, binned_##z##bsetzero) F(cmsetzero, binned_##z##msetzero) \
  F(bbadd, binned_##r##b##r##badd) F(mmadd, binned_##r##m##r##madd) F(cbbadd, binned_##z##b##z##badd) F(cmmadd, binned_##z##m##z##madd) \
  F(bbaddv, binned_##r##b##r##baddv) F(cbbaddv, binned_##z##b##z##baddv) \
  F(badd, binned_##r##b##r##add) F(madd, binned_##r##m##r##add) F(cbadd, binned_##z##b##z##add) F(cmadd, binned_##z##m##z##add) \
  F(bupdate, binned_##r##b##r##update) F(mupdate, binned_##r##m##r##update) F(cbupdate, binned_##z##b##z##update) F(cmupdate, binned_##z##m##z##update) \
  F(cbrupdate, binned_##z##b##r##update) F(cmrupdate, binned_##z##m##r##update) \
  F(bdeposit, binned_##r##b##r##deposit) F(mdeposit, binned_##r##m##r##deposit) F(cbdeposit, binned_##z##b##z##deposit) F(cmdeposit, binned_##z##m##z##deposit) \
  F(brenorm, binned_##r##brenorm) F(mrenorm, binned_##r##mrenorm) F(cbrenorm, binned_##z##brenorm) F(cmrenorm, binned_##z##mrenorm) \
  F(bconv, binned_##r##b##r##conv) F(mconv, binned_##r##m##r##conv) F(cbconv, binned_##z##b##z##conv) F(cmconv, binned_##z##m##z##conv) \
  F(rbconv, binned_##r##r##bconv) F(rmconv, binned_##r##r##mconv) F(ccbconv, binned_##z##z##bconv_sub) F(ccmconv, binned_##z##z##mconv_sub) \
  F(bnegate, binned_##r##bnegate) F(mnegate, binned_##r##mnegate) F(cbnegate, binned_##z##bnegate) F(cmnegate, binned_##z##mnegate) \
  F(scale, binned_##r##scale) F(mrescale, binned_##r##m##r##rescale) F(cmrescale, binned_##z##m##r##rescale) \
  F(mmaddsq, binned_##r##m##r##maddsq) F(bbaddsq, binned_##r##b##r##baddsq) F(ufp, binned_##UFPNAME)

#define FAM_BLAS(F, r, z) \
  F(amax, binnedBLAS_##r##amax) F(camax, binnedBLAS_##z##amax_sub) F(amaxm, binnedBLAS_##r##amaxm) F(camaxm, binnedBLAS_##z##amaxm_sub) \
  F(bsum, binnedBLAS_##r##b##r##sum) F(msum, binnedBLAS_##r##m##r##sum) F(basum, binnedBLAS_##r##b##r##asum) F(masum, binnedBLAS_##r##m##r##asum) \
  F(bssq, binnedBLAS_##r##b##r##ssq) F(mssq, binnedBLAS_##r##m##r##ssq) F(bdot, binnedBLAS_##r##b##r##dot) F(mdot, binnedBLAS_##r##m##r##dot) \
  F(cbsum, binnedBLAS_##z##b##z##sum) F(cmsum, binnedBLAS_##z##m##z##sum) F(cbasum, binnedBLAS_##r##b##z##asum) F(cmasum, binnedBLAS_##r##m##z##asum) \
  F(cbssq, binnedBLAS_##r##b##z##ssq) F(cmssq, binnedBLAS_##r##m##z##ssq) F(cbdotu, binnedBLAS_##z##b##z##dotu) F(cmdotu, binnedBLAS_##z##m##z##dotu) \
  F(cbdotc, binnedBLAS_##z##b##z##dotc) F(cmdotc, binnedBLAS_##z##m##z##dotc) \
  F(bgemv, binnedBLAS_##r##b##r##gemv) F(bgemm, binnedBLAS_##r##b##r##gemm) F(cbgemv, binnedBLAS_##z##b##z##gemv) F(cbgemm, binnedBLAS_##z##b##z##gemm) \
  F(rsum, reproBLAS_r##r##sum) F(rasum, reproBLAS_r##r##asum) F(rnrm2, reproBLAS_r##r##nrm2) F(rdot, reproBLAS_r##r##dot) \
  F(rcsum, reproBLAS_r##z##sum_sub) F(rcasum, reproBLAS_r##r##z##asum) F(rcnrm2, reproBLAS_r##r##z##nrm2) \
  F(rcdotu, reproBLAS_r##z##dotu_sub) F(rcdotc, reproBLAS_r##z##dotc_sub) \
  F(rgemv, reproBLAS_r##r##gemv) F(rgemm, reproBLAS_r##r##gemm) F(rcgemv, reproBLAS_r##z##gemv) F(rcgemm, reproBLAS_r##z##gemm) \
  F(sum, reproBLAS_##r##sum) F(asum, reproBLAS_##r##asum) F(nrm2, reproBLAS_##r##nrm2) F(dot, reproBLAS_##r##dot) \
  F(csum, reproBLAS_##z##sum_sub) F(casum, reproBLAS_##r##z##asum) F(cnrm2, reproBLAS_##r##z##nrm2) \
  F(cdotu, reproBLAS_##z##dotu_sub) F(cdotc, reproBLAS_##z##dotc_sub) \
  F(gemv, reproBLAS_##r##gemv) F(gemm, reproBLAS_##r##gemm) F(cgemv, reproBLAS_##z##gemv) F(cgemm, reproBLAS_##z##gemm)

#define DECL(m, f) decltype(&f) m = nullptr;
#define LOAD(m, f) m = (decltype(m))sym(h, #f);

inline void *sym(void *h, const char *n) {
  void *p = dlsym(h, n);
  if (!p) { fprintf(stderr, "symbol %s missing from the library\n", n); exit(2); }
  return p;
}
template <class T> struct Fam;
template <> struct Fam<double> {
  typedef double T;
  FAM_BINNED(DECL, d, z, dbsize, ufp) FAM_BLAS(DECL, d, z)
  void load(void *h, bool blas) { FAM_BINNED(LOAD, d, z, dbsize, ufp) if (blas) { FAM_BLAS(LOAD, d, z) } }
};
template <> struct Fam<float> {
  typedef float T;
  FAM_BINNED(DECL, s, c, sbsbze, ufpf) FAM_BLAS(DECL, s, c)
  void load(void *h, bool blas) { FAM_BINNED(LOAD, s, c, sbsbze, ufpf) if (blas) { FAM_BLAS(LOAD, s, c) } }
};
struct Lib {
  Fam<double> d; Fam<float> s; void *h = nullptr; std::string name;
  template <class T> Fam<T> &f();
  static Lib open(const char *path, bool blas = true) {
    Lib l; l.h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!l.h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
    l.d.load(l.h, blas); l.s.load(l.h, blas); l.name = path; return l;
  }
};
template <> inline Fam<double> &Lib::f<double>() { return d; }
template <> inline Fam<float> &Lib::f<float>() { return s; }
// the libraries of this run, in the order given in VERIF_LIBS (colon separated)
inline std::vector<Lib> &libs() {
  static std::vector<Lib> v;
  if (v.empty()) {
    const char *e = getenv("VERIF_LIBS");
    if (!e) { fprintf(stderr, "VERIF_LIBS not set\n"); exit(2); }
    std::string s = e; size_t p = 0;
    while (p <= s.size()) { size_t q = s.find(':', p); if (q == std::string::npos) q = s.size();
      if (q > p) v.push_back(Lib::open(s.substr(p, q - p).c_str())); p = q + 1; }
  }
  return v;
}
template <class T> inline Fam<T> &L() { return libs()[0].f<T>(); }
