// C18: default-fold routines against fold-taking ones.  C19, C20: one build against another.
#include "ops.h"
#ifndef DIDEFAULTFOLD
#include "config.h"
#endif

template <class T> struct DefFold;
template <> struct DefFold<double> { static const int v = DIDEFAULTFOLD; };
template <> struct DefFold<float> { static const int v = SIDEFAULTFOLD; };

template <class T> static void wrappers(Ctx &c) {
  RunOp<T> op; op.draw(c, true); op.fold = DefFold<T>::v; op.m.fold = op.fold; NOTE("%s", op.str().c_str());
  std::vector<T> a = op.run(c, L<T>(), false), b = op.run(c, L<T>(), true); std::string e = op.compare(a, b);
  if (!e.empty()) FAIL("default-fold routine differs from the fold-taking one: %s", e.c_str());
  if (op.interesting()) c.nontrivial();
}
template <class T> static void builds(Ctx &c) {
  RunOp<T> op; op.draw(c); NOTE("%s", op.str().c_str());
  std::vector<T> ref = op.run(c, libs()[0].f<T>());
  for (size_t k = 1; k < libs().size(); k++) {
    std::vector<T> v = op.run(c, libs()[k].f<T>()); std::string e = op.compare(ref, v);
    if (!e.empty()) { const std::string &n = libs()[k].name; FAIL("build %s differs from %s: %s", n.substr(n.rfind('/') + 1).c_str(), libs()[0].name.substr(libs()[0].name.rfind('/') + 1).c_str(), e.c_str()); }
  }
  if (op.interesting()) c.nontrivial();
}
// long inputs whose length sits at the corners of the unrolled and blocked loops
template <class T> static void kernels(Ctx &c) {
  RunOp<T> op; op.draw(c, false, 150); NOTE("%s", op.str().c_str());
  std::vector<T> ref = op.run(c, libs()[0].f<T>());
  for (size_t k = 1; k < libs().size(); k++) {
    std::vector<T> v = op.run(c, libs()[k].f<T>()); std::string e = op.compare(ref, v);
    if (!e.empty()) { const std::string &n = libs()[k].name; FAIL("build %s differs from %s: %s", n.substr(n.rfind('/') + 1).c_str(), libs()[0].name.substr(libs()[0].name.rfind('/') + 1).c_str(), e.c_str()); }
  }
  if (op.interesting()) c.nontrivial();
}

int main(int argc, char **argv) {
  Engine e; std::string prop;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
#define PAIR(name, fn, wt) e.tests.push_back({name "_d", wt, [](Ctx &c) { fn<double>(c); }}); e.tests.push_back({name "_s", wt, [](Ctx &c) { fn<float>(c); }});
  if (prop == "C18") { PAIR("wrappers", wrappers, 1) }
  else { PAIR("builds", builds, 1) PAIR("kernels", kernels, 2) }
  return engine_main(argc, argv, e);
}
