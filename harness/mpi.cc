// C22: the MPI reduction operators and datatypes, driven by a simulated reduction over a stand-in MPI.
#include "sq.h"
#include "mpi.h"

struct MpiLib {
  void *h; Fam<double> d; Fam<float> s; mpistub_state *st;
  MPI_Op (*op[6])(int); MPI_Datatype (*type[6])(int);
  static std::string path(int k) { std::string s = getenv("VERIF_LIBS") ? getenv("VERIF_LIBS") : ""; size_t q = s.find(':'); if (q == std::string::npos) return s; return k ? s.substr(q + 1) : s.substr(0, q); }
  static MpiLib &get(int k) {      // 0: generated code, 1: the generated text that is checked in
    static MpiLib *all[2]; MpiLib *&m = all[k];
    if (!m) {
      m = new MpiLib; m->h = dlopen(path(k).c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!m->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
      m->d.load(m->h, false); m->s.load(m->h, false);
      m->st = ((mpistub_state * (*)()) sym(m->h, "mpistub"))();
      static const char *on[] = {"DBDBADD", "SBSBADD", "ZBZBADD", "CBCBADD", "DBDBADDSQ", "SBSBADDSQ"}, *tn[] = {"DOUBLE_BINNED", "FLOAT_BINNED", "DOUBLE_COMPLEX_BINNED", "FLOAT_COMPLEX_BINNED", "DOUBLE_BINNED_SCALED", "FLOAT_BINNED_SCALED"};
      for (int i = 0; i < 6; i++) { m->op[i] = (MPI_Op(*)(int))sym(m->h, (std::string("binnedMPI_") + on[i]).c_str()); m->type[i] = (MPI_Datatype(*)(int))sym(m->h, (std::string("binnedMPI_") + tn[i]).c_str()); }
    }
    return *m;
  }
  template <class T> Fam<T> &f();
};
template <> Fam<double> &MpiLib::f<double>() { return d; }
template <> Fam<float> &MpiLib::f<float>() { return s; }

template <class T> static void reduce(Ctx &c, int w, bool scaled) {
  typedef Tr<T> R; int pre = (int)c.draw(1); MpiLib &M = MpiLib::get(pre); Fam<T> &f = M.f<T>();
  int fold = draw_fold<T>(c); if (fold > R::MAXIDX) fold = R::MAXIDX;      // the folds the operators are generated for
  int which = (scaled ? 4 : w == 2 ? 2 : 0) + (sizeof(T) == 4), num = 2 * fold * w + (scaled ? 1 : 0);
  static const char *on[] = {"DBDBADD", "SBSBADD", "ZBZBADD", "CBCBADD", "DBDBADDSQ", "SBSBADDSQ"};
  MPI_Op op = M.op[which](fold); MPI_Datatype ty = M.type[which](fold);
  if (M.op[which](fold) != op || M.type[which](fold) != ty) FAIL("%s fold %d: a second request gives another handle", on[which], fold);
  if (M.st->aborts) FAIL("%s fold %d: aborted", on[which], fold);
  if (ty < 5000 || ty >= 5000 + M.st->types || !M.st->type[ty - 5000].committed || M.st->type[ty - 5000].freed) FAIL("%s fold %d: datatype handle %d is not a committed datatype", on[which], fold, ty);
  long want = (long)(w == 2 ? f.cb_size(fold) : f.b_size(fold)) + (scaled ? (long)sizeof(T) : 0);
  if (M.st->type[ty - 5000].size != want || want != (long)(num * sizeof(T))) FAIL("%s fold %d: the datatype covers %ld bytes, an element has %ld", on[which], fold, M.st->type[ty - 5000].size, want);
  if (op < 20000 || op >= 20000 + M.st->ops || M.st->op[op - 20000].freed) FAIL("%s fold %d: handle %d is not an operator", on[which], fold, op);
  MPI_User_function *fn = M.st->op[op - 20000].fn; bool comm = M.st->op[op - 20000].commute;
  int np = 1 + (int)c.draw(c.chance(1, 4) ? 11 : 4), len = c.chance(1, 20) ? 0 : 1 + (int)c.draw(c.chance(1, 4) ? 12 : 3);
  NOTE("%s%s fold %d, %d processes, %d elements", pre ? "checked-in " : "", on[which], fold, np, len);
  struct Proc { std::vector<Model<T>> m; std::vector<Scaled<T>> s; std::vector<T> buf; int lo, hi; };
  std::vector<Proc> P(np); std::set<int> ix; i128 slack = 0; bool anysq = false, negated = false;   // a negated accumulator is normalised only by the next addition to it
  int lo = Profile<T>::MINE, hi = R::EMAX; if (c.chance(1, 2)) { hi = (int)c.range(lo + 3, hi); lo = std::max(lo, hi - 3 * R::W); }
  for (int p = 0; p < np; p++) {
    Proc &q = P[p]; q.lo = q.hi = p; q.buf.assign((size_t)len * num, 0);
    for (int e = 0; e < len; e++) {
      T *b = &q.buf[(size_t)e * num]; int n = (int)c.draw(4); std::vector<T> x = draw_data<T>(c, (size_t)n * w, lo, hi);
      if (!scaled && n && c.chance(1, 25)) { x[c.draw(x.size() - 1)] = c.chance(1, 2) ? (T)INFINITY : (T)NAN; c.label("special value"); }
      NOTE(" process %d element %d: %s", p, e, show(x).c_str());
      if (scaled) {
        q.s.emplace_back(fold); Scaled<T> &m = q.s.back(); T mx = 0; for (T t : x) mx = std::max(mx, (T)std::fabs(t));
        if (n) { T sc = scale_ref<T>(mx); m.scale = sc; for (int pass = 0; pass < 2; pass++) for (T t : x) { volatile T u = t / sc; volatile T v = u * u; pass ? m.m.deposit((T)v) : m.m.update((T)v); } }
        b[0] = m.scale; m.m.write(b + 1, 1, b + 1 + fold, 1); slack += 4 * n; if (!m.m.empty) { ix.insert((int)std::ilogb(m.scale)); anysq = true; }
      } else {
        Model<T> m[2] = {Model<T>(fold), Model<T>(fold)};
        for (int i = 0; i < n; i++) { for (int k = 0; k < w; k++) m[k].add(x[(size_t)i * w + k]); if (w == 1) f.badd(fold, x[i], b); else f.cbadd(fold, &x[(size_t)i * 2], b); }
        if (c.chance(1, 8)) { NOTE("  negated"); negated = true; for (int k = 0; k < w; k++) m[k].negate(); if (w == 1) f.bnegate(fold, b); else f.cbnegate(fold, b); }
        for (int k = 0; k < w; k++) { q.m.push_back(m[k]); if (!m[k].empty && !m[k].spec) ix.insert(m[k].idx); }
      }
    }
  }
  // the reduction: any pair when the operator is registered as commutative, otherwise neighbours with the lower ranks on the left
  std::vector<int> live(np); for (int i = 0; i < np; i++) live[i] = i;
  bool neigh = !comm || c.chance(1, 4); int calls = 0;
  while (live.size() > 1) {
    size_t i, j;
    if (neigh) { i = c.draw(live.size() - 2); j = i + 1; }
    else { i = c.draw(live.size() - 1); j = c.draw(live.size() - 2); if (j >= i) j++; }
    Proc &X = P[live[i]], &Y = P[live[j]];
    // the vectors in guarded memory, handed over in one or several segments
    T *in = (T *)Arena::get().alloc(X.buf.size() * sizeof(T), !c.chance(1, 4)), *io = (T *)Arena::get().alloc(Y.buf.size() * sizeof(T), !c.chance(1, 4));
    if (X.buf.size()) { memcpy(in, X.buf.data(), X.buf.size() * sizeof(T)); memcpy(io, Y.buf.data(), Y.buf.size() * sizeof(T)); }
    int at = 0; bool seg = c.chance(1, 3);
    do { int l = seg ? (int)c.draw(len - at) : len - at; int arg = l; MPI_Datatype t = ty; fn(in + (size_t)at * num, io + (size_t)at * num, &arg, &t); calls++;
      if (arg != l || t != ty) FAIL("%s fold %d changed its length or datatype argument", on[which], fold); at += l; if (seg && l == 0) seg = c.chance(1, 2); } while (at < len);
    NOTE(" process %d into process %d", live[i], live[j]);
    if (X.buf.size() && memcmp(in, X.buf.data(), X.buf.size() * sizeof(T))) FAIL("%s fold %d: the operator modified its input vector", on[which], fold);
    if (Y.buf.size()) memcpy(Y.buf.data(), io, Y.buf.size() * sizeof(T));
    for (size_t k = 0; k < Y.m.size(); k++) Y.m[k].merge(X.m[k]);
    for (size_t k = 0; k < Y.s.size(); k++) Y.s[k].merge(X.s[k]);
    live.erase(live.begin() + i);
    for (int e = 0; e < len; e++) {
      T *b = &Y.buf[(size_t)e * num]; std::string r;
      if (!scaled) for (int k = 0; k < w && r.empty(); k++) { r = Y.m[(size_t)e * w + k].check(b + k, w, b + (size_t)fold * w + k, w, !negated); if (!r.empty()) r = sfmt("component %d: ", k) + r; }
      else {
        Scaled<T> &m = Y.s[e]; if (b[0] != m.scale) r = sfmt("scale is %a, expected %a", (double)b[0], (double)m.scale);
        else { Acc<T> a; a.fold = fold; a.w = 1; a.ip = a.ic = 1; a.packed = true; a.pri = b + 1; a.car = b + 1 + fold; r = check_ssq(a, m.m, 0, !m.m.empty && m.m.idx + fold > lowbin<T>() ? slack : 0); }
      }
      if (!r.empty()) FAIL("%s fold %d, %d processes, element %d of %d after a merge: %s", on[which], fold, np, e, len, r.c_str());
    }
  }
  if (ix.size() > 1) c.label(scaled ? "several scales" : "several bin positions");
  if (np > 2 && len && (scaled ? anysq : !ix.empty())) c.nontrivial();
}

// handles are distinct where they mean different things
static void handles(Ctx &c) {
  int pre = (int)c.draw(1); MpiLib &M = MpiLib::get(pre); bool ty = c.draw(1); std::set<int> seen; std::set<void *> fns; size_t n = 0;
  for (int k = 2 + (int)c.draw(10); k > 0; k--) for (int w = 0; w < 6; w++) {
    int fd = 2 + (int)c.draw((w & 1 ? Tr<float>::MAXIDX : Tr<double>::MAXIDX) - 2); static std::map<int, int> known[2][2][6];
    int h = ty ? M.type[w](fd) : M.op[w](fd);
    for (int v = 0; v < 6; v++) for (auto &o : known[pre][ty][v]) if ((v != w || o.first != fd) ? o.second == h : o.second != h) FAIL("%s %d fold %d: handle %d, %d fold %d: handle %d", ty ? "datatype" : "operator", w, fd, h, v, o.first, o.second);
    known[pre][ty][w][fd] = h; n++;
  }
  NOTE("%zu requests", n); c.nontrivial();
}
// an error from MPI is reported through MPI_Abort and not remembered as success (a second copy of the library, whose tables are empty)
static void faults(Ctx &c) {
  void *h = dlmopen(LM_ID_NEWLM, MpiLib::path((int)c.draw(1)).c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) throw HarnessError{std::string("dlmopen: ") + dlerror()};
  mpistub_state *st = ((mpistub_state * (*)()) sym(h, "mpistub"))();
  static const char *on[] = {"DBDBADD", "SBSBADD", "ZBZBADD", "CBCBADD", "DBDBADDSQ", "SBSBADDSQ"}, *tn[] = {"DOUBLE_BINNED", "FLOAT_BINNED", "DOUBLE_COMPLEX_BINNED", "FLOAT_COMPLEX_BINNED", "DOUBLE_BINNED_SCALED", "FLOAT_BINNED_SCALED"};
  int saved = dup(2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
  std::string err;
  for (int step = 1 + (int)c.draw(6); step > 0 && err.empty(); step--) {
    int which = (int)c.draw(5), max = which & 1 ? Tr<float>::MAXIDX : Tr<double>::MAXIDX, fold = 2 + (int)c.draw(max - 2); bool ty = c.draw(1);
    auto get = (int (*)(int))sym(h, (std::string("binnedMPI_") + (ty ? tn : on)[which]).c_str());
    static const int codes[] = {MPI_ERR_TYPE, MPI_ERR_COUNT, MPI_ERR_INTERN, MPI_ERR_OTHER, MPI_ERR_NO_MEM};
    int at = (int)c.draw(ty ? 2 : 1), code = codes[c.draw(4)];
    NOTE("%s %s fold %d, error %d at call %d", ty ? "datatype" : "operator", (ty ? tn : on)[which], fold, code, at);
    st->calls = 0; st->fail_at = at; st->fail_code = code; st->aborts = 0; st->abort_code = 0;
    int r = get(fold);
    bool hit = at && st->calls >= at; st->fail_at = 0;
    if (hit) {
      if (st->aborts != 1 || st->abort_code != code || st->abort_comm != MPI_COMM_WORLD) err = sfmt("MPI error %d led to %d aborts (code %d)", code, st->aborts, st->abort_code);
      int before = st->calls; int r2 = get(fold);
      if (err.empty() && st->calls == before) err = "after a failed creation the handle is treated as created";
      r = r2; st->aborts = 0; c.nontrivial();
    }
    if (err.empty() && st->aborts) err = "aborted without an error";
    if (err.empty() && (ty ? r < 5000 || r >= 5000 + st->types || !st->type[r - 5000].committed : r < 20000 || r >= 20000 + st->ops)) err = sfmt("handle %d is not valid", r);
  }
  dup2(saved, 2); close(saved); dlclose(h);
  if (!err.empty()) FAIL("%s", err.c_str());
}

int main(int argc, char **argv) {
  Engine e;
  e.tests.push_back({"add_d", 3, [](Ctx &c) { reduce<double>(c, 1, false); }}); e.tests.push_back({"add_s", 3, [](Ctx &c) { reduce<float>(c, 1, false); }});
  e.tests.push_back({"add_z", 3, [](Ctx &c) { reduce<double>(c, 2, false); }}); e.tests.push_back({"add_c", 3, [](Ctx &c) { reduce<float>(c, 2, false); }});
  e.tests.push_back({"addsq_d", 3, [](Ctx &c) { reduce<double>(c, 1, true); }}); e.tests.push_back({"addsq_s", 3, [](Ctx &c) { reduce<float>(c, 1, true); }});
  e.tests.push_back({"handles", 1, handles}); e.tests.push_back({"faults", 1, faults});
  e.per_case_reset = [] { Arena::get().reset(); }; MpiLib::get(0); MpiLib::get(1); return e.main(argc, argv);
}
