// C29: several threads inside the library at once.  The library is compiled with a hook at every basic block
// (-fsanitize-coverage=trace-pc); a scheduler lets one thread run at a time and switches at the hooks the case
// chooses, so every schedule is reproducible.  The library's writable memory is put back to its state right after
// loading before each case, so the case holds the first use of the library.
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <memory>
#include "ops.h"

static const int MAXT = 6;
struct Sched {
  volatile bool active = false; volatile int cur = -1; volatile long budget = 0; volatile uint64_t hooks = 0; int n = 0, switches = 0; bool forced = false;
  bool done[MAXT]; sem_t sem[MAXT], all; std::vector<std::pair<long, int>> plan; size_t at = 0; pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  void wait(int me) { while (cur != me) sem_wait(&sem[me]); }
  int other(int from, int k) { std::vector<int> v; for (int i = 1; i <= n; i++) { int t = (from + i + n) % n; if (!done[t]) v.push_back(t); } return v.empty() ? -1 : v[k % v.size()]; }
  void give(int t) { cur = t; switches++; sem_post(&sem[t]); }
  void step(int me) {          // the budget of the running thread is used up
    pthread_mutex_lock(&mu); int t;
    if (at < plan.size()) { budget = plan[at].first; t = other(me, plan[at].second); at++; } else { budget = 3000000; t = other(me, 0); }
    if (t >= 0 && t != me) give(t);
    pthread_mutex_unlock(&mu); wait(me);
  }
  void finish(int me) {
    pthread_mutex_lock(&mu); done[me] = true; if (at < plan.size()) budget = plan[at].first; else budget = 3000000; int t = cur == me ? other(me, 0) : -2; if (t >= 0) give(t); if (t == -1) cur = -1;
    bool end = true; for (int i = 0; i < n; i++) end = end && done[i];
    pthread_mutex_unlock(&mu); if (end) sem_post(&all);
  }
};
static Sched S;
static thread_local int me = -1;
extern "C" void __sanitizer_cov_trace_pc(void) {
  if (me < 0 || !S.active) return;
  if (S.cur != me) S.wait(me);
  S.hooks++;
  if (--S.budget <= 0) S.step(me);
}

struct Image { char *at; std::vector<char> bytes; };
static std::vector<Image> images;
static int find_segments(dl_phdr_info *i, size_t, void *base) {
  if (!i->dlpi_name || strcmp(i->dlpi_name, (const char *)base)) return 0;
  size_t r0 = 0, r1 = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { r0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; r1 = (r0 + i->dlpi_phdr[k].p_memsz) & ~(size_t)4095; r0 &= ~(size_t)4095; }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k]; if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
    size_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
    if (r1 > a && r0 <= a) a = r1;
    if (b > a) images.push_back({(char *)a, std::vector<char>((char *)a, (char *)b)});
  }
  return 0;
}
static void fresh() { for (auto &i : images) memcpy(i.at, i.bytes.data(), i.bytes.size()); }

struct Job {
  std::string text; bool nt = false; std::vector<uint64_t> seq; Shm *shm = nullptr; std::string err; std::function<std::string(Ctx &, Lib &, bool)> run;
};
template <class T> static void kernel(Ctx &c, Job &j) {
  auto op = std::make_shared<RunOp<T>>(); op->draw(c, false, 400, false); j.text = op->str(); j.nt = op->interesting();
  auto ref = std::make_shared<std::vector<T>>();
  j.run = [op, ref](Ctx &c, Lib &l, bool first) { std::vector<T> v = op->run(c, l.f<T>()); if (first) { *ref = v; return std::string(); } return op->compare(*ref, v); };
}
// the small operations on accumulators
template <class T> static void small(Ctx &c, Job &j) {
  int fold = draw_fold<T>(c), n = 1 + (int)c.draw(6), kind = (int)c.draw(6); std::vector<T> d = draw_data<T>(c, n + 3, Tr<T>::MINEXP / 4, Tr<T>::EMAX / 4); T big = std::ldexp((T)1, (int)c.draw(60) - 30);
  j.text = sfmt("accumulator operations kind %d <%s> fold %d ", kind, Tr<T>::nm(), fold) + show(d); j.nt = true;
  auto ref = std::make_shared<std::vector<T>>();
  j.run = [=](Ctx &, Lib &l, bool first) {
    Fam<T> &f = l.f<T>(); std::vector<T> a(4 * fold, 0), b(4 * fold, 0), o; 
    switch (kind) {
      case 0: for (T x : d) f.badd(fold, x, a.data()); o = a; o.push_back(f.rbconv(fold, a.data())); break;
      case 1: for (T x : d) f.badd(fold, x, a.data()); f.bconv(fold, d[0], b.data()); f.bnegate(fold, b.data()); f.bbadd(fold, b.data(), a.data()); o = a; break;
      case 2: { T s1 = f.bssq(fold % 6 + 2, n, d.data(), 1, 0, a.data()), x = d[0] * big, s2 = f.bssq(fold % 6 + 2, 1, &x, 1, 0, b.data()); s2 = f.bbaddsq(fold % 6 + 2, s1, a.data(), s2, b.data()); o = b; o.resize(2 * (fold % 6 + 2)); o.push_back(s2); break; }
      case 3: for (int i = 0; i + 1 < (int)d.size(); i++) f.cbadd(fold, &d[i], a.data()); f.cbnegate(fold, a.data()); f.cbrenorm(fold, a.data()); { T r[2]; f.ccbconv(fold, a.data(), r); o.assign(r, r + 2); } break;
      case 4: o.push_back(f.bound(fold, n, d[0], d[1])); o.push_back((T)f.index(d[0])); o.push_back(f.scale(d[0])); { const T *t = f.bins(f.index(d[0])); for (int i = 0; i < fold; i++) o.push_back(t[i]); } break;
      case 5: f.bupdate(fold, d[0] * 2, a.data()); f.bdeposit(fold, d[0], a.data()); f.brenorm(fold, a.data()); o = a; break;
      default: f.cbconv(fold, d.data(), a.data()); f.cbconv(fold, d.data() + 1, b.data()); f.cbbaddv(fold, 1, a.data(), 1, b.data(), 1); o = b;
    }
    if (first) { *ref = o; return std::string(); }
    for (size_t i = 0; i < o.size(); i++) if (!same_val(o[i], (*ref)[i])) return sfmt("number %zu: %a against %a", i, (double)(*ref)[i], (double)o[i]);
    return std::string();
  };
}
struct Arg { Job *j; int id; };
static void *body(void *p) {
  Arg *a = (Arg *)p; int id = a->id; S.wait(id); me = id;
  try { Ctx c; c.shm = a->j->shm; c.shm->n = 0; c.prefix = &a->j->seq; a->j->err = a->j->run(c, libs()[0], false); if (!a->j->err.empty()) a->j->err = "a result differs from the serial one: " + a->j->err; }
  catch (Fail &f) { a->j->err = f.msg; } catch (HarnessError &f) { a->j->err = "harness: " + f.msg; }
  me = -1; S.finish(id); return nullptr;
}
static Shm *shm_of(int i) { static Shm *s[MAXT]; if (!s[i]) s[i] = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return s[i]; }

static void together(Ctx &c, bool first_use) {
  if (images.empty()) { Dl_info di; dladdr((void *)libs()[0].d.bins, &di); dl_iterate_phdr(find_segments, (void *)di.dli_fname); if (images.empty()) throw HarnessError{"the library's data segments were not found"}; }
  int n = 2 + (int)c.draw(first_use ? 4 : 2); std::vector<Job> jobs(n);
  for (int i = 0; i < n; i++) {
    Job &j = jobs[i]; int k = c.weighted({4, 3, 3, 2});
    if (k == 0) small<double>(c, j); else if (k == 1) kernel<double>(c, j); else if (k == 2) small<float>(c, j); else kernel<float>(c, j);
    uint64_t n0 = c.shm->n; j.run(c, libs()[1], true); j.seq.assign(c.shm->choices + n0, c.shm->choices + c.shm->n); j.shm = shm_of(i); NOTE("thread %d: %s", i, j.text.c_str());
  }
  S.n = n; S.switches = 0; S.hooks = 0; S.forced = false; S.plan.clear(); S.at = 0; int np = 1 + (int)c.draw(first_use ? 11 : 15); std::string pl;
  for (int i = 0; i < np; i++) {
    long len; switch (c.weighted(first_use ? std::initializer_list<int>{4, 5, 3, 1} : std::initializer_list<int>{2, 3, 4, 4})) { case 0: len = 1 + (long)c.draw(7); break; case 1: len = 1 + (long)c.draw(60); break; case 2: len = 1 + (long)c.draw(500); break; default: len = 1 + (long)c.draw(9000); }
    int to = (int)c.draw(n - 1); S.plan.push_back({len, to}); pl += sfmt(" %ld>%d", len, to);
  }
  NOTE("%s; basic blocks run before each switch and the thread it goes to:%s", first_use ? "first use of the library" : "library in use", pl.c_str());
  fresh();
  if (!first_use) { libs()[0].d.bins(0); libs()[0].s.bins(0); }
  pthread_t th[MAXT]; Arg args[MAXT];
  for (int i = 0; i < n; i++) { S.done[i] = false; sem_init(&S.sem[i], 0, 0); }
  sem_init(&S.all, 0, 0); S.cur = -1; S.budget = S.plan[0].first; S.at = 1; S.active = true;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  for (int i = 0; i < n; i++) { args[i] = {&jobs[i], i}; if (pthread_create(&th[i], &at, body, &args[i])) throw HarnessError{"pthread_create"}; }
  S.give(0);
  // a thread that waits for a lock held by one that is not running: let the others go on
  uint64_t last = 0; int idle = 0;
  for (;;) {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 4000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
    if (sem_timedwait(&S.all, &ts) == 0) break;
    uint64_t h = S.hooks;
    if (h == last) { idle++; pthread_mutex_lock(&S.mu); int t = S.other(S.cur >= 0 ? S.cur : 0, 0); if (t >= 0 && t != S.cur) { S.forced = true; S.give(t); } pthread_mutex_unlock(&S.mu); } else idle = 0;
    last = h;
    if (idle > 6000) FAIL("the threads do not get any further (deadlock)");
  }
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
  S.active = false; pthread_attr_destroy(&at);
  for (int i = 0; i < n; i++) { sem_destroy(&S.sem[i]); }
  for (int i = 0; i < n; i++) if (!jobs[i].err.empty()) { if (jobs[i].err.substr(0, 9) == "harness: ") throw HarnessError{jobs[i].err}; FAIL("thread %d: %s", i, jobs[i].err.c_str()); }
  int nt = 0; for (auto &j : jobs) nt += j.nt;
  if (nt > 1 && S.switches > n) c.nontrivial();
  if (S.forced) c.label("a thread waited for a lock");
  if (S.switches > 2 * n) c.label("more than two switches per thread");
}

int main(int argc, char **argv) {
  Engine e;
  e.tests.push_back({"first_use", 3, [](Ctx &c) { together(c, true); }});
  e.tests.push_back({"in_use", 2, [](Ctx &c) { together(c, false); }});
  return engine_main(argc, argv, e);
}
