// A small property-based testing engine (choice sequences in the style of Hypothesis/minithesis).
// Every random decision of a case is one draw(max) from a recorded sequence: a case is replayed by
// feeding the sequence back and shrunk by editing it (0 is always the simplest value; draws past
// the end give 0). Cases run in a forked child so that crashes and hangs of the code under test are
// failures like any other.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <malloc.h>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct Fail { std::string msg; };
struct HarnessError { std::string msg; };

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31); }
  uint64_t upto(uint64_t max) {
    if (max == ~0ull) return next();
    return (uint64_t)(((unsigned __int128)next() * (max + 1)) >> 64);
  }
};

inline std::string sfmt(const char *f, ...) {
  char buf[1024]; va_list a; va_start(a, f); int n = vsnprintf(buf, sizeof buf, f, a); va_end(a);
  if (n < (int)sizeof buf) return std::string(buf, n < 0 ? 0 : n);
  std::string s(n + 1, 0); va_start(a, f); vsnprintf(&s[0], n + 1, f, a); va_end(a); s.resize(n); return s;
}

static const size_t SHM_CHOICES = 1u << 20;
struct Shm {
  volatile uint64_t case_no;
  volatile uint64_t test_no;
  volatile uint64_t n;
  volatile int state;            // 0 running, 1 passed all, 2 property failed, 3 harness error
  char msg[8192];
  char text[16384];
  uint64_t choices[SHM_CHOICES];
};

struct Ctx {
  Shm *shm;
  Rng rng;
  const std::vector<uint64_t> *prefix = nullptr;   // replay
  bool verbose = false;
  bool nt = false;
  uint64_t hash = 0;
  std::vector<const char *> labels;
  std::string text;

  uint64_t draw(uint64_t max) {
    uint64_t v;
    uint64_t k = shm->n;
    if (prefix) { v = k < prefix->size() ? (*prefix)[k] : 0; if (v > max) v = max; }
    else v = max == 0 ? 0 : rng.upto(max);
    if (k >= SHM_CHOICES) throw HarnessError{"too many choices in one case"};
    shm->choices[k] = v;
    shm->n = k + 1;
    hash = mix64(hash ^ v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  int weighted(std::initializer_list<int> w) {
    int tot = 0; for (int x : w) tot += x;
    int r = (int)draw(tot - 1); int i = 0;
    for (int x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
  }
  void label(const char *s) { labels.push_back(s); }
  void nontrivial() { nt = true; }
  void note(const std::string &s) { if (verbose && text.size() < 15000) { text += s; text += "\n"; } }
  [[noreturn]] void fail(const std::string &m) { throw Fail{m}; }
};
#define NOTE(...) do { if (c.verbose) c.note(sfmt(__VA_ARGS__)); } while (0)
#define FAIL(...) throw Fail{sfmt(__VA_ARGS__)}

struct Test { const char *name; int weight; std::function<void(Ctx &)> fn; };

// Leaves NaN patterns below the stack pointer, so that a variable read before it is set does not look right by luck.
static __attribute__((noinline)) void poison_stack() {
  unsigned char b[20000]; memset(b, 0xff, sizeof b); asm volatile("" : : "r"(b) : "memory");
}

struct Engine {
  std::vector<Test> tests;
  uint64_t seed = 1, cases = 1000;
  int shard = 0, nshards = 1;
  double tlimit = 1e9;
  int cpu_limit = 120;
  std::string out, only, replay, prop;
  Shm *shm;
  std::function<void()> per_case_reset;   // called before every case

  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

  void arm() {
    itimerval it{}; it.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &it, nullptr);
  }
  static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
      else if (ch == '\n') o += "\\n";
      else if (ch < 32 || ch > 126) o += sfmt("\\u%04x", ch);
      else o += ch;
    }
    return o;
  }
  void run_case(Ctx &c, const Test &t) {
    shm->n = 0;
    if (per_case_reset) per_case_reset();
    arm();
    poison_stack();
    t.fn(c);
  }
  uint64_t case_seed(uint64_t i) const {
    uint64_t h = mix64(seed * 0x1000193ull + 77);
    for (char ch : prop) h = mix64(h ^ (unsigned char)ch);
    return mix64(h ^ mix64(i + 12345));
  }
  // Runs one given sequence in a child. 0 pass, 1 failed (normalised sequence in *used), 2 harness error
  int attempt(const Test &t, const std::vector<uint64_t> &seq, std::vector<uint64_t> *used, std::string *msg,
              std::string *text) {
    shm->state = 0; shm->n = 0; shm->msg[0] = 0; shm->text[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      int nul = open("/dev/null", O_WRONLY);
      if (nul >= 0 && !text) { dup2(nul, 2); }
      Ctx c; c.shm = shm; c.prefix = &seq; c.verbose = text != nullptr;
      int rc = 0;
      try { run_case(c, t); }
      catch (Fail &f) { snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str()); rc = 3; }
      catch (HarnessError &f) { snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str()); rc = 4; }
      snprintf(shm->text, sizeof shm->text, "%s", c.text.c_str());
      shm->state = 1;
      _exit(rc);
    }
    int st = 0; waitpid(p, &st, 0);
    std::string m = shm->msg;
    int res;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->state == 1) res = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 4) res = 2;
    else {
      res = 1;
      if (WIFSIGNALED(st)) m = WTERMSIG(st) == SIGPROF ? sfmt("did not finish within %d s of CPU time", cpu_limit)
                                                       : sfmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
      else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) m = sfmt("process ended with status %d (sanitizer report or exit)", WEXITSTATUS(st));
    }
    if (used) used->assign(shm->choices, shm->choices + shm->n);
    if (msg) *msg = m;
    if (text) *text = shm->text;
    return res;
  }
  std::vector<uint64_t> shrink(const Test &t, std::vector<uint64_t> best, std::string &msg) {
    double t0 = now(); int tries = 0;
    bool hang = msg.find("CPU time") != std::string::npos;
    auto ok = [&](std::vector<uint64_t> cand) -> bool {
      if (hang || tries > 4000 || now() - t0 > 40) return false;
      tries++;
      std::vector<uint64_t> used; std::string m;
      if (attempt(t, cand, &used, &m, nullptr) != 1) return false;
      while (!used.empty() && used.back() == 0) used.pop_back();
      if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) return false;
      best = used; msg = m; return true;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool any = true;
    while (any && tries < 4000 && now() - t0 < 40) {
      any = false;
      for (size_t k = best.size() / 2 + 1; k >= 1; k /= 2) {          // delete chunks
        for (size_t i = best.size() >= k ? best.size() - k : 0; ; ) {
          if (i + k <= best.size()) {
            auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + k);
            if (ok(cand)) any = true;
          }
          if (i == 0) break;
          i = i >= k ? i - k : 0;
        }
      }
      for (size_t k = best.size() / 2 + 1; k >= 1; k /= 2) {          // zero chunks
        for (size_t i = 0; i + k <= best.size(); i += k) {
          auto cand = best; bool ch = false;
          for (size_t j = i; j < i + k; j++) { if (cand[j]) ch = true; cand[j] = 0; }
          if (ch && ok(cand)) any = true;
        }
      }
      for (size_t i = 0; i < best.size(); i++) {                      // lower values
        if (!best[i]) continue;
        uint64_t lo = 0, hi = best[i];
        while (lo < hi && i < best.size()) {
          uint64_t mid = lo + (hi - lo) / 2;
          auto cand = best; cand[i] = mid;
          if (ok(cand)) { any = true; hi = i < best.size() ? best[i] : 0; if (hi > mid) hi = mid; } else lo = mid + 1;
        }
        for (size_t k = 1; k <= 4 && i < best.size() && best[i]; k++)   // shorten a list
          for (size_t at = i + 1; at + k <= best.size() && at < i + 24; at += 1) {
            auto cand = best; cand[i]--; cand.erase(cand.begin() + at, cand.begin() + at + k);
            if (ok(cand)) { any = true; break; }
          }
      }
    }
    return best;
  }
  void write_replay(const Test &t, const std::vector<uint64_t> &seq, const std::string &msg, const std::string &text,
                    const std::string &path) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"property\":\"%s\",\"test\":\"%s\",\"message\":\"%s\",\n\"choices\":[", prop.c_str(), t.name, jesc(msg).c_str());
    for (size_t i = 0; i < seq.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)seq[i]);
    fprintf(f, "],\n\"case\":\"%s\"}\n", jesc(text).c_str());
    fclose(f);
  }

  int main(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
      else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10);
      else if (a == "--shard") shard = atoi(v.c_str());
      else if (a == "--nshards") nshards = atoi(v.c_str());
      else if (a == "--time") tlimit = atof(v.c_str());
      else if (a == "--out") out = v;
      else if (a == "--test") only = v;
      else if (a == "--replay") replay = v;
      else if (a == "--prop") prop = v;
      else if (a == "--cpu") cpu_limit = atoi(v.c_str());
    }
#if !defined(__SANITIZE_ADDRESS__)
    // memory from malloc starts as NaN patterns, freed memory is cleared (not kept as it is in the thread's cache)
    if (!getenv("GLIBC_TUNABLES")) { setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1); execv("/proc/self/exe", argv); }
    mallopt(M_PERTURB, 0x100);
#endif
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!only.empty()) {
      std::vector<Test> k;
      for (auto &t : tests) if (only == t.name || (only.back() == '*' && !strncmp(only.c_str(), t.name, only.size() - 1))) k.push_back(t);
      tests = k;
    }
    if (tests.empty()) { fprintf(stderr, "no tests selected\n"); return 2; }
    if (!replay.empty()) {         // replay file: plain numbers after "choices"
      FILE *f = fopen(replay.c_str(), "r"); if (!f) return 2;
      std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
      std::vector<uint64_t> seq; size_t p = s.find("\"choices\":["); p += 11;
      while (p < s.size() && s[p] != ']') { char *e; seq.push_back(strtoull(s.c_str() + p, &e, 10)); p = e - s.c_str(); if (s[p] == ',') p++; }
      std::string msg, text; int r = attempt(tests[0], seq, nullptr, &msg, &text);
      printf("%s%s\n", text.c_str(), r == 1 ? ("FAILS: " + msg).c_str() : r == 0 ? "passes" : ("HARNESS ERROR: " + msg).c_str());
      return r == 1 ? 1 : r == 0 ? 0 : 2;
    }
    int totw = 0; for (auto &t : tests) totw += t.weight;
    std::vector<int> sched; 
    { // smooth weighted round robin: deterministic interleaving
      std::vector<int> cur(tests.size(), 0);
      for (int i = 0; i < totw; i++) { size_t b = 0; for (size_t j = 0; j < tests.size(); j++) { cur[j] += tests[j].weight; if (cur[j] > cur[b]) b = j; } cur[b] -= totw; sched.push_back((int)b); }
    }
    fflush(nullptr);
    shm->state = 0;
    pid_t p = fork();
    if (p == 0) _exit(child(sched));
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->state == 1) return 0;
    std::string m = shm->msg;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { fprintf(stderr, "harness error: %s\n", m.c_str()); return 2; }
    const Test &t = tests[shm->test_no];
    std::vector<uint64_t> seq(shm->choices, shm->choices + shm->n);
    uint64_t cno = shm->case_no;
    std::string msg, text; std::vector<uint64_t> used;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) { fprintf(stderr, "worker killed from outside\n"); return 2; }
    int r = attempt(t, seq, &used, &msg, nullptr);
    if (r == 2) { fprintf(stderr, "harness error: %s\n", msg.c_str()); return 2; }
    if (r == 0) {   // passes alone: it may depend on what earlier cases left behind in the library
      std::string m1 = !m.empty() ? m : WIFSIGNALED(st) ? sfmt("worker killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : std::string("worker ended abnormally");
      int sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
      // the oracle itself saw it, or memory was corrupted: true of that run whether or not it recurs
      bool oracle = WIFEXITED(st) ? WEXITSTATUS(st) != 2 : sg == SIGSEGV || sg == SIGABRT || sg == SIGBUS || sg == SIGFPE || sg == SIGILL;
      fflush(nullptr); shm->state = 0; shm->msg[0] = 0;
      p = fork(); if (p == 0) _exit(child(sched)); waitpid(p, &st, 0);
      std::string m2 = shm->msg;
      bool again = WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 4 ? shm->case_no == cno : WIFSIGNALED(st) && shm->case_no == cno;
      if (!again && !oracle) {
        fprintf(stderr, "harness error: case %llu of %s does not reproduce: %s\n", (unsigned long long)cno, t.name, m1.c_str());
        return 2;
      }
      attempt(t, seq, nullptr, &msg, &text);
      FILE *f = fopen((out + ".replay").c_str(), "w");
      if (f) { fprintf(f, "{\"property\":\"%s\",\"test\":\"\",\"message\":\"%s\",\n\"history\":{\"seed\":%llu,\"shard\":%d,\"nshards\":%d,\"cases\":%llu},\n\"case\":\"%s\"}\n", prop.c_str(), jesc(m1).c_str(), (unsigned long long)seed, shard, nshards, (unsigned long long)cno + 1, jesc(text).c_str()); fclose(f); }
      printf("FAILED test=%s case=%llu: %s (%s)\n%s\n", t.name, (unsigned long long)cno, m1.c_str(), again ? "only after the earlier cases of the same process" : "seen once; the same cases passed when run again", text.c_str());
      return 1;
    }
    std::vector<uint64_t> best = shrink(t, used, msg);
    attempt(t, best, nullptr, &msg, &text);
    write_replay(t, best, msg, text, out + ".replay");
    printf("FAILED test=%s case=%llu choices=%zu: %s\n%s\n", t.name, (unsigned long long)cno, best.size(), msg.c_str(), text.c_str());
    return 1;
  }

  int child(const std::vector<int> &sched) {
    double t0 = now();
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::pair<int, uint64_t>> sample_of;
    std::vector<uint64_t> per(tests.size(), 0), nts(tests.size(), 0), sampled(tests.size(), 0);
    uint64_t evals = 0, ntc = 0; bool truncated = false;
    std::string samples;
    for (uint64_t i = shard; i < cases; i += nshards) {
      if ((evals & 15) == 0 && now() - t0 > tlimit) { truncated = true; break; }
      int ti = sched[(i / nshards) % sched.size()];
      shm->case_no = i; shm->test_no = ti;
      bool want = false;
      Ctx c; c.shm = shm; c.rng = Rng(case_seed(i));
      try { run_case(c, tests[ti]); }
      catch (Fail &f) { snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str()); return 3; }
      catch (HarnessError &f) { snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str()); return 4; }
      evals++; per[ti]++;
      for (auto l : c.labels) labels[l]++;
      if (c.nt) { ntc++; nts[ti]++; distinct.insert(mix64(c.hash ^ mix64(ti)));
        if (shard == 0 && sampled[ti] < 1 && shm->n < 400) { sampled[ti]++; want = true; } }
      if (want) {
        std::vector<uint64_t> seq(shm->choices, shm->choices + shm->n);
        Ctx v; v.shm = shm; v.prefix = &seq; v.verbose = true;
        try { run_case(v, tests[ti]); } catch (...) {}
        std::string tx = v.text; if (tx.size() > 1500) tx.resize(1500);
        if (!samples.empty()) samples += ",";
        samples += sfmt("{\"test\":\"%s\",\"case_no\":%llu,\"case\":\"%s\"}", tests[ti].name, (unsigned long long)i, jesc(tx).c_str());
      }
    }
    itimerval it{}; setitimer(ITIMER_PROF, &it, nullptr);
    FILE *f = fopen(out.c_str(), "w");
    if (!f) { snprintf(shm->msg, sizeof shm->msg, "cannot write %s", out.c_str()); return 4; }
    fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"truncated\":%s,\"wall\":%.2f,\"per_test\":{", (unsigned long long)evals,
            (unsigned long long)ntc, truncated ? "true" : "false", now() - t0);
    for (size_t k = 0; k < tests.size(); k++) fprintf(f, "%s\"%s\":[%llu,%llu]", k ? "," : "", tests[k].name, (unsigned long long)per[k], (unsigned long long)nts[k]);
    fprintf(f, "},\"labels\":{"); bool first = true;
    for (auto &l : labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "},\"samples\":[%s]}\n", samples.c_str()); fclose(f);
    f = fopen((out + ".hash").c_str(), "wb");
    for (uint64_t h : distinct) fwrite(&h, 8, 1, f);
    fclose(f);
    shm->state = 1;
    return 0;
  }
};
