// Shared by the replay drivers: case bookkeeping, failure reports, crash reports.
#ifndef DRV_HH_
#define DRV_HH_
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <array>
#include <memory>
#include <functional>
#include <unistd.h>

namespace drv {
static char cur[4096] = "start";
static char curkey[256] = "crash";
static long ncases = 0, ndistinct = 0;
static int nfails = 0;
static std::map<std::string, int> perkey;

static void put(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }

static void onsig(int sig) {
  // a crash of the code under test is a failure of the current case
  char b[4700];
  snprintf(b, sizeof b, "\nFAIL key=%s-%s %s\n", curkey, sig == SIGALRM ? "hang" : "crash", cur);
  put(b);
  _exit(1);
}

static void init(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig);
}

static void at(const char *fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(cur, sizeof cur, fmt, a); va_end(a);
  for (char *p = cur; *p; p++) if (*p == '\n') *p = ' ';
  ncases++;
  alarm(120);
}
static void sample(const char *fmt, ...) {
  static int n = 0;
  if (n++ >= 6) return;
  char b[2000];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  printf("SAMPLE %s\n", b);
}
// report a failure; at most 5 per key are printed
static void fail(const char *key, const char *fmt, ...) {
  char b[3000];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  for (char *p = b; *p; p++) if (*p == '\n') *p = ' ';
  nfails++;
  if (perkey[key]++ < 3) printf("FAIL key=%s [%s] %s\n", key, cur, b);
}
static bool check(bool ok, const char *key, const char *fmt, ...) {
  if (ok) return true;
  char b[3000];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  fail(key, "%s", b);
  return false;
}
static int done() {
  alarm(0);
  printf("CASES %ld DISTINCT %ld\n", ncases, ndistinct ? ndistinct : ncases);
  fflush(stdout);
  return nfails ? 1 : 0;
}
static bool close_(double a, double b, double scale = 1.0, double tol = 1e-9) {
  double s = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  if (s < scale) s = scale;
  return std::fabs(a - b) <= tol * s;     // false for NaN
}
struct Rng {
  unsigned long long s;
  explicit Rng(unsigned long long seed) : s(seed * 2654435761ULL + 88172645463325252ULL) {}
  unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (unsigned long long)n); }
  double real() { return (double)(next() >> 11) / 9007199254740992.0; }
  double real(double a, double b) { return a + (b - a) * real(); }
};
template<class V> std::string show(V const& v) {
  std::string s = "[";
  for (auto x : v) s += std::to_string(x) + " ";
  return s + "]";
}
static bool thorough() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
static unsigned seed() { const char *t = getenv("VERIF_SEED"); return t ? (unsigned)atoi(t) : 1u; }
}  // namespace drv
#endif
