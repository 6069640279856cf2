/* Shared by the native replay drivers: they run the real code from /repo's current sources under
   AddressSanitizer/UBSan against an executable form of the property, to find (and replay) a
   concrete failing input.  Every oracle here states the property, never the implementation. */
#ifndef DRV_H
#define DRV_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/resource.h>

static uint64_t drv_state, drv_seed, drv_iter, drv_first;
static double drv_budget = 5;
static char drv_hist[1 << 16];
static size_t drv_hlen;

static inline uint64_t rnd(void)
{
  uint64_t z = (drv_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static inline int chance(int n) { return below(n) == 0; }

/* history of the current iteration, printed when something fails */
__attribute__((format(printf, 1, 2))) static inline void note(const char *f, ...)
{
  va_list a;
  if (drv_hlen > sizeof drv_hist - 512)
    return;
  va_start(a, f);
  drv_hlen += vsnprintf(drv_hist + drv_hlen, 400, f, a);
  va_end(a);
  if (drv_hlen > sizeof drv_hist - 512)
    drv_hlen = sizeof drv_hist - 512;
}

static inline void drv_report(void)
{
  fprintf(stderr, "REPLAY seed=%llu iteration=%llu\nHISTORY %.*s\n", (unsigned long long) drv_seed, (unsigned long long) drv_iter, (int) drv_hlen, drv_hist);
  fflush(stderr);
}

__attribute__((format(printf, 1, 2), noreturn)) static inline void fail(const char *f, ...)
{
  va_list a;
  fflush(stdout);
  fprintf(stderr, "FAIL ");
  va_start(a, f);
  vfprintf(stderr, f, a);
  va_end(a);
  fprintf(stderr, "\n");
  drv_report();
  _exit(3);
}
#define expect(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

static void drv_hang(int s)
{
  static const char m[] = "FAIL the operation does not terminate (20 s of CPU time in one iteration)\n";
  (void) s;
  if (write(2, m, sizeof m - 1)) {}
  drv_report();
  _exit(3);
}
static void drv_crash(int s)
{
  fprintf(stderr, "FAIL signal %d (%s)\n", s, s == SIGABRT ? "assertion or abort" : "crash");
  drv_report();
  _exit(3);
}
void __asan_on_error(void);
void __asan_on_error(void) { fprintf(stderr, "FAIL memory error\n"); drv_report(); }

static double drv_now(void)
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}

/* run one(iteration) repeatedly; arguments: seed seconds [only-this-iteration] */
static int drv_main(int argc, char **argv, void (*one)(void))
{
  struct itimerval it = {0};
  double t0 = drv_now();
  long only = -1;
  uint64_t max = 0;
  struct rlimit core = {0};

  setrlimit(RLIMIT_CORE, &core);
  drv_seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  if (argc > 2)
    drv_budget = atof(argv[2]);
  if (argc > 3)
    only = atol(argv[3]);
  (void) max;
  signal(SIGPROF, drv_hang);
  signal(SIGABRT, drv_crash);
  signal(SIGSEGV, drv_crash);
  signal(SIGBUS, drv_crash);
  signal(SIGFPE, drv_crash);
  signal(SIGILL, drv_crash);
  signal(SIGPIPE, SIG_IGN);
  for (drv_iter = only >= 0 ? only : 0; ; drv_iter++)
    {
      it.it_value.tv_sec = 20;
      setitimer(ITIMER_PROF, &it, 0);
      drv_hlen = 0;
      drv_state = drv_seed * 0x100000001b3ull + drv_iter * 0x9e3779b97f4a7c15ull;
      one();
      if (only >= 0 || drv_now() - t0 > drv_budget)
        break;
    }
  printf("iterations=%llu\n", (unsigned long long) (drv_iter + 1));
  return 0;
}

/* allocation accounting (link with --wrap=malloc,calloc,realloc,free,strdup) */
#ifdef DRV_ALLOC
static long drv_live;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) drv_live++; return p; }
void *__wrap_calloc(size_t a, size_t n) { void *p = __real_calloc(a, n); if (p) drv_live++; return p; }
void *__wrap_realloc(void *q, size_t n)
{
  void *p;
  if (q && n == 0) { __real_free(q); drv_live--; return 0; }
  p = __real_realloc(q, n);
  if (!q && p) drv_live++;
  return p;
}
void __wrap_free(void *p) { if (p) drv_live--; __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __wrap_malloc(strlen(s) + 1); return strcpy(p, s); }
#endif
#endif
