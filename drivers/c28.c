#define DRV_ALLOC
#include "drv.h"
#include <netdb.h>
#include <pthread.h>
#include <dirent.h>
#include <sys/epoll.h>
#include <reactor.h>

/* workers run when we say so; real eventfd and epoll */
#define N 3
#define T 64
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) { (void) timeout; return __real_epoll_wait(ep, ev, max, 0); }
typedef struct { int valid, ended, joinable; void *(*fn)(void *); void *arg; } thr;
static thr th[T];
static int last;
typedef struct
{
  resolver r;
  int id, phase, th, freed, hasresult, hash, hass, opt[4], asked, ok;
  char host[32], serv[32];
  struct addrinfo *result;
} obj;
static obj *o[N], *working;
static int results;
static int live(pthread_t t, const char *w)
{
  int i = (int) t - 1;
  expect(t >= 1 && t <= T && th[i].valid, "%s of a thread that does not exist", w);
  return i;
}
static void drop(int i)
{
  th[i].ended = 1;
  if (!th[i].joinable)
    th[i].valid = 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
  int i, d = PTHREAD_CREATE_JOINABLE;
  if (a)
    pthread_attr_getdetachstate(a, &d);
  for (i = 0; i < T && th[i].valid; i++)      /* identifiers are reused */
    ;
  expect(i < T, "threads are left behind");
  th[i] = (thr) {1, 0, d == PTHREAD_CREATE_JOINABLE, fn, arg};
  *t = i + 1;
  last = i;
  return 0;
}
int __wrap_pthread_cancel(pthread_t t)
{
  int i = live(t, "pthread_cancel");
  drop(i);
  return 0;
}
int __wrap_pthread_detach(pthread_t t)
{
  int i = live(t, "pthread_detach");
  expect(th[i].joinable, "a thread is detached twice");
  th[i].joinable = 0;
  if (th[i].ended)
    th[i].valid = 0;
  return 0;
}
static void work(int i, obj *x)
{
  working = x;
  th[i].fn(th[i].arg);
  working = 0;
  drop(i);
}
static obj *owner(int i)
{
  for (int j = 0; j < N; j++)
    if (o[j] && o[j]->phase == 1 && o[j]->th == i)
      return o[j];
  return 0;
}
int __wrap_pthread_join(pthread_t t, void **r)
{
  int i = live(t, "pthread_join");
  (void) r;
  expect(th[i].joinable, "a detached thread is joined");
  if (!th[i].ended)
    {
      obj *x = owner(i);
      work(i, x);
      if (x) x->phase = 2;
    }
  th[i].valid = 0;
  return 0;
}
static int same(const char *a, int has, const char *b) { return has ? a && !strcmp(a, b) : !a; }
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res)
{
  obj *x = working;
  expect(x, "names are resolved on the event loop");
  expect(same(h, x->hash, x->host) && same(s, x->hass, x->serv), "other names are resolved");
  expect(hints->ai_family == x->opt[0] && hints->ai_socktype == x->opt[1] && hints->ai_protocol == x->opt[2] && hints->ai_flags == x->opt[3], "other options are used");
  x->asked++;
  x->ok = !chance(3);
  if (!x->ok)
    return EAI_NONAME;
  *res = x->result = calloc(1, sizeof **res);
  results++;
  return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a)
{
  if (!a)
    return;
  results--;
  free(a);
}
static int files(void)
{
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}
static void reset(obj *x)
{
  x->phase = 0;
  x->result = 0;
}
static void act(obj *x, int inside)
{
  switch (below(8))
    {
    case 0: case 1: case 2:
      {
        char *h = 0, *s = 0;
        x->hash = !chance(3);
        x->hass = !chance(3);
        sprintf(x->host, "h%.*s%d", (int) below(20), "aaaaaaaaaaaaaaaaaaaaaaa", (int) below(100));
        sprintf(x->serv, "s%d", (int) below(1000));
        if (chance(10)) *x->host = 0;
        for (int i = 0; i < 4; i++)
          x->opt[i] = chance(3) ? 0 : below(1 << 30);
        if (x->hash) h = strcpy(malloc(strlen(x->host) + 1), x->host);
        if (x->hass) s = strcpy(malloc(strlen(x->serv) + 1), x->serv);
        note("lookup(%d,%d,%d) ", x->id, x->hash, x->hass);
        reset(x);
        resolver_lookup(&x->r, h, s, x->opt[0], x->opt[1], x->opt[2], x->opt[3]);
        free(h);
        free(s);
        x->phase = 1;
        x->asked = 0;
        x->th = last;
        break;
      }
    case 3:
      note("cancel(%d) ", x->id);
      reset(x);
      resolver_cancel(&x->r);
      break;
    case 4:
      if (x->phase)
        break;
      note("clear(%d) ", x->id);
      reset(x);
      resolver_clear(&x->r);
      break;
    case 5:
      if (!chance(3))
        break;
      note("destruct(%d) ", x->id);
      resolver_destruct(&x->r);
      o[x->id] = 0;
      free(x);
      break;
    default:
      (void) inside;
      break;
    }
}
static void callback(reactor_event *ev)
{
  obj *x = 0;
  for (int j = 0; j < N; j++)
    if (o[j] && o[j] == ev->state)
      x = o[j];
  expect(x && x->phase == 2, "something other than a completed lookup is reported");
  note("report(%d,%d) ", x->id, ev->type);
  x->phase = 0;
  expect(ev->type == (x->ok ? RESOLVER_SUCCESS : RESOLVER_FAILURE) && (struct addrinfo *) ev->data == (x->ok ? x->result : 0), "another result is reported");
  if (x->ok)
    expect(x->result->ai_flags == 0, "the addresses are not usable");
  act(x, 1);
}
static void one(void)
{
  long base;
  int nf, nfr;
  memset(o, 0, sizeof o);
  memset(th, 0, sizeof th);
  results = 0;
  nf = files();
  reactor_construct();
  nfr = files();
  base = drv_live;
  for (int t = 3 + below(30); t > 0; t--)
    {
      obj *x = o[below(N)];
      int i = below(N), kept = 0;
      if (!x)
        {
          if (o[i])
            continue;
          o[i] = x = calloc(1, sizeof *x);
          x->id = i;
          resolver_construct(&x->r, callback, x);
        }
      switch (below(4))
        {
        case 0: case 1:
          act(x, 0);
          break;
        case 2:
          if (x->phase == 1)
            {
              note("work(%d) ", x->id);
              expect(th[x->th].valid && !th[x->th].ended, "the worker of a lookup under way was cancelled");
              work(x->th, x);
              expect(x->asked == 1, "the names are resolved %d times", x->asked);
              x->phase = 2;
            }
          break;
        case 3:
          note("loop ");
          reactor_loop_once();
          for (int j = 0; j < N; j++)
            expect(!o[j] || o[j]->phase != 2, "a completed lookup is not reported");
          break;
        }
      for (int j = 0; j < N; j++)
        if (o[j])
          {
            kept += o[j]->result != 0;
            if (o[j]->phase == 1)
              expect(th[o[j]->th].valid && !th[o[j]->th].ended, "the worker of a lookup under way was cancelled");
          }
      expect(kept == results, "%d results are kept, %d are due", results, kept);
    }
  for (int j = 0; j < N; j++)
    if (o[j])
      {
        resolver_destruct(&o[j]->r);
        free(o[j]);
      }
  expect(!results, "%d results are not released once", results);
  expect(drv_live == base, "memory is not released once");
  for (int i = 0; i < T; i++)
    expect(!th[i].valid, "a thread is left behind");
  expect(files() == nfr, "descriptors are left open");
  reactor_destruct();
  expect(files() == nf, "descriptors are left open");
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
